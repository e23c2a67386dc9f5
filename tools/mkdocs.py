"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; the outputs are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "beschi/writers/"
B = "beschi/writers/boilerplate/"
SIXF = [W + x for x in ("c.py", "csharp.py", "go.py", "rust.py", "typescript.py", "zig.py")]
SIXB = [B + x for x in ("C.0.h", "C.1.h", "C.2.h", "CSharp.0.cs", "CSharp.1.cs", "Go.go", "Rust.rs", "TypeScript.ts", "Zig.zig")]
GEN = ["beschi/cli.py", "beschi/protocol.py", "beschi/writer.py"]
SIX = "the generated C, C#, Go, Rust, TypeScript and Zig code"

P = []


def p(id, title, statement, over, text, why, files, mech, observe, note, tech="deterministic simulation with fault injection (seeded search)"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, tech=tech))


p("C01", "Messages cross languages and faulty networks exactly once, in order, unchanged",
  "Whatever messages of a protocol are written by " + SIX + ", sent in any fragments over connections that are cut or reordered and re-established by a simple sequence-numbered session, possibly relayed (decoded and re-encoded) through nodes in other languages that crash and restart, every receiver ends up with exactly the messages sent, in order, each field equal. A reader holding an incomplete message reports an error (or leaves it unread) and succeeds later when the rest has arrived; it never invents, skips or alters a message. Once faults stop, everything sent is delivered within a bounded number of steps.",
  ["inputs", "schedules", "crash_points", "fault_sequences", "configurations"],
  "All protocols (types, nesting, size types, enum encodings, 1-255 message types), values, language paths, fragmentations, cuts, crashes, loss/duplication/reordering.",
  "Tests exchange fixed sample files of a few fixed protocols between language pairs; they never fragment, cut, reorder, relay or draw protocols and values.",
  SIXF + SIXB, [("tagged message writers/readers", W), ("stream processing of tagged messages", B), ("size type and enum encodings", "beschi/protocol.py")],
  ["messages delivered by readers", "bytes written", "error results"],
  "Seeded search over protocols, values, language paths and network faults against the sent history; six generated-code languages run for real. Swift and AssemblyScript cannot run here.")
p("C02", "All languages write one canonical encoding, byte for byte, whatever the history",
  "For every protocol and value, the generated C, C#, Go, Rust, TypeScript and Zig code writes exactly the documented little-endian encoding (tag byte, fields in declaration order, lists and strings prefixed by the protocol's size types, enums in their smallest type, packed batches with their header), so logs replicated through any languages stay byte-identical. This holds whether the value was built locally, decoded from another node's bytes, changed in place since it was last written, or written before into an output that was too small, and for tagged, untagged and packed forms.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "All protocols, values, origins of the value (built, decoded, after failed writes or restarts) and languages.",
  "Tests compare files of fixed samples; they do not re-encode decoded values, vary size types with the values, or write after failures.",
  SIXF + SIXB, [("WriteBytes / PackMessages of each language", W)], ["bytes written"],
  "Byte comparison with an independent reference encoder at every replica over drawn replication histories with faults and restarts.")
p("C03", "The announced size is exactly the number of bytes written",
  "For every message, wherever it came from and however it was changed since, the size computed by the generated C, C#, Go, Rust, TypeScript and Zig code equals the number of bytes writing it takes (plus one for the tag when written tagged), and the announced size of a packed batch equals what packing it takes. A writer given exactly that much room succeeds and fills it completely, so records placed back to back in shared storage never overlap or leave holes.",
  ["inputs", "histories", "configurations"],
  "All protocols, values (including non-ASCII strings and nested lists), origins of the value, batches, and orders of reservations and writes.",
  "Tests check sizes of a few sample messages; strings outside ASCII, nested lists, odd size types and decoded values are not covered.",
  SIXF + SIXB, [("GetSizeInBytes / packed size", W)], ["announced sizes", "bytes written"],
  "Announced sizes compared with a reference encoder and with the real writer filling an exactly sized region in shared simulated segments.")
p("C04", "Exhausted or failing output is reported, and nothing outside it is written",
  "When a fixed output buffer (C, TypeScript) or output stream (C#) runs out at any byte, or a C# stream fails at any byte, while a message or packed batch is being written, the writer reports an error: it never claims success, never writes outside the space it was given, and what it did write is a prefix of the encoding. The same object can afterwards be written in full to a healthy output.",
  ["inputs", "fault_sequences", "histories"],
  "All messages and batches, every byte position at which output ends or fails, every start position inside the buffer, and sequences of failed and successful attempts.",
  "Tests write into ample buffers, and one checks one short buffer; the byte at which space ends is quantified over all positions.",
  [W + "c.py", W + "csharp.py", W + "go.py", W + "typescript.py", B + "C.1.h", B + "C.2.h", B + "CSharp.0.cs", B + "CSharp.1.cs", B + "Go.go", B + "TypeScript.ts"],
  [("bounds checks of the writers", W), ("PackMessages", B)], ["error results", "memory around the buffer (canaries, address sanitizer)", "bytes taken by the stream"],
  "Every run exhausts or breaks outputs at drawn bytes with canaries and address sanitizer around them. Go's writers have no error result at all (KNOWN-FINDING, two entries); for Go everything else (no crash, prefix, retry) is checked.")
p("C05", "Truncated input is always reported, never accepted as complete",
  "If the sender dies so that only a strict prefix of a message, or of a packed batch that is missing some of its messages, ever arrives, reading it in the generated C, C#, Go, Rust, TypeScript or Zig code reports an error, wherever the cut falls and however the bytes are fragmented. It never returns a message built from missing bytes, crashes, or waits forever, and reading the complete bytes later succeeds.",
  ["inputs", "crash_points", "schedules"],
  "All messages and batches, every cut position, all fragmentations of what did arrive, on buffers and on streams.",
  "One test per language reads one truncated sample; strings, nested structs, lists and headers cut at each byte are not covered.",
  SIXF + SIXB, [("bounds checks of the readers", W), ("UnpackMessages", B)], ["error results", "returned messages"],
  "Drawn cuts of drawn messages and batches, including streaming reads in Go and C# with drawn fragmentation.")
p("C06", "An append-only log of messages recovers to its last whole record after any crash",
  "A process appending tagged messages to a log crashes at any point, leaving everything it had synced and an arbitrary prefix of the rest (or that prefix with a zero-filled tail). The next incarnation, in any of C, C#, Go, Rust, TypeScript and Zig, reads back exactly the whole records in order, reports an error if the log ends inside a record, stops cleanly at a zero byte where a tag is expected, and after truncating to the last whole record can continue appending and reading.",
  ["crash_points", "histories", "configurations"],
  "All record histories, sync and crash points, torn tails, and successions of languages.",
  "No test crashes a writer or reads a torn log.",
  SIXF + SIXB, [("stream processing of tagged messages, end of list tag 0", B)], ["recovered messages", "error results", "reader position"],
  "Several incarnations per run on a simulated disk; acknowledged (synced) records must survive, the rest must be a prefix.")
p("C07", "Corrupted or hostile bytes are reported or decoded as the bytes say, never worse",
  "For arbitrary input bytes (flipped, lost, inserted or duplicated bytes, damaged lengths, enums, tags, or noise), reading in the generated C, C#, Go, Rust, TypeScript or Zig code either reports an error or returns exactly the value the documented format gives those bytes; every enum it returns is a declared value. It never crashes, hangs, or touches memory outside the input, and the same process then reads intact data correctly.",
  ["inputs", "fault_sequences"],
  "All byte strings reachable by damaging encodings at any place, and plain noise, on buffers and streams, followed by intact input.",
  "Tests read intact files and a single bad enum sample; the corruption space is unbounded.",
  SIXF + SIXB, [("bounds and enum checks of the readers", W)], ["error results", "returned values", "process health (address/undefined-behaviour sanitizers, debug assertions)"],
  "Differential against a reference decoder, lenient only for strings that are not UTF-8 and negative lengths (refused or accepted, but safely).")
p("C08", "Unknown types are errors, a zero tag ends a stream, versions can be mixed",
  "While a cluster of nodes in C, C#, Go, Rust, TypeScript and Zig is upgraded one by one from one protocol version to one with more message types appended, every node reads all messages of the types it knows, reports an error when it meets a type it does not know (returning nothing made up), and stops cleanly, without reading further, at a zero tag. Upgraded nodes read everything old nodes wrote, and both versions encode the common messages identically.",
  ["histories", "schedules", "configurations", "inputs"],
  "All protocol pairs (old, old plus messages), upgrade orders, streams with terminators and unknown types at any position.",
  "Tests run one protocol version; none reads an unknown tag in a stream or continues past a terminator.",
  SIXF + SIXB, [("message type dispatch", B)], ["returned messages", "error results", "reader position"],
  "Rolling upgrades with drawn order and streams; every node's result is compared with what its version can know.")
p("C09", "A packed batch is unpacked entirely and correctly or reported as an error",
  "Packing writes the documented header and exactly the given messages, at the output's current position; unpacking an intact batch at the input's current position, in any of C, C#, Go, Rust, TypeScript and Zig, returns exactly those messages. If the magic is wrong, the batch is cut short, or fewer messages than announced stand before its end marker, unpacking reports an error instead of a partial list, without crashing or reserving memory without bound; it never returns more or fewer messages than the batch announces.",
  ["inputs", "fault_sequences", "configurations"],
  "All batches (0 to hundreds of messages), language pairs, damaged headers, counts, truncations, early terminators and following bytes.",
  "Tests unpack intact batches and two damaged headers at position zero.",
  SIXB + SIXF, [("PackMessages / UnpackMessages", B)], ["returned messages", "error results", "bytes written"],
  "Drawn batches with drawn damage, decided by a reference decoder.")
p("C10", "Limited reads return the next messages and leave the cursor exactly after them",
  "Reading at most k messages from a stream returns the next min(k, available) messages and leaves the cursor exactly after them, so draining a stream through any sequence of limits, fragmentations and restarts from the stored position yields every message exactly once in order. On blocking streams the reader does not wait for bytes beyond the messages it was asked for. This holds for the generated C, C#, Go, Rust, TypeScript and Zig code, with a limit of zero and no limit included.",
  ["schedules", "histories", "crash_points", "inputs"],
  "All message histories, sequences of limits, fragmentations, restarts and languages.",
  "Tests use one limit on one sample.",
  SIXB, [("ProcessRawBytes limit and position", B)], ["returned messages", "reader position", "bytes requested from the stream"],
  "Consumers drain logs through drawn limits and restarts; over-reading a blocking stream is a violation.")
p("C11", "A failed allocation is reported, leaks nothing, and can be retried (C, Zig)",
  "If any one allocation (or every allocation from some point on) fails while generated C or Zig code creates, reads, unpacks, processes, writes or packs messages, the operation reports an error or still produces the correct result; it never crashes, corrupts other objects, or leaves memory behind that nobody can release. With memory available again the same operation succeeds.",
  ["fault_sequences", "inputs"],
  "Every allocation index of every operation on all messages, single and persistent failure, also on damaged input and with malloc(0) returning NULL.",
  "No test injects an allocation failure.",
  [W + "c.py", W + "zig.py", B + "C.1.h", B + "C.2.h", B + "Zig.zig"], [("error paths of readers and constructors", W)], ["error results", "allocator's live blocks", "address sanitizer"],
  "Allocator seam: the simulator counts blocks and decides which allocation fails; address sanitizer and leak accounting.")
p("C12", "Objects own their memory through any history of use (C, Zig)",
  "Through any history of creating, decoding, changing, copying, writing, packing and releasing messages and lists in generated C or Zig code, every live object keeps its content, also after the input buffer it was decoded from is overwritten and released and after other reads fail; releasing everything returns all memory, with no leak, double free or use after free.",
  ["histories", "inputs"],
  "All histories of operations on many objects, including failing reads of truncated and damaged bytes.",
  "Tests create and free a few objects in straight lines.",
  [W + "c.py", W + "zig.py", B + "C.1.h", B + "C.2.h", B + "Zig.zig"], [("destructors, list ownership", W)], ["object contents", "allocator's live blocks", "address sanitizer"],
  "Random operation histories with content snapshots of every live object and block accounting.")
p("C13", "Concurrent users of the generated code do not disturb one another",
  "Tasks reading and writing their own data through the same generated module, interleaved at every stream read, stream write and allocation (C, C#, Go, Rust, Zig) or call by call (all six languages), each get exactly what they would get alone, also when one of them meets a truncated stream, a failing device or a failing allocation. Results handed out earlier do not change while others run.",
  ["schedules", "fault_sequences", "inputs"],
  "All interleavings of 2-6 tasks at these points, with different protocols, start positions and faults.",
  "Tests are single-threaded and use one buffer at a time.",
  SIXF + SIXB, [("absence of shared mutable state in the generated modules", W)], ["each task's results, bytes and objects"],
  "Cooperative scheduler parks each task at its I/O or allocation and the seed decides who continues; each task is compared with its solo result.")
p("C14", "New messages hold the documented defaults, whatever happened before",
  "A message newly created in generated C, C#, Go, Rust, TypeScript or Zig code holds zero, false, the empty string, empty lists and each enum's first declared value, recursively through nested structs, and writes as such, no matter what was decoded, changed, failed or released in the process before. Filling it changes no other object, present or future.",
  ["histories", "configurations", "fault_sequences"],
  "All protocols and all histories before and after creation, including recycled memory, failed reads and failed allocations.",
  "Tests inspect defaults of one message in a new process.",
  SIXF + SIXB, [("constructors and default values", W)], ["fields and encoding of fresh messages"],
  "Fresh messages are requested at drawn points of drawn histories; memory handed out in C and Zig is filled with garbage first.")
p("C15", "Stream I/O errors surface and legal stream behaviour is tolerated (Go, C#)",
  "When the stream under a Go or C# read fails at any byte that the operation still needs, the operation reports an error, also between messages; when the stream merely delivers few bytes at a time, nothing at all for a while (Go), or its last bytes together with the end of stream, the operation succeeds with the right messages. It never waits on a stream that has ended or failed, and the messages before the failure can still be read.",
  ["fault_sequences", "schedules", "inputs"],
  "All fragmentations and all positions of an error or end of stream, for single reads, stream processing and unpacking.",
  "Tests read complete files and in-memory buffers.",
  [W + "go.py", W + "csharp.py", B + "Go.go", B + "CSharp.0.cs", B + "CSharp.1.cs"], [("io.Reader / BinaryReader use", B)], ["error results", "returned messages"],
  "Each stream read parks and the simulator answers with bytes, an error, or the end.")
p("C16", "A generator run that fails or is killed early leaves existing output untouched",
  "If the command line tool cannot read or does not accept its protocol, cannot read its own files, or is killed or interrupted before its output is complete in memory, it ends with a nonzero status (or by the signal), leaves an existing output file and every other file exactly as they were and (unless killed outright) no new file behind, and never hangs, for every target language and also for torn, damaged or cyclic protocol files. Run again undisturbed, the same command works.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every file operation before the output is opened, each failing or being the point of death; all kinds of damaged protocol files; all eight languages.",
  "Tests run the generator on good files, and check a fixed set of invalid protocols for an exception, not what happens to the output or under I/O errors.",
  GEN + SIXF + [W + "swift.py", W + "assemblyscript.py"], [("the output is generated in memory before the output file is opened", "beschi/cli.py"), ("protocol validation", "beschi/protocol.py")],
  ["exit status", "the directory afterwards"],
  "The real tool in a real process; every file operation parks in an LD_PRELOAD shim and the simulator decides its outcome.")
p("C17", "Exit status zero from the generator means complete, correct output",
  "Whatever the disk does while the generator runs (errors, full disk, quota, short or interrupted reads and writes, failing close), exit status zero means the output file or standard output holds exactly what an undisturbed run writes; otherwise the status is nonzero. Short and interrupted operations alone never make it fail, it changes nothing but its output, and leaves no other file behind when it succeeds.",
  ["fault_sequences", "crash_points", "configurations"],
  "Every file operation and every outcome the operating system may give it; output to file and to standard output; all eight languages and options.",
  "Tests never make an operation fail.",
  GEN + ["beschi/writers/__init__.py"], [("exceptions of writing and closing the output bubble out", "beschi/cli.py")], ["exit status", "output", "the directory afterwards"],
  "As C16, with faults anywhere including the destination.")
p("C18", "Generation is deterministic under any environment, history and concurrency",
  "For the same protocol file and options the generator writes the same bytes for every target language, whatever the locale, environment variables, working directory and files in it, hash seed, directory order, clock, host, random numbers and timing of file operations, whatever was generated (or failed) earlier in the same process, and however many generators run at the same time, some of them killed or the protocol atomically replaced meanwhile (then each output belongs to one version).",
  ["configurations", "histories", "schedules"],
  "All environments, in-process histories and interleavings of generator processes at file operations.",
  "Tests generate once per process in one environment.",
  GEN + SIXF + [W + "swift.py", W + "assemblyscript.py"], [("no iteration over unordered sets, no module-level state across writers", "beschi/writer.py")], ["output bytes"],
  "Outputs of drawn environments, histories and interleavings compared byte for byte with a fresh undisturbed run.")
p("C19", "Generator options and namespaces never change what nodes say or accept",
  "Code generated from one protocol with different options (--namespace, --indent, --embed-protocol, --go-no-rename, --rust-no-rename, --typescript-use-namespace), with the namespace given in the protocol, on the command line or not at all, and with any comments in the protocol file, behaves alike: in C, C#, Go, Rust, TypeScript and Zig such code compiles, writes the same bytes, announces the same sizes, has the same defaults, and accepts, rejects and consumes the same input. Fleets whose nodes were built with different options and are rebuilt with others between restarts exchange records over lossy, damaging and repeating links without any node noticing.",
  ["configurations", "inputs", "fault_sequences", "histories"],
  "All protocols, option combinations, languages, values, link faults and sequences of rebuilds and restarts.",
  "Tests try single options on a single protocol and never mix differently generated code.",
  GEN + SIXF, [("option handling and renaming", W), ("embedded protocol", "beschi/writer.py")], ["bytes written", "announced sizes", "messages delivered", "error results"],
  "Groups of worlds that differ only in options and comments; every node's bytes and readings compared with the reference codec, and on damaged input all builds of one language with each other.")

p("C20", "Invalid protocols are always refused and valid ones accepted, edit after edit",
  "However often a protocol file is edited and generated again, by fresh processes or by one that stays alive, and whatever the operating system legally does to the file operations meanwhile: a protocol that breaks a rule of docs/protocols.md is refused with a nonzero status and a message, and nothing is output, for every target language. The rules: every member is a base type, a struct, an enum, or a list of one of these, never a list of lists or a message; the file is TOML; no whitespace in the names of namespaces, types, members and enum entries; every struct, message and enum has a string _name; an enum has _values, all strings or all tables with a string _name and an integer _value, no entry or value twice, within 32 signed bits (or a byte, 16 bits); names of structs, messages and enums are unique; no type or member is named like a base type, list or string, and no enum entry like a struct or message; no circular references, direct or through lists; size types are integral; at most 255 message types. A protocol that keeps them all is accepted and generated as a fresh run generates it, whatever the order of its declarations.",
  ["inputs", "histories", "configurations", "schedules"],
  "All protocols, all single edits that break or keep a rule, all sequences of such edits in one process or several, all eight languages.",
  "Tests check one fixed invalid file per rule, each in a fresh Protocol object, never the command line tool, its output file or a sequence of edits.",
  GEN, [("protocol validation", "beschi/protocol.py"), ("errors end the run before the output is opened", "beschi/cli.py")], ["exit status", "standard error", "output file"],
  "A developer's edit session simulated: drawn edits of drawn protocols at drawn places, each breaking one documented rule or none.")

NA = [
    dict(id="C91", title="Every accepted protocol yields code that compiles in every target language",
         statement="For every protocol the generator accepts, the generated code of each target language compiles without errors.",
         over=["inputs", "configurations"], text="All protocols and options.", why="Tests compile a handful of protocols.", files=SIXF, mech=[("code emission", W)], observe=["compiler exit status"],
         reason="A pure function of the protocol with no nondeterminism or fault to simulate. The worlds of C01-C15 are drawn per seed and must compile to run, which covers a sample as a side effect."),
    dict(id="C92", title="Swift and AssemblyScript code keeps the same wire guarantees",
         statement="Properties C01-C10 and C14 hold for generated Swift and AssemblyScript code too.",
         over=["inputs", "schedules", "fault_sequences"], text="As C01-C10, C14.", why="Tests for these targets need their toolchains.", files=[W + "swift.py", W + "assemblyscript.py"], mech=[("writers", W)], observe=["bytes, results"],
         reason="Neither a Swift nor an AssemblyScript toolchain is installed, so no node of these languages can run in the simulator. Their generation is covered by C16-C18."),
]


def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for x in P + NA:
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
                                "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                                                                        "observe_at": x["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m sim.setup",
         "checks": [{"property": x["id"], "quick_cmd": f"python3 -m sim.check {x['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 -m sim.check {x['id']}",
                     "evidence_file": f"evidence/{x['id']}.json", "technique": x["tech"], "level": "exploration", "level_note": x["note"]} for x in P],
         "not_applicable": [{"property": x["id"], "reason": x["reason"]} for x in NA],
         "notes": "No hooks in /repo: every seam is an argument of the generated code (streams, buffers, allocators), a process boundary, or the C library under the generator."}
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
