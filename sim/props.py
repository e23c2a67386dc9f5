"""Registry: which scenarios decide which property, over which nodes, with how many runs."""
from .build import LANGS
from .worlds import make_worlds
from . import scen_net

SIX = "generated C, C#, Go, Rust, TypeScript and Zig code from /repo's working tree, each in its own process; their standard libraries"
NETSTUB = "network, session layer (resume, sequence numbers, retransmission), clock, application (Python simulator)"


class Prop:
    def __init__(self, id, scenarios, langs=LANGS, quick=14000, thorough=60000, cap=(150, 1500), rule="", real=SIX, stubs=NETSTUB,
                 assumptions=(), probes=(), builder=None, finish=None, worlds=None):
        self.id, self.scenarios, self.langs = id, scenarios, list(langs)
        self.runs = {"quick": quick, "thorough": thorough}
        self.cap = {"quick": cap[0], "thorough": cap[1]}
        self.rule, self.real, self.stubs, self.assumptions = rule, real, stubs, list(assumptions)
        self.expect_probes, self.builder, self.finish = list(probes), builder, finish
        self.worlds = worlds or (lambda seed, tier: make_worlds(seed))


PROPS = {}


def add(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.id] = p



ONE = "one run = one seed = one exactly repeatable execution, decided by one recorded choice sequence: "
ALLOC = "application and allocator (Python simulator; malloc/calloc/realloc/free, respectively std.mem.Allocator, answer from the simulator)"
STORE = "storage, clock, process life cycle, application (Python simulator)"
STREAM = "the stream or file behind io.Reader/io.Writer/System.IO.Stream (parked and answered by the simulator), clock, application"
A = ["strings are valid UTF-8 without NUL and values are within the declared types",
     "the six languages' compilers and standard libraries work"]

from . import scen_store, scen_fault, scen_mem, scen_task, scen_gen, scen_opts, scen_rules
add("C01", [scen_net.deliver_stream, scen_net.deliver_datagram, scen_net.deliver_stream, scen_net.deliver_lookalikes, scen_net.deliver_datagram],
    rule=ONE + "a drawn protocol, message history, path of 2-5 nodes in drawn languages, fragmentation, cuts, crashes, loss, duplication, reordering; "
         "non-trivial when a fault fired or a message crossed several hops; distinct by the hash of all requests, responses and events",
    probes=["fragmented delivery", "message cut by a fragment boundary", "connection cut", "bytes lost in flight", "node crash and restart", "frame lost", "frame duplicated", "frame reordered", "partition", "frame of the same length as the one before", "frame cut short"], assumptions=A)
add("C02", [scen_net.replicas], assumptions=A,
    rule=ONE + "a drawn record log replicated between 2-6 languages over a lossy network, with restarts and failed writes in between; distinct by the hash of the whole history",
    probes=["frame lost", "frame duplicated", "stale frame ignored", "replica restart from its own log", "write into a buffer that is too small"])
add("C03", [scen_store.size_history], assumptions=A, stubs=STORE,
    rule=ONE + "drawn objects (fresh, decoded, batched) of drawn languages announced, reserved and written into shared segments that fill up; distinct by the hash of the whole history",
    probes=["segment full inside a record", "segment rolled", "decoded record", "fresh record", "batch"])
add("C04", [scen_store.exhausted_buffer, scen_store.exhausted_buffer, scen_store.failing_writer], langs=["c", "csharp", "go", "typescript"], assumptions=A,
    rule=ONE + "drawn objects and batches written to outputs that run out or break at drawn bytes, then retried on a healthy one; non-trivial when an output ran out; distinct by the hash of the whole history",
    stubs="output buffers between canaries or on a page boundary; streams that fail at a drawn byte; application (Python simulator)", probes=["output full", "device error inside a write"])
add("C05", [scen_store.truncated], assumptions=A,
    rule=ONE + "drawn messages, batches and tagged streams cut at drawn bytes and delivered whole or in drawn fragments; non-trivial when a cut happened; distinct by the hash of the whole history",
    probes=["sender died inside a message", "sender died inside a batch", "sender died inside a stream", "fragmented delivery", "short read", "end of stream together with the last bytes"])
add("C06", [scen_store.append_log], assumptions=A, stubs=STORE,
    rule=ONE + "several incarnations, in changing languages, of a process appending to a log on a simulated disk; drawn syncs, crashes, torn tails and zero-filled tails; distinct by the hash of the whole history",
    probes=["crash", "crash lost unsynced bytes", "record torn", "zero-filled tail", "torn record followed by zeros"])
add("C07", [scen_fault.corrupted, scen_fault.corrupted, scen_fault.noise], assumptions=A + ["lenient where the format leaves it open: strings that are not UTF-8 and negative lengths may be refused or accepted, but never crash, hang or touch memory outside the input"],
    rule=ONE + "drawn messages and batches damaged in drawn places by drawn kinds of corruption (aimed at lengths, enums, tags, or anywhere), or plain noise, decoded by drawn languages; distinct by the hash of the whole history",
    stubs="the medium that damages bytes, application (Python simulator with a reference decoder)",
    probes=["bit flipped", "byte replaced", "bytes lost", "bytes duplicated", "garbage inserted", "sector of garbage", "list length damaged", "string length damaged", "enum damaged",
            "string body damaged", "another protocol's stream", "random bytes", "plausible batch header", "damage reported", "damage invisible, value as the bytes say"])
add("C08", [scen_fault.rolling_upgrade], worlds=scen_fault.version_worlds, assumptions=A,
    rule=ONE + "a cluster of nodes of drawn languages on two versions of a protocol, upgraded one by one while streams with terminators flow; distinct by the hash of the whole history",
    probes=["message type from a newer version", "node upgraded and restarted", "terminator in the stream", "terminator met"])
add("C09", [scen_store.batches], assumptions=A, stubs=STORE,
    rule=ONE + "drawn batches packed and unpacked by drawn languages, with damaged magic and counts, truncation, early terminators and following bytes; distinct by the hash of the whole history",
    probes=["batch truncated", "bytes after the batch", "count enormous", "count too large", "count too small", "magic damaged", "terminator in the middle", "batch between records", "batch after records"])
add("C10", [scen_fault.bounded_reads], assumptions=A,
    rule=ONE + "a consumer drains a stream through reads with drawn limits and restarts from stored positions, fragments arriving at drawn places; distinct by the hash of the whole history",
    probes=["consumer restarted from its stored position", "read cut short by the limit", "short read"])
add("C11", [scen_mem.failing_allocations], langs=["c", "zig"], stubs=ALLOC, assumptions=A,
    rule=ONE + "a drawn operation on drawn, possibly damaged input with a drawn allocation failing once or from then on, then repeated with memory available; non-trivial when an allocation failed; distinct by the hash of the whole history",
    probes=["allocation failed once", "allocation failed, and every later one", "malloc(0) returns NULL"])
add("C12", [scen_mem.ownership], langs=["c", "zig"], stubs=ALLOC, assumptions=A,
    rule=ONE + "a drawn history of create, decode (also of damaged bytes), copy out, write, free on many objects and lists, input buffers released and overwritten in between; distinct by the hash of the whole history",
    probes=["input buffer released under a decoded list", "input buffer released under a decoded object", "read of truncated bytes", "write into a buffer that is too small"])
add("C13", [scen_task.interleaved, scen_task.interleaved_calls], assumptions=A,
    rule=ONE + "2-6 tasks on their own data, interleaved at every stream read, stream write and allocation (C, Zig, Go, C#) or at every call (all six), some of them failing; distinct by the hash of the whole history",
    stubs="thread scheduler (one task at a time, parked at every seam), streams, allocator, application (Python simulator)",
    probes=["task preempted at a seam", "flow switched", "failing call in between", "one task's device failed", "one task's stream is truncated", "one task's allocation failed"])
add("C14", [scen_mem.fresh], assumptions=A,
    rule=ONE + "fresh messages requested at drawn points of a history of decoding (also damaged bytes), failing and freeing; distinct by the hash of the whole history",
    stubs=ALLOC, probes=["allocation failed while creating", "object filled in place", "read of truncated bytes"])
add("C15", [scen_task.faulty_stream], langs=["csharp", "go"], stubs=STREAM, assumptions=A,
    rule=ONE + "a stream of drawn messages delivered in drawn fragments with empty reads and an I/O error at a drawn byte, or its end; non-trivial when a fault fired; distinct by the hash of the whole history",
    probes=["short read", "empty read", "stream error", "stream error together with the last bytes", "end of stream together with the last bytes"])
GENREAL = "the beschi command line tool (/repo's working tree) in its own Python process, from argument parsing to interpreter exit"
GENSTUB = "the operating system's file operations, clock, random bytes and directory order (LD_PRELOAD shim answering from the simulator); files live in a scratch directory"
GENA = ["the kernel performs the file operations it is told to perform"]
add("C16", [scen_gen.interrupted], langs=[], builder=scen_gen.builder, real=GENREAL, stubs=GENSTUB, quick=5000, assumptions=GENA,
    rule=ONE + "the generator runs on a drawn, possibly damaged protocol; a drawn file operation fails or the process is killed before it, before any output is opened; distinct by the hash of the whole history",
    probes=["EIO on read", "EACCES on open", "ENOMEM on read", "short read", "protocol file truncated", "protocol file bit flipped", "protocol edited into a cycle", "protocol refers to a missing type", "damaged protocol refused", "killed before read"])
add("C17", [scen_gen.disk_faults], langs=[], builder=scen_gen.builder, real=GENREAL, stubs=GENSTUB, quick=5000, assumptions=GENA,
    rule=ONE + "the generator runs against a disk that fills up, fails, writes short or is interrupted at drawn operations; distinct by the hash of the whole history",
    probes=["ENOSPC on write", "disk full", "EIO on closew", "EDQUOT on closew", "short write", "EINTR on write", "killed inside a write", "run succeeded in spite of what happened"])
add("C18", [scen_gen.environments, scen_gen.histories, scen_gen.concurrent, scen_gen.histories], langs=[], builder=scen_gen.builder, real=GENREAL, stubs=GENSTUB, quick=2400, thorough=30000, assumptions=GENA,
    rule=ONE + "the generator under drawn environments (locale, hash seed, directory order, clock, random bytes), used again in one process after drawn histories, and several at once preempted at every file operation; distinct by the hash of the whole history",
    probes=["locale C", "locale tr_TR.UTF-8", "hash seed changed", "generator used again in the same process", "generator preempted at a file operation", "one generator killed", "protocol replaced while generators run"])
add("C19", [scen_opts.mixed_fleet], worlds=scen_opts.option_worlds, assumptions=A,
    rule=ONE + "a fleet of nodes of drawn languages, each built from code generated with drawn options, passing records on over links that cut, damage and repeat, rebuilt with other options and restarted in between; distinct by the hash of the whole history",
    probes=["bytes lost", "bits flipped", "delivered twice", "rejected, sent again", "accepted as damaged", "node rebuilt with other options and restarted", "short read"])
add("C20", [scen_rules.sessions], langs=[], builder=scen_gen.builder, real=GENREAL, stubs=GENSTUB, quick=2600, thorough=30000, assumptions=GENA,
    rule=ONE + "a protocol file edited again and again, some edits breaking one documented rule, generated after every edit by fresh processes or by one that stays alive, "
         "with short and interrupted file operations; distinct by the hash of the whole history",
    probes=["protocol edited", "protocol edited against a rule", "generator used again in the same process", "accepted", "refused", "short read", "EINTR on read"])
