"""Entry point of every check: python3 -m sim.check <property> | --replay <file>."""
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import build as B
from .core import Choices, Discard, Sim, Violation
from .node import Node
from .props import PROPS
from .worker import Worker
from .worlds import World

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = {}
for _f in json.load(open(os.path.join(ROOT, "known_findings.json")))["known"]:
    KNOWN.setdefault(_f["property"], {})[_f["key"]] = _f["what"]
NPROC = int(os.environ.get("SIM_PROCS", "8"))
GENERATION = 300     # runs before a worker process is replaced


class Pool:
    """The worker processes of one harness process."""

    def __init__(self, argv, cwd):
        self.argv, self.cwd = argv, cwd
        self.w = {}
        self.history = []
        self.aux = {}

    def get(self, lang):
        if lang not in self.w:
            self.w[lang] = Worker(lang, self.argv[lang], self.cwd)
        return self.w[lang]

    def stop(self):
        for w in self.w.values():
            w.stop()
        for a in self.aux.values():
            a.stop()
        self.aux = {}
        self.history = []


class Run(Sim):
    def __init__(self, choices, worlds, pool, tier):
        super().__init__(choices, worlds, {}, tier)
        self.pool = pool

    def node(self, lang):
        if lang not in self.nodes:
            self.nodes[lang] = Node(self, lang, self.pool.get(lang))
        return self.nodes[lang]


def execute(prop, scen, choices, worlds, pool, tier):
    """One simulated run. Returns (Run, Violation or None)."""
    sim = Run(choices, worlds, pool, tier)
    sim.listed = KNOWN.get(prop.id, {})
    try:
        scen(sim)
        for n in list(sim.nodes.values()):
            n.cleanup()
        if prop.finish:
            prop.finish(sim)
        pool.history.append((scen.__name__, list(choices.rec)))
        return sim, None
    except Discard:
        for n in list(sim.nodes.values()):
            n.cleanup()
        pool.history.append((scen.__name__, list(choices.rec)))
        return sim, "discard"
    except (Violation, ValueError, IndexError, KeyError, TypeError, AttributeError, StopIteration) as v:
        if not isinstance(v, Violation):      # never on a working tree: what a node said makes no sense to the simulator
            at = traceback.extract_tb(v.__traceback__)[-1]
            v = Violation("value", f"a node's answer cannot be understood ({type(v).__name__} {v} in {at.name})")
        hist = list(pool.history)
        pool.stop()
        v.history = hist
        return sim, v


def child(p, prop, argv, cwd, worlds, seed, tier, runs, deadline, best, q):
    try:
        pool = Pool(argv, cwd)
        agg = {"runs": 0, "discarded": 0, "faults": {}, "probes": {}, "sched": set(), "steps": 0, "simtime": 0, "checks": 0, "samples": [],
               "nontrivial": set(), "hashes": {}, "viol": None, "capped": False, "found": {}}
        todo = [i for i in range(runs) if i % NPROC == p]
        dup = [i for i in range(min(runs, 3 * NPROC)) if (i + 1) % NPROC == p]
        for i, again in [(i, False) for i in todo] + [(i, True) for i in dup]:
            if i > best.value:
                continue
            if time.time() > deadline:
                agg["capped"] = True
                break
            if len(pool.history) >= GENERATION:
                pool.stop()
            scen = prop.scenarios[i % len(prop.scenarios)]
            ch = Choices(seed=f"{seed}:{prop.id}:{i}")
            sim, v = execute(prop, scen, ch, worlds, pool, tier)
            if i < 3 * NPROC:
                agg["hashes"].setdefault(i, []).append(sim.h.hexdigest() if not isinstance(v, Violation) else "violation")
            if again:
                continue
            agg["runs"] += 1
            if v == "discard":
                agg["discarded"] += 1
                continue
            for k, n in sim.faults.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + n
            for k, n in sim.probes.items():
                agg["probes"][k] = agg["probes"].get(k, 0) + n
            for k, n in sim.found.items():
                agg["found"][k] = agg["found"].get(k, 0) + n
            agg["steps"] += sim.steps
            agg["simtime"] += sim.now
            agg["checks"] += sim.checks
            hd = (scen.__name__, sim.sched.digest())
            agg["sched"].add(hd)
            if not sim.trivial:
                agg["nontrivial"].add(sim.h.digest())
                if len(agg["samples"]) < 1 and sim.log:
                    agg["samples"].append({"run": i, "scenario": scen.__name__, "choices": len(ch.rec), "events": sim.log[:25]})
            if v is not None:
                agg["viol"] = {"run": i, "scenario": scen.__name__, "choices": ch.rec, "cls": v.cls, "text": v.text, "trace": sim.log,
                               "history": v.history}
                with best.get_lock():
                    if i < best.value:
                        best.value = i
                break
        pool.stop()
        q.put((p, agg))
    except BaseException:
        q.put((p, {"error": traceback.format_exc()}))


def try_once(prop, scen, choices, worlds, argv, cwd, tier, history=()):
    pool = Pool(argv, cwd)
    try:
        for name, rec in history:
            s = next(x for x in prop.scenarios if x.__name__ == name)
            sim, v = execute(prop, s, Choices(replay=rec), worlds, pool, tier)
            if isinstance(v, Violation):
                return sim, v
        return execute(prop, scen, choices, worlds, pool, tier)
    finally:
        pool.stop()


def shrink(prop, scen, rec, cls, worlds, argv, cwd, tier, history, seconds=45):
    """Minimises the choice sequence: delete chunks, zero chunks, lower single choices, while the same class of violation persists."""
    end = time.time() + seconds
    attempts = [0]
    best = [list(rec), None, None]

    def ok(cand):
        if time.time() > end:
            return False
        attempts[0] += 1
        ch = Choices(replay=cand)
        try:
            sim, v = try_once(prop, scen, ch, worlds, argv, cwd, tier, history)
        except B.HarnessError:
            return False
        if isinstance(v, Violation) and v.cls == cls:
            r = list(ch.rec)
            while r and r[-1] == 0:
                r.pop()
            if (len(r), r) <= (len(best[0]), best[0]) or best[1] is None:
                best[0], best[1], best[2] = r, v, sim
                return True
        return False

    if not ok(rec):
        return None
    improved = True
    while improved and time.time() < end:
        improved = False
        for size in (256, 64, 16, 8, 4, 2, 1):
            i = len(best[0]) - size
            while i >= 0 and time.time() < end:
                cur = best[0]
                if i + size <= len(cur) and (ok(cur[:i] + cur[i + size:]) or (any(cur[i:i + size]) and ok(cur[:i] + [0] * size + cur[i + size:]))):
                    improved = True
                i -= size
        for i in range(len(best[0])):
            if time.time() > end:
                break
            cur = best[0]
            if i < len(cur) and cur[i] > 0:
                for nv in (0, cur[i] // 2, cur[i] - 1):
                    if nv < cur[i] and ok(cur[:i] + [nv] + cur[i + 1:]):
                        improved = True
                        break
    return best[0], best[1], best[2], attempts[0]


def write_replay(prop, seed, tier, worlds, body):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-seed{seed}-{body.get('run', 'build')}.json")
    body = {"property": prop.id, "seed": seed, "tier": tier, "worlds": worlds, "langs": prop.langs, **body,
            "replay_cmd": f"cd /verif && python3 -m sim.check --replay {path}"}
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def workspace():
    return tempfile.mkdtemp(prefix="beschi-sim-")


def main_check(pid, tier, seed):
    t0 = time.time()
    prop = PROPS[pid]
    wd = prop.worlds(seed, tier)
    worlds = [World(x) for x in wd]
    runs = int(os.environ.get("SIM_RUNS", prop.runs[tier]))
    cap = float(os.environ.get("SIM_CAP", prop.cap[tier]))
    tmp = workspace()
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "assumptions": prop.assumptions}
    rc = 0
    try:
        try:
            argv = B.build(prop.langs, worlds, tmp) if not prop.builder else prop.builder(prop, worlds, tmp)
        except B.BuildFailure as e:
            path = write_replay(prop, seed, tier, wd, {"kind": "build", "lang": e.lang, "world": e.world, "stage": e.stage,
                                                       "violation": {"cls": "build", "text": f"{e.lang} {e.world} {e.stage}: {e.text[-3000:]}"}})
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  no node can run: {e.lang} code for world {e.world} fails to {e.stage}: {e.text[-600:]}")
            ev["coverage"] = {"evaluations": 0, "distinct_nontrivial": 0, "rule": prop.rule, "samples": [f"build failure: {e.lang} {e.world}"]}
            ev["violations"] = 1
            return 1
        tb = time.time() - t0
        ctx = mp.get_context("fork")
        best = ctx.Value("q", 1 << 60)
        q = ctx.Queue()
        deadline = time.time() + cap
        ps = [ctx.Process(target=child, args=(p, prop, argv, tmp, worlds, seed, tier, runs, deadline, best, q)) for p in range(NPROC)]
        for p in ps:
            p.start()
        res = {}
        while len(res) < NPROC:
            try:
                k, a = q.get(timeout=5)
                res[k] = a
            except Exception:
                dead = [i for i, p in enumerate(ps) if not p.is_alive() and i not in res]
                if dead and q.empty():
                    raise B.HarnessError(f"harness process {dead} died")
        for p in ps:
            p.join()
        for k in sorted(res):
            if "error" in res[k]:
                raise B.HarnessError(res[k]["error"])
        rs = [res[k] for k in sorted(res)]
        viols = sorted((r["viol"] for r in rs if r["viol"]), key=lambda v: v["run"])
        # determinism: the same seed, in another process with another history, must give the same execution
        hs = {}
        for r in rs:
            for i, l in r["hashes"].items():
                hs.setdefault(i, []).extend(l)
        diverged = [i for i, l in hs.items() if len(set(l)) > 1 and "violation" not in l]
        faults, probes = {}, {}
        for r in rs:
            for a, b in ((faults, r["faults"]), (probes, r["probes"])):
                for k, n in b.items():
                    a[k] = a.get(k, 0) + n
        nruns = sum(r["runs"] for r in rs)
        sched = set().union(*[r["sched"] for r in rs])
        nontriv = set().union(*[r["nontrivial"] for r in rs])
        ts = max(0.001, time.time() - t0 - tb)
        ev["coverage"] = {
            "evaluations": nruns, "distinct_nontrivial": len(nontriv), "rule": prop.rule,
            "samples": [s for r in rs for s in r["samples"]][:3] or ["none"],
            "distinct_interleavings": len(sched), "interleaving_measure": "distinct (scenario, order of scheduled deliveries/steps and injected faults) hashes",
            "discarded_runs": sum(r["discarded"] for r in rs),
            "scheduler_steps": sum(r["steps"] for r in rs), "oracle_checks": sum(r["checks"] for r in rs),
            "simulated_seconds": round(sum(r["simtime"] for r in rs) / 1e6, 3), "runs_per_hour": int(nruns / ts * 3600),
            "seeds": f"{seed}:{pid}:0..{runs - 1}" + (" (stopped early by the wall cap)" if any(r["capped"] for r in rs) else ""),
            "faults_injected": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
            "probes_never_hit": [k for k in prop.expect_probes if k not in probes and k not in faults],
            "determinism_reruns": sum(len(l) - 1 for l in hs.values()), "determinism_divergences": len(diverged),
            "worlds": [f"{w.name}: {len(w.messages)} messages, list {w.list_t}, string {w.string_t}" for w in worlds],
            "real_components": prop.real, "stub_components": prop.stubs, "build_s": round(tb, 1)}
        notes = []
        nv = 0
        confirmed = None
        known = 0
        for v in viols:
            scen = next(s for s in prop.scenarios if s.__name__ == v["scenario"])
            got = None
            for hist in ((), v["history"]):
                try:
                    sim, x = try_once(prop, scen, Choices(replay=v["choices"]), worlds, argv, tmp, tier, hist)
                except B.HarnessError as e:
                    notes.append(f"replay of run {v['run']}: {e}")
                    continue
                if isinstance(x, Violation) and (x.cls == v["cls"] or True):
                    got = (hist, x)
                    break
            if got is None:
                notes.append(f"run {v['run']} ({v['cls']}: {v['text'][:300]}) did not repeat when replayed")
                if v["cls"] not in ("crash", "hang"):
                    raise B.HarnessError(notes[-1])
                continue
            confirmed = (v, scen, got)
            break
        if confirmed:
            v, scen, (hist, x) = confirmed
            sh = shrink(prop, scen, v["choices"], x.cls, worlds, argv, tmp, tier, hist)
            body = {"kind": "run", "run": v["run"], "scenario": v["scenario"], "history": [list(h) for h in hist],
                    "original": {"choices": len(v["choices"]), "text": v["text"]}}
            if sh:
                rec, xv, sim, attempts = sh
                body.update(choices=rec, violation={"cls": xv.cls, "text": xv.text}, trace=sim.log, faults=sim.faults, shrink_attempts=attempts)
            else:
                body.update(choices=v["choices"], violation={"cls": x.cls, "text": x.text}, trace=v["trace"])
            path = write_replay(prop, seed, tier, wd, body)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {body['violation']['cls']}: {body['violation']['text'][:1500]}")
            for l in body["trace"][-12:]:
                print("    " + l[:200])
            nv = 1
            rc = 1
        elif diverged:
            raise B.HarnessError(f"nondeterminism: runs {diverged[:5]} differ between processes")
        for k in sorted(set().union(*[r["found"] for r in rs])):
            print(f"KNOWN-FINDING: property={pid} {k}: {KNOWN[pid][k]}")
            known += 1
        ev["violations"] = nv
        ev["coverage"]["known_findings"] = known
        if notes:
            ev["coverage"]["unrepeated"] = notes
        if rc == 0:
            print(f"{pid}: held on {nruns} simulated runs ({len(nontriv)} distinct non-trivial), {sum(faults.values())} faults, "
                  f"{ev['coverage']['oracle_checks']} oracle checks, build {tb:.0f}s, search {ts:.0f}s")
        return rc
    except B.HarnessError as e:
        print(f"{pid}: error of the check: {e}", file=sys.stderr)
        ev.setdefault("coverage", {"explanation": f"error of the check: {str(e)[:500]}"})
        rc = 2
        return rc
    finally:
        ev["wall_s"] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(tmp, ignore_errors=True)


def main_replay(path):
    r = json.load(open(path))
    prop = PROPS[r["property"]]
    worlds = [World(x) for x in r["worlds"]]
    tmp = workspace()
    try:
        try:
            argv = B.build(r["langs"], worlds, tmp) if not prop.builder else prop.builder(prop, worlds, tmp)
        except B.BuildFailure as e:
            print(f"VIOLATION property={r['property']} replay={path}")
            print(f"  build: {e.lang} {e.world} {e.stage}: {e.text[-2000:]}")
            return 1
        if r["kind"] == "build":
            print("not reproduced: everything builds")
            return 0
        scen = next(s for s in prop.scenarios if s.__name__ == r["scenario"])
        sim, v = try_once(prop, scen, Choices(replay=r["choices"]), worlds, argv, tmp, r["tier"], [tuple(h) for h in r.get("history", [])])
        for l in sim.log:
            print("  " + l[:300])
        if isinstance(v, Violation):
            same = v.cls == r["violation"]["cls"] and v.text == r["violation"]["text"]
            print(f"VIOLATION property={r['property']} replay={path}")
            print(f"  {v.cls}: {v.text}")
            print("  identical to the recorded violation" if same else f"  differs from the recorded violation: {r['violation']['text']}")
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(main_replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    sys.exit(main_check(a[0], tier, int(os.environ.get("VERIF_SEED", "1"))))
