"""Search, judge, shrink, gate and report: shared by every check."""
import hashlib, json, multiprocessing as mp, os, queue, random, re, resource, subprocess, sys, time, traceback

from simrun import *
import build as builder

EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "build", "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class RefDied(Exception):
    """Plain healthy operations, run on their own, end the process."""

    def __init__(self, flavour, ops, why):
        super().__init__(why)
        self.scn = dict(flavour=flavour, procs=[list(ops)])


def judged(prop, scn, res, ctx):
    try:
        return prop.judge(scn, res, ctx)
    except RefDied as e:
        return [("died", "operations on their own end the process: %s" % e)]


class Ctx:
    """A worker's view of the simulator."""

    def __init__(self, flavours):
        self.h = {f: Harness(os.path.join(VERIF, "build", "sim-" + f), [SVM, LATTICE, SVM2]) for f in flavours}
        self.cache = {}
        self.seen = set()
        self.fired = {}
        self.probes = {}
        self.runs = 0
        self.refs = 0
        self.procs = 0
        self.simops = 0
        self.escapes = 0
        self.notes = {}

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def run(self, scn, trace=False):
        r = self.h[scn["flavour"]].run(scn["procs"], trace=trace, cpu=scn.get("cpu", 60))
        self.runs += 1
        self.procs += len(r)
        for p in r:
            for k, v in p.fired.items():
                self.fired[k] = self.fired.get(k, 0) + v
            for k, v in p.probes.items():
                self.probes[k] = self.probes.get(k, 0) + v
            self.simops += p.ops
            self.escapes += p.escapes
            self.seen.add(p.digest()[:20])
        return r

    def ref(self, flavour, ops, key=None):
        """The same operations in a process of their own; memoised."""
        k = (flavour, tuple(ops)) if key is None else key
        if k not in self.cache:
            self.cache[k] = self.h[flavour].run([list(ops)])[0]
            self.refs += 1
        return self.cache[k]

    def sane(self, flavour, ops):
        """As ref(), for operations that must not end the process."""
        p = self.ref(flavour, ops)
        if not p.exited:
            raise RefDied(flavour, ops, p.died())
        return p

    def close(self):
        for h in self.h.values():
            h.stop()


class Prop:
    id = None
    flavours = ("io",)
    level = "exploration"
    quick_runs = 400
    thorough_runs = 8000
    quick_wall = 150
    thorough_wall = 1500
    rule = ""
    real = "all of /repo/src (main.cc included), libsvm, armadillo, protobuf, abseil, libstdc++"
    stubs = "kernel file system (sim/simfs.cc), TFLite runtime (sim/stubs/tflite_stub.cc), pffft (sim/stubs/pffft_stub.cc)"
    assumptions = ()

    def gen(self, rng, i, ctx):
        raise NotImplementedError

    def judge(self, scn, res, ctx):
        raise NotImplementedError

    def nontrivial(self, scn, res):
        """Something the property is about happened in this run."""
        return any(p.fired for p in res) or True

    def fixed_ops(self, scn):
        """Indices (proc, op) the shrinker must keep."""
        return set()


def rng_for(prop, i, seed=None):
    return random.Random("%d:%s:%d" % (SEED if seed is None else seed, prop.id, i))


def violation_class(v):
    return v[0]


def _worker(prop, w, nw, total, deadline, outq, stop):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ctx = Ctx(prop.flavours)
    stats = dict(done=0, nontrivial=0, double=0, mismatch=0)
    viols = []
    err = None
    sigs = set()
    sample = []
    try:
        for i in range(w, total, nw):
            if time.time() > deadline or stop.is_set():
                break
            try:
                scn = prop.gen(rng_for(prop, i), i, ctx)
            except RefDied as e:
                scn = e.scn
            res = ctx.run(scn)
            vs = judged(prop, scn, res, ctx)
            stats["done"] += 1
            if prop.nontrivial(scn, res):
                stats["nontrivial"] += 1
                sigs.add(hashlib.sha256("\n".join("|".join(p) for p in scn["procs"]).encode()).hexdigest()[:16])
            if len(sample) < 1:
                sample.append(dict(run=i, ops=[l[:120] for l in scn["procs"][0][:6]],
                                   outcome=[p.status for p in res]))
            if i % 40 == 7:
                stats["double"] += 1
                if digest(ctx.run(scn)) != digest(res):
                    stats["mismatch"] += 1
            if vs:
                viols.append((i, scn, vs))
                if len(viols) >= 3:
                    break
    except Exception:
        err = traceback.format_exc()
        stop.set()
    ctx.close()
    outq.put(dict(stats=stats, viols=viols, err=err, fired=ctx.fired, probes=ctx.probes, runs=ctx.runs, refs=ctx.refs,
                  procs=ctx.procs, simops=ctx.simops, escapes=ctx.escapes, seen=ctx.seen, notes=ctx.notes, sigs=sigs, schedules=getattr(ctx, "schedules", set()),
                  sample=sample))


def search(prop, tier, nw=None):
    nw = nw or max(1, min(8, os.cpu_count() or 1))
    total = prop.quick_runs if tier == "quick" else prop.thorough_runs
    wall = prop.quick_wall if tier == "quick" else prop.thorough_wall
    if os.environ.get("SIM_RUNS"):
        total = int(os.environ["SIM_RUNS"])
    deadline = time.time() + wall
    outq = mp.Queue()
    stop = mp.Event()
    ps = [mp.Process(target=_worker, args=(prop, w, nw, total, deadline, outq, stop)) for w in range(nw)]
    for p in ps:
        p.start()
    outs = []
    while len(outs) < nw:
        try:
            o = outq.get(timeout=5)
            outs.append(o)
            if o["viols"] or o["err"]:
                stop.set()
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and outq.empty():
                raise HarnessError("a search worker disappeared")
            if time.time() > deadline + 400:
                for p in ps:
                    p.terminate()
                raise HarnessError("search overran its limit")
    for p in ps:
        p.join()
    return outs


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def split_known(vs, known):
    new, hit = [], []
    for v in vs:
        for rx, desc in known:
            if rx.search("%s: %s" % (v[0], v[1])):
                hit.append(desc)
                break
        else:
            new.append(v)
    return new, hit


def shrink(prop, scn, cls, ctx, known, limit=160, wall=120):
    """Greedy removal of processes and operations while the class persists."""
    t0 = time.time()
    tries = 0

    makers = [(kv["p"], l) for ops in scn["procs"] for l in ops for name, kv in [parse(l)]
              if name in ("put", "wav", "host", "dir") and "p" in kv]

    def whole(s):
        """A smaller run keeps the files its remaining operations use."""
        left = [l for ops in s["procs"] for l in ops]
        lines = set(left)
        users = [l for l in left if l.split(" ")[0] not in ("put", "wav", "host", "dir", "fault", "dump")]
        for path, maker in makers:
            if maker not in lines and any(enc(path) in l for l in users):
                return False
        return True

    def still(s):
        nonlocal tries
        if not whole(s):
            return False
        tries += 1
        try:
            r = ctx.run(s)
            vs, _ = split_known(judged(prop, s, r, ctx), known)
        except HarnessError:
            raise
        except Exception:
            return False
        return any(violation_class(v) == cls for v in vs)

    cur = scn
    changed = True
    while changed and tries < limit and time.time() - t0 < wall:
        changed = False
        for p in range(len(cur["procs"]) - 1, -1, -1):
            if len(cur["procs"]) > 1 and not scn.get("keep_procs"):
                s = json.loads(json.dumps(cur))
                del s["procs"][p]
                if still(s):
                    cur, changed = s, True
        size = max(1, max(len(p) for p in cur["procs"]) // 2)
        while size >= 1 and tries < limit and time.time() - t0 < wall:
            for p in range(len(cur["procs"])):
                j = len(cur["procs"][p]) - size
                while j >= 0 and tries < limit and time.time() - t0 < wall:
                    s = json.loads(json.dumps(cur))
                    del s["procs"][p][j:j + size]
                    if s.get("lockstep"):
                        # the same operations in every process
                        for q in range(len(s["procs"])):
                            if q != p and len(s["procs"][q]) > len(s["procs"][p]):
                                del s["procs"][q][j:j + size]
                    if still(s):
                        cur, changed = s, True
                        j = min(j, len(cur["procs"][p]) - size)
                    else:
                        j -= 1 if size == 1 else size
            size //= 2
    if hasattr(prop, "shrink_more"):
        cur = prop.shrink_more(cur, still, ctx)
    return cur, tries


def replay(path, prop, ctx=None):
    """(digest, violations) of the recorded scenario on the current tree."""
    rec = json.load(open(path))
    own = ctx is None
    ctx = ctx or Ctx(prop.flavours)
    try:
        res = ctx.run(rec["scenario"], trace=False)
        vs = judged(prop, rec["scenario"], res, ctx)
        return digest(res), vs
    finally:
        if own:
            ctx.close()


def main_check(prop, tier):
    t0 = time.time()
    for f in prop.flavours:
        builder.build(f)
    tb = time.time() - t0
    outs = search(prop, tier)
    errs = [o["err"] for o in outs if o["err"]]
    known = load_known(prop.id)
    viols, hits = [], {}
    for o in outs:
        for i, scn, vs in o["viols"]:
            new, hit = split_known(vs, known)
            for h in hit:
                hits[h] = hits.get(h, 0) + 1
            if new:
                viols.append((i, scn, new))
    viols.sort(key=lambda v: v[0])
    if errs and not viols:
        sys.stderr.write(errs[0])
        print("ERROR: the simulator failed; no verdict")
        return 3
    rc = 0
    reported = []
    gate_fail = None
    for i, scn, vs in viols[:4]:
        ctx = Ctx(prop.flavours)
        cls = violation_class(vs[0])
        try:
            small, tries = shrink(prop, scn, cls, ctx, known)
            a = ctx.run(small, trace=True)
            b = ctx.run(small)
            va, _ = split_known(judged(prop, small, a, ctx), known)
            if digest(a) != digest(b) or not any(violation_class(v) == cls for v in va):
                small = scn
                a, b = ctx.run(small, trace=True), ctx.run(small)
                va, _ = split_known(judged(prop, small, a, ctx), known)
            if digest(a) != digest(b) or not va:
                gate_fail = "run %d: the violation does not repeat exactly: %s" % (i, vs[0])
                continue
        finally:
            ctx.close()
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d-%d.json" % (prop.id, SEED, i))
        rec = dict(property=prop.id, seed=SEED, run=i, violation=list(va[0]), others=[list(v) for v in va[1:6]],
                   digest=digest(a), scenario=small, original_ops=sum(map(len, scn["procs"])),
                   minimised_ops=sum(map(len, small["procs"])), shrink_runs=tries,
                   trace=[p.trace[-400:] for p in a], stderr=[p.err.decode(errors="replace")[-3000:] for p in a])
        json.dump(rec, open(path, "w"), indent=1)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "replay", path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 1:
            gate_fail = "run %d: replay in a fresh process does not reproduce it (%d): %s\n%s" % (
                i, p.returncode, va[0], p.stdout.decode(errors="replace")[-1500:])
            continue
        reported.append((path, va[0]))
        break
    wall = time.time() - t0
    s = {k: sum(o["stats"][k] for o in outs) for k in outs[0]["stats"]}

    def merge(k):
        d = {}
        for o in outs:
            for a, b in o[k].items():
                d[a] = d.get(a, 0) + b
        return dict(sorted(d.items()))
    seen = set().union(*[o["seen"] for o in outs])
    sigs = set().union(*[o["sigs"] for o in outs])
    cov = dict(evaluations=s["done"], distinct_nontrivial=len(sigs), rule=prop.rule,
               samples=[x for o in outs for x in o["sample"]][:6],
               simulated_runs=sum(o["runs"] for o in outs), reference_runs=sum(o["refs"] for o in outs),
               simulated_processes=sum(o["procs"] for o in outs),
               seeds_per_hour=int(s["done"] / max(1e-9, wall - tb) * 3600),
               simulated_runs_per_hour=int(sum(o["runs"] for o in outs) / max(1e-9, wall - tb) * 3600),
               simulated_time="no code under test reads a clock; progress is counted in simulated system calls",
               simulated_io_calls=sum(o["simops"] for o in outs), faults_fired=merge("fired"), probes=merge("probes"),
               notes=merge("notes"), distinct_histories=len(seen),
               distinct_histories_measure="hash of a simulated process's history: its simulated calls (name, path, position, result), operation results and exit status",
               run_twice=s["double"], run_twice_mismatches=s["mismatch"], paths_outside_the_simulated_disk=sum(
                   o["escapes"] for o in outs),
               real_components=prop.real, stub_components=prop.stubs, build_s=round(tb, 1))
    sch = set().union(*[o["schedules"] for o in outs])
    if sch:
        cov["distinct_interleavings"] = len(sch)
        cov["distinct_interleavings_measure"] = "hash of the sequence of threads chosen at the scheduling points of a run"
    ev = dict(property=prop.id, tier=tier, seed=SEED, level=prop.level, coverage=cov,
              assumptions=list(prop.assumptions), wall_s=round(wall, 1),
              violations=[dict(replay=os.path.relpath(p, VERIF), what="%s: %s" % (v[0], v[1])) for p, v in reported])
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(ev, open(os.path.join(EVIDENCE, prop.id + ".json"), "w"), indent=1)
    for h in sorted(hits):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, h))
    print("%s %s: %d runs (%d simulated, %d reference), %d distinct histories, faults %s, %.0f s" % (
        prop.id, tier, s["done"], cov["simulated_runs"], cov["reference_runs"], len(seen), cov["faults_fired"], wall))
    if s["mismatch"]:
        print("warning: %d of %d repeated runs differed" % (s["mismatch"], s["double"]))
    if reported:
        path, v = reported[0]
        print("%s: %s" % (v[0], v[1]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if gate_fail:
        print("ERROR: " + gate_fail)
        return 3
    if errs:
        sys.stderr.write(errs[0])
        return 3
    return rc
