"""C12 unused memory; C13 resources; C14 failing allocations."""
from common import *
import output, session
from session import INIT, RUNS, fix_id, pristine, run_op

CSV, JSN = output.CSV, output.JSN
WAVS = [f for f in sorted(FILES) if f.endswith(".wav")]
TABLE = "/sim/in/table.csv"
TABLE_TEXT = "1.5,2,3\n4,nan?,6\n7,8,9.25\n" * 40
LIST = "/sim/in/list.csv"
LIST_TEXT = "reference,degraded\n" + "".join("/sim/in/r%d.wav,/sim/in/d%d_%d.wav\n" % (i % 4, i % 4, i % 11) for i in range(30))
EXTRA = [op("put", p=TABLE, text=TABLE_TEXT), op("put", p=LIST, text=LIST_TEXT)]


def small_op(rng):
    """An operation that needs no session."""
    x = rng.random()
    if x < 0.3:
        return op("load", p=rng.choice(WAVS + MISSING))
    if x < 0.5:
        return output.write_op(rng, rng.choice((CSV, None)), rng.choice((JSN, None)), verbose=rng.choice((None, 1)))
    if x < 0.6:
        return op("batch", p=rng.choice((LIST, LIST, "/sim/in/missing.csv")))
    if x < 0.7:
        return op("train_read", p=rng.choice((TABLE, TABLE, "/sim/in/missing.csv")))
    if x < 0.8:
        return op("svm_train", id="t%d" % rng.randrange(2), rows=rng.choice((6, 12)), f=rng.choice((3, 4)), s=rng.randrange(5), **{"in": rng.choice((None, 1))})
    if x < 0.9:
        return op("vadpatch", sig=rng.choice(REFSIG + [BADSIG[3]]), patch=rng.choice((20, 5)))
    return op("window", sr=rng.choice((1000, 2000)))


def sessions(rng):
    """(operations that configure, [(kind, id)])"""
    ops, sess = [], []
    for s in range(rng.choice((1, 1, 2))):
        if rng.random() < 0.6:
            ops.append(op("mgr_init", id=s, **rng.choice(CONFIGS)))
            sess.append(("mgr", s))
        else:
            ops.append(op("api_create", id=s, **rng.choice(APIS)))
            sess.append(("api", s))
    if rng.random() < 0.3:
        ops.append(op("mapper_load", id="q", p=M_SVM))
        sess.append(("mapper", "q"))
    if rng.random() < 0.3:
        ops.append(op("builder_new", id="b", speech=rng.choice((None, 1))))
        sess.append(("builder", "b"))
    return ops, sess


def use_op(rng, kind, sid, p_bad=0.2):
    if kind == "mapper":
        return op("mapper_predict", id=sid, s=rng.randrange(6), base=rng.choice((0.9, 0.5, 1.0)))
    if kind == "builder":
        return op("build", id=sid, sig=rng.choice(REFSIG + BADSIG) + rng.choice(DEG), sr=rng.choice((1000, 1000, 2000)))
    return run_op(rng, kind, sid, p_bad)


class C12(Prop):
    id = "C12"
    flavours = ("mem",)
    quick_runs = 520
    thorough_runs = 15000
    quick_wall = 70
    rule = ("a run is the same 3-9 operations (configurations, comparisons good and bad, loads, writes, predictions, training) and the "
            "same faults executed in 3 processes whose fresh heap blocks and stack hold zeros, ones, plausible values or noise, at "
            "different distances; distinct by the operation list")

    def gen(self, rng, i, ctx):
        body, sess = sessions(rng)
        for _ in range(rng.randrange(2, 7)):
            x = rng.random()
            if x < 0.1:
                k = rng.choice(sorted(session.BADMODEL))
                body += [session.BADMODEL[k]] if session.BADMODEL[k] else []
                kind, s = sess[0]
                if kind == "mgr":
                    body.append(op("mgr_init", id=s, **dict(rng.choice(CONFIGS), m=k)))
            elif x < 0.3:
                body.append(small_op(rng))
            elif x < 0.36:
                h = "r%d" % rng.randrange(9)
                import audio
                body += [op("load", p=rng.choice(BAD))]
            else:
                l = use_op(rng, *rng.choice(sess), 0.25)
                if rng.random() < 0.2 and "mgr_run" in l:
                    p = parse(l)[1][rng.choice(("ref", "deg"))]
                    body.append(op("fault", p=p, op="read", kind=rng.choice(("EIO", "eof", "short")), arg=rng.choice((0, 30, 44, 500, 1999)),
                                   from_=rng.choice((1, 1, 2)), count=-1))
                    body += [l, "nofaults"]
                else:
                    body.append(l)
        if rng.random() < 0.15 and not any(l.startswith("cli") for l in body):
            import cli as c
            a, b = pick_pair(rng, 0.3)
            body.append(c.cli(c.cli_args(rng.choice(CONFIGS)) + ["--reference_file=" + a, "--degraded_file=" + b, "--results_csv=" + CSV, "--output_debug=" + JSN]))
        body += [op("dump", p=CSV), op("dump", p=JSN)]
        pre = EXTRA + setup_lines(body)
        procs = []
        for seed in [rng.choice((0, 1)), rng.choice((2, 3, 4)), rng.randrange(5, 2000)]:
            b = [l + " stack=%d" % seed if seed and not l.startswith(("fault", "nofaults", "dump", "put", "host", "dir", "cli")) else l for l in body]
            procs.append([op("rmfile", p=CSV), op("rmfile", p=JSN)] + pre + [op("fill", seed=seed)] + b)
        return dict(flavour="mem", procs=procs, keep_procs=True, lockstep=True)

    def judge(self, scn, res, ctx):
        v = ended_badly(res)
        a = res[0]
        for n, b in enumerate(res[1:], 1):
            ops = scn["procs"][n]
            for i in sorted(set(a.r) | set(b.r)):
                if i < len(ops) and i in a.r and i in b.r and "peak" in a.r[i]:
                    x, y = strip(a.r[i], "peak", "big"), strip(b.r[i], "peak", "big")
                else:
                    x, y = a.r.get(i), b.r.get(i)
                if x != y:
                    k = [q for q in sorted(set(x or {}) | set(y or {})) if (x or {}).get(q) != (y or {}).get(q)]
                    v.append(("memory", "operation %d (%s) depends on the contents of unused memory: %s" % (
                        i, ops[i][:60] if i < len(ops) else "", ", ".join("%s=%s or %s" % (q, (x or {}).get(q, "-")[:40], (y or {}).get(q, "-")[:40]) for q in k[:2]))))
                    return v
            if a.out != b.out:
                v.append(("memory", "the console output depends on the contents of unused memory"))
            if a.err != b.err and not v:
                v.append(("memory", "the messages depend on the contents of unused memory"))
            if a.hash != b.hash and not v:
                v.append(("memory", "the file calls depend on the contents of unused memory"))
        ctx.note("operations compared", len(a.r))
        return v


class C13(Prop):
    id = "C13"
    flavours = ("mem",)
    quick_runs = 420
    thorough_runs = 12000
    quick_wall = 70
    rule = ("a run repeats one cycle of 2-8 operations (configuring, reconfiguring and destroying sessions, comparisons good and bad, "
            "loads, writes, training, failing models, backends and disks) 5 times in one process and counts live heap blocks, bytes, "
            "open files and backend objects after each; distinct by the operation list")
    LAPS = 5

    def gen(self, rng, i, ctx):
        init, sess = sessions(rng)
        cycle = []
        if rng.random() < 0.5:
            cycle += init
        for _ in range(rng.randrange(1, 5)):
            x = rng.random()
            if x < 0.2:
                cycle.append(small_op(rng))
            elif x < 0.3:
                k = rng.choice(sorted(session.BADMODEL))
                kind, s = sess[0]
                if kind in ("mgr", "api"):
                    c = dict(rng.choice(CONFIGS) if kind == "mgr" else rng.choice(APIS), m=k)
                    cycle.append(op("mgr_init" if kind == "mgr" else "api_create", id=s, **c))
                    cycle.append(fixed_init(init, kind, s))
            elif x < 0.4:
                t = {rng.choice(("build", "threads", "builder", "allocate", "delegate", "nosig", "invoke")): rng.choice((1, 1, 2, 3))}
                c = dict(m=M_LAT, speech=1, lattice=1, win=10)
                a, b = pick_pair(rng, 0.1)
                cycle += [op("tflite", **t), op("mgr_init", id="l", **c), op("mgr_run", id="l", ref=a, deg=b), "nofaults"]
            elif x < 0.5:
                cycle += [op("svm_reload", id="v", p=rng.choice((M_SVM, M_SVM, "/sim/model/none"))), op("svm_train", id="v", rows=8, f=3, **{"in": rng.choice((None, 1))})]
            elif x < 0.58:
                cycle += [op(rng.choice(("mapper_load", "mapper_reload")), id="m", p=M_SVM),
                          op("mapper_predict", id="m", s=rng.randrange(4), base=rng.choice((0.9, 0.9, "nan", "inf", "-inf", 1e300)))]
            elif x < 0.64:
                kind, s = sess[0]
                if kind in ("mgr", "api"):
                    cycle += [op(kind + "_del", id=s), fixed_init(init, kind, s)]
            else:
                l = use_op(rng, *rng.choice(sess), 0.3)
                if rng.random() < 0.25 and "mgr_run" in l:
                    p = parse(l)[1][rng.choice(("ref", "deg"))]
                    cycle += [op("fault", p=p, op=rng.choice(("open", "read", "close")), kind=rng.choice(("EIO", "EMFILE", "EACCES")), from_=rng.choice((1, 1, 2)), count=-1),
                              l, "nofaults"]
                else:
                    cycle.append(l)
        if not any(w in l for l in cycle for w in ("_init", "_create", "_run", "_sig", "load", "svm", "csv", "batch", "train", "vad", "build", "predict", "window")):
            cycle.append(use_op(rng, *sess[0]))
        laps = []
        # now and then for so long that growth in rare steps shows
        for n in range(32 if len(cycle) < 4 and rng.random() < 0.4 else self.LAPS):
            laps += cycle + ["mem"]
        extra = [x for x in session.BADMODEL.values() if x]
        body = init + laps
        dels = [op("%s_del" % k, id=s) for k, s in sess if k in ("mgr", "api")]
        ops = EXTRA + extra + setup_lines(body) + init + laps + dels + ["mem", "endmem"]
        return dict(flavour="mem", procs=[ops])

    def judge(self, scn, res, ctx):
        v = ended_badly(res)
        p = res[0]
        if v:
            return v
        ops = scn["procs"][0]
        at = [i for i, l in enumerate(ops) if l == "mem" and i in p.r]
        laps = self.laps(ops, at)
        if len(laps) >= 4:
            m = [p.r[i] for i in laps]
            for k in ("count", "bytes", "handles", "tflite"):
                x = [int(r[k]) for r in m]
                if k == "bytes" and x[-1] - x[2] < 64:
                    continue
                # growth that stops is a cache, growth that goes on is a leak
                y = [x[n - 1] for n in (4, 8, 16, 32) if n <= len(x)]
                if all(b > a for a, b in zip(x[1:], x[2:])) or (len(y) == 4 and all(b > a for a, b in zip(y, y[1:]))):
                    v.append(("leak", "%s grows with every repetition: %s" % (k, " ".join(map(str, x)))))
                    break
        if p.mem:
            if p.mem["handles"] != "0":
                v.append(("leak", "%s files are open after everything was destroyed" % p.mem["handles"]))
            if p.mem["tflite"] != "0":
                v.append(("leak", "%s backend objects are alive after everything was destroyed" % p.mem["tflite"]))
            ctx.note("cycles", len(laps))
            if len(laps) >= 3:
                # the same operations, fewer times
                first, last = laps[1], laps[-1]
                few = ops[:laps[1] + 1] + [l for l in ops[laps[-1] + 1:]]
                q = ctx.sane("mem", few)
                if q.mem and int(p.mem["count"]) > int(q.mem["count"]):
                    v.append(("leak", "%s blocks remain after everything was destroyed, %s after fewer repetitions" % (p.mem["count"], q.mem["count"])))
        return v

    @staticmethod
    def laps(ops, at):
        """The leading checkpoints whose repetitions are identical."""
        seg, prev = [], None
        out = []
        for a, b in zip(at, at[1:]):
            s = ops[a + 1:b]
            if prev is None:
                prev, out = s, [a, b]
            elif s == prev:
                out.append(b)
            else:
                break
        return out


def fixed_init(init, kind, s):
    name = "mgr_init" if kind == "mgr" else "api_create"
    for l in init:
        n, kv = parse(l)
        if n == name and kv["id"] == str(s):
            return l
    return op("window", sr=1000)


class C14(Prop):
    id = "C14"
    flavours = ("mem",)
    quick_runs = 1100
    thorough_runs = 40000
    quick_wall = 75
    level = "fault_enumeration"
    rule = ("a run is one process of 1-2 sessions and other objects in which 1-3 operations (configuration, comparison, load, write, "
            "list, table, prediction, training) each lose one allocation, followed by healthy operations, reconfiguration and "
            "destruction; distinct by the operation list, which includes the failing allocation's number")

    def count(self, ctx, init, l):
        """How many allocations this operation makes."""
        lines = [x for x in init] + [l]
        ops = EXTRA + setup_lines(lines) + init + [l + " allocfail=0"]
        return int(ctx.sane("mem", ops).r[len(ops) - 1].get("allocs", 0))

    def gen(self, rng, i, ctx):
        init, sess = sessions(rng)
        body, hit = [], 0
        cfg = {("mgr" if parse(l)[0] == "mgr_init" else "api" if parse(l)[0] == "api_create" else parse(l)[0][:6], parse(l)[1]["id"]): l for l in init}
        for _ in range(rng.randrange(2, 6)):
            x = rng.random()
            again = None
            if x < 0.25:
                l = rng.choice(init)
                need = []
                again = l
            elif x < 0.45:
                l, need = small_op(rng), []
                while "json=" in l:     # protobuf's JSON printer does not survive a failed allocation
                    l = small_op(rng)
            else:
                kind, s = rng.choice(sess)
                l = use_op(rng, kind, s, 0.08)
                need = [y for y in init if parse(y)[1]["id"] == str(s) and y.startswith(dict(mgr="mgr_", api="api_", mapper="mapper_", builder="builder_")[kind])]
                again = rng.choice((None, None, need[0])) if kind in ("mgr", "api") else None
            if hit < 3 and rng.random() < 0.6:
                n = self.count(ctx, need, l)
                if n:
                    y = rng.random()
                    k = rng.randrange(1, n + 1) if y < 0.6 else min(n, int(2 ** rng.uniform(0, 12))) if y < 0.8 else max(1, n + 1 - int(2 ** rng.uniform(0, 10)))
                    body.append(l + " allocfail=%d" % k)
                    hit += 1
                    if again:
                        body.append(again)
                    if rng.random() < 0.5:
                        body.append(l)
                    continue
            body.append(l)
        kind, s = rng.choice(sess)
        body.append(use_op(rng, kind, s, 0.05))
        ops = EXTRA + setup_lines(init + body) + init + body + [op("dump", p=CSV), op("dump", p=JSN), "endmem"]
        return dict(flavour="mem", procs=[ops])

    def nontrivial(self, scn, res):
        return any(r.get("allochit") == "1" for p in res for r in p.r.values())

    def judge(self, scn, res, ctx):
        v = ended_badly(res)
        p = res[0]
        if v:
            return v
        ops = scn["procs"][0]
        err = p.err.decode(errors="replace")
        cur = {}
        spoiled = False
        for i, l in enumerate(ops):
            if i not in p.r:
                continue
            name, kv = parse(l)
            r = p.r[i]
            what = "operation %d (%s)" % (i, l[:70])
            hit = r.get("allochit") == "1" or ("allocfail" in kv and r.get("exc") == "bad_alloc")
            if hit:
                ctx.fired["ENOMEM@alloc"] = ctx.fired.get("ENOMEM@alloc", 0) + 1
                r["allochit"] = "1"
            if "exc" in r and not (hit and r["exc"] == "bad_alloc"):
                v.append(("exception", "%s let an exception out: %s" % (what, brief(r))))
                continue
            key = (name.split("_")[0], kv.get("id"))
            if name in INIT or name in ("mapper_load", "builder_new"):
                bad = "exc" in r
                if hit and not bad and r.get("ok") == "0":
                    bad = True
                if name == "builder_new":
                    key = ("build", kv["id"])
                    if bad:
                        cur.pop(key, None)
                        continue
                    cur[key] = (l, True)
                    continue
                if bad:
                    if key in cur:
                        cur[key] = (cur[key][0], False)
                else:
                    if r.get("ok") != "1":
                        v.append(("refused", "%s: a good configuration is refused%s: %s" % (what, " after an allocation failed" if not hit else "", brief(r))))
                    cur[key] = (l, True)
                continue
            if "exc" in r:
                ctx.note("operations that ran out of memory")
                if name == "csv_write":
                    spoiled = True
                continue
            if name == "build":
                key = ("build", kv["id"])
            if name in RUNS or name in ("mapper_predict", "build"):
                if key not in cur:
                    if name in RUNS and r.get("ok") == "1" and "allocfail" not in kv:
                        v.append(("unconfigured", "%s: never configured, and yet %s" % (what, brief(r))))
                    continue
                line, sure = cur[key]
                want = pristine(ctx, "mem", fix_id(line), fix_id(l))
                got = strip(r, "allocs", "allochit")
                if hit and got.get("ok") == "0":
                    ctx.note("operations that reported an error")
                    continue
                if not sure and (got.get("ok") == "0" or got.get("nomapper") == "1"):
                    continue
                if not same(got, want, "refsame", "bufsame"):
                    k = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)]
                    v.append(("wrong", "%s%s: %s" % (what, " losing an allocation" if hit else " after an allocation failed", ", ".join(
                        "%s=%s, alone %s" % (x, got.get(x, "-")[:40], want.get(x, "-")[:40]) for x in k[:2]))))
            elif name in ("load", "batch", "train_read", "vadpatch", "window", "svm_train"):
                alone = EXTRA + setup_lines([l]) + [op(name, **{k: x for k, x in kv.items() if k not in ("allocfail", "id")})]
                want = ctx.sane("mem", alone).r[len(alone) - 1]
                got = strip(r, "allocs", "allochit", "peak", "big")
                if got == strip(want, "peak", "big") or (hit and got.get("ok") == "0"):
                    continue
                if hit and name in ("load", "batch", "train_read") and kv["p"] in err or (name == "load" and hit and not got.get("data")):
                    ctx.note("operations that reported an error")
                    continue
                v.append(("wrong", "%s%s: %s, alone %s" % (what, " losing an allocation" if hit else " after an allocation failed", brief(got), brief(want))))
            elif name == "csv_write" and hit:
                spoiled = True
            elif name == "dump" and not spoiled:
                # everything was written
                want = b""
                for m in ops[:i]:
                    n2, k2 = parse(m)
                    if n2 == "csv_write":
                        h, row, j, _ = output.clean(ctx, m, "mem")
                        if k2.get("csv") == kv["p"]:
                            want += (b"" if want else h) + row
                        elif k2.get("json") == kv["p"]:
                            want += j
                if bytes.fromhex(r.get("hex", "")) != want:
                    v.append(("wrong", "%s does not hold what was written to it" % kv["p"]))
        if p.mem and not v:
            healthy = [re.sub(r" allocfail=\d+", "", l) for l in ops]
            q = ctx.sane("mem", healthy)
            for k in ("handles", "tflite"):
                if q.mem and int(p.mem[k]) > int(q.mem[k]):
                    v.append(("leak", "%s: %s after everything was destroyed, %s if no allocation fails" % (k, p.mem[k], q.mem[k])))
        return v


PROPS = [C12(), C13(), C14()]
