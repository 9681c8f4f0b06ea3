"""C01 separate sessions in several threads; C02 shared read-only components."""
from common import *
from session import BADMODEL

SIGS = ["k:mix;s:21;n:700;r:1000;q:1", "k:bursts;s:22;n:760;r:1000;q:1", "k:mix;s:23;n:820;r:1000;q:1"]
LONG = ["k:mix;s:24;n:1000;r:1000;q:1", "k:bursts;s:25;n:1100;r:1000;q:1"]
DEGS = ["", ";dn:0.1;ds:3", ";dl:37;dn:0.05", ";dl:-50;dg:0.5", ";dc:0.4"]
for i, s in enumerate(SIGS + LONG):
    FILES["/sim/in/tr%d.wav" % i] = dict(sig=s, sr=1000)
    for j, d in enumerate(DEGS):
        FILES["/sim/in/td%d_%d.wav" % (i, j)] = dict(sig=s + d, sr=1000)
SPEECH = [dict(m=M_SVM, speech=1, win=6), dict(m=M_SVM, speech=1, unscaled=1, win=4), dict(m=M_SVM, speech=1, win=4, noreal=1),
          dict(m=M_LAT, speech=1, lattice=1, win=6), dict(m=M_SVM, speech=1, win=4, nogal=1)]
AUDIO = [dict(m=M_SVM, win=4), dict(m=M_SVM, win=3, noreal=1), dict(m=M_SVM, win=3, nogal=1, noreal=1), dict(m=M_SVM, win=4, lattice=1)]


def sched_op(rng):
    x = rng.random()
    kv = dict(seed=rng.randrange(1, 1 << 30), tick=rng.choice((1024, 4096, 16384)))
    if x < 0.5:
        kv.update(strat="pct", d=rng.randrange(1, 8), k=int(2 ** rng.uniform(5, 12.5)))
    elif x < 0.75:
        kv.update(strat="rand", p=rng.choice((0.5, 0.1, 0.02, 0.004)))
    else:
        kv.update(strat="io", p=rng.choice((0.8, 0.4, 0.1)))
    return op("sched", **kv)


def pair(rng, speech):
    i = rng.randrange(len(SIGS)) if speech else len(SIGS) + rng.randrange(len(LONG))
    return i, rng.randrange(len(DEGS))


def compare(rng, kind, sid, speech, p_bad):
    i, j = pair(rng, speech)
    a, b = (SIGS + LONG)[i], (SIGS + LONG)[i] + DEGS[j]
    bad = rng.random() < p_bad
    if kind == "mgr" and rng.random() < 0.6:
        a, b = "/sim/in/tr%d.wav" % i, "/sim/in/td%d_%d.wav" % (i, j)
        if bad:
            a, b = rng.choice(((a, rng.choice(BAD + MISSING)), (rng.choice(BAD + MISSING), b)))
        return op("mgr_run", id=sid, ref=a, deg=b, full=1)
    if bad:
        a, b = rng.choice(((a, rng.choice(BADSIG)), (rng.choice(BADSIG), b)))
    return op("mgr_sig" if kind == "mgr" else "api_run", id=sid, ref=a, deg=b, full=1)


def configure(rng, kind, sid, speech, p_bad):
    c = dict(rng.choice(SPEECH if speech else AUDIO))
    if rng.random() < p_bad:
        c["m"] = rng.choice(sorted(BADMODEL))
        c["speech"] = c.get("speech") if c.get("lattice") else None
    if kind == "mgr":
        return op("mgr_init", id=sid, **c)
    c = {k: v for k, v in c.items() if k not in ("noreal", "nogal")}
    return op("api_create", id=sid, sr=1000, **c)


class Threads(Prop):
    flavours = ("mt",)
    real = "all of /repo/src instrumented, armadillo and libstdc++ templates instrumented, libsvm, protobuf, abseil (its Mutex replaced by the scheduler's)"
    stubs = Prop.stubs + ", POSIX and Abseil locks (sim/sched.cc)"

    def verdict(self, p):
        out = []
        for l in p.extra:
            if l.startswith("V "):
                t = dec(l[2:])
                out.append((t.split(":")[0], t))
        return out

    def nontrivial(self, scn, res):
        return self.switches(res[0]) > 2

    @staticmethod
    def stat(p):
        for l in p.extra:
            if l.startswith("S "):
                return dict(x.split("=") for x in l[2:].split())
        return {}

    def switches(self, p):
        return int(self.stat(p).get("switches", 0))

    def account(self, p, ctx):
        s = self.stat(p)
        ctx.note("scheduling points", int(s.get("steps", 0)))
        ctx.note("switches", int(s.get("switches", 0)))
        for k in ("file", "lock", "atomic", "memory", "tick"):
            ctx.note("points at " + k, int(s.get(k, 0)))
        ctx.schedules = getattr(ctx, "schedules", set())
        ctx.schedules.add(s.get("hash"))

    def shrink_more(self, cur, still, ctx):
        """From the seed to an explicit list of switches, then fewer of them."""
        p = ctx.run(cur)[0]
        w = [l[2:] for l in p.extra if l.startswith("W ")]
        ops = cur["procs"][0]
        at = [i for i, l in enumerate(ops) if l.startswith("sched")]
        if not w or not at:
            return cur
        tick = parse(ops[at[0]])[1].get("tick", "4096")
        entries = w[0].split(",") if w[0] else []
        if len(entries) > 3000:
            return cur

        def make(es):
            s = json.loads(json.dumps(cur))
            s["procs"][0][at[0]] = op("sched", strat="list", tick=tick, list=",".join(es))
            return s
        if not still(make(entries)):
            return cur
        best, n, tries = entries, 2, 0
        while len(best) >= 2 and tries < 60:
            size = max(1, len(best) // n)
            for k in range(0, len(best), size):
                tries += 1
                t = best[:k] + best[k + size:]
                if still(make(t)):
                    best, n = t, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(best), n * 2)
        return make(best)

    def compare_alone(self, v, p, scn, alone, ctx):
        ops = scn["procs"][0]
        for i, want in alone.items():
            got = p.r.get(i)
            if got is None:
                v.append(("lost", "operation %d (%s) never ended" % (i, ops[i][:60])))
            elif got != want:
                k = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)]
                v.append(("result", "operation %d (%s) in a thread: %s" % (i, ops[i][:60], ", ".join(
                    "%s=%s, alone %s" % (x, got.get(x, "-")[:40], want.get(x, "-")[:40]) for x in k[:2]))))
            else:
                ctx.note("results compared")


def sections(ops):
    """(before, [[index]]) of a scenario's threads, and the index of join."""
    pre, th = [], []
    for i, l in enumerate(ops):
        n = l.split(" ")[0]
        if n == "join":
            return pre, th, i
        if n == "thread":
            th.append([])
        elif th:
            th[-1].append(i)
        elif n != "sched":
            pre.append(i)
    return pre, th, len(ops)


class C01(Threads):
    id = "C01"
    quick_runs = 520
    thorough_runs = 20000
    quick_wall = 75
    rule = ("a run is 2-4 threads, each with 1-2 sessions it creates, configures, uses, reconfigures and destroys, on good and bad files, "
            "models and disks, under one schedule; distinct by the operation list, which holds the schedule's seed; it counts when the schedule "
            "switched threads more than twice")

    def gen(self, rng, i, ctx):
        nt = rng.choice((2, 2, 3, 3, 4))
        heavy = rng.random() < 0.75
        before, threads = [], []
        for t in range(nt):
            th = []
            kind = rng.choice(("mgr", "mgr", "api"))
            speech = rng.random() < 0.75
            first = configure(rng, kind, 0, speech, 0.08)
            if rng.random() < 0.3:
                n, kv = parse(first)
                before.append(op(n, in_=t, **kv).replace(" in_=", " in="))
            else:
                th.append(first)
            for _ in range(rng.randrange(1, 4 if heavy else 6)):
                x = rng.random()
                if x < (0.55 if heavy else 0.12):
                    th.append(compare(rng, kind, 0, speech, 0.2))
                elif x < 0.72:
                    th.append(configure(rng, kind, 0, speech, 0.15))
                elif x < 0.78:
                    th.append(op(kind + "_del", id=0))
                    if rng.random() < 0.7:
                        th.append(configure(rng, kind, 0, speech, 0.05))
                elif x < 0.88:
                    th.append(op("mapper_load", id="m", p=rng.choice((M_SVM, M_SVM, M_SVM) + tuple(BADMODEL))))
                    th.append(op("mapper_predict", id="m", s=rng.randrange(5)))
                elif x < 0.94:
                    th.append(op("load", p=rng.choice(BAD + ["/sim/in/tr0.wav", "/sim/in/td1_1.wav", "/sim/in/stereo.wav"])))
                else:
                    th.append(op("builder_new", id="b", speech=1))
                    th.append(op("build", id="b", sig=rng.choice(SIGS)))
            threads.append(th)
        faults = []
        used = [kv[k] for th in threads for l in th for n, kv in [parse(l)] for k in ("ref", "deg", "m") if str(kv.get(k, "")).startswith("/sim/in")
                or kv.get(k) == M_LAT]
        if used and rng.random() < 0.35:
            # stateless, so that the order of calls does not matter
            faults.append(op("fault", p=rng.choice(used), op=rng.choice(("open", "read", "read")), kind=rng.choice(("EIO", "EMFILE", "short")),
                             from_=1, count=-1))
        if rng.random() < 0.08:
            faults.append(op("tflite", **{rng.choice(("invoke", "build", "delegate", "nosig")): 1}))
        lines = before + [l for th in threads for l in th]
        extra = [x for k, x in BADMODEL.items() if x and any(k in l for l in lines)]
        ops = extra + setup_lines(lines) + [sched_op(rng)] + faults + before
        for th in threads:
            ops += [op("thread", own=1)] + th
        ops += ["join"]
        return dict(flavour="mt", procs=[ops])

    def judge(self, scn, res, ctx):
        p = res[0]
        v = self.verdict(p)
        if v:
            return v
        v = ended_badly(res)
        if v:
            return v
        self.account(p, ctx)
        ops = scn["procs"][0]
        pre, th, j = sections(ops)
        alone = {}
        for t, idx in enumerate(th):
            keep = [i for i in pre if "in" not in parse(ops[i])[1] or parse(ops[i])[1]["in"] == str(t)]
            seq = [re.sub(r" in=\d+", "", ops[i]) for i in keep] + [ops[i] for i in idx]
            q = ctx.sane("mt", seq)
            for n, i in enumerate(idx):
                alone[i] = q.r.get(len(keep) + n)
            for n, i in enumerate(keep):
                if n in q.r and i in p.r and p.r[i] != q.r[n]:
                    alone[i] = q.r[n]
        self.compare_alone(v, p, scn, alone, ctx)
        return v


class C02(Threads):
    id = "C02"
    quick_runs = 460
    thorough_runs = 20000
    quick_wall = 75
    rule = ("a run is 2-4 threads using one mapper, model, window, similarity measure, patch selector, patch creator, similarity computation and "
            "pair of sample buffers through their read-only interfaces, under one schedule; distinct by the operation list, which holds the "
            "schedule's seed; it counts when the schedule switched threads more than twice")

    def gen(self, rng, i, ctx):
        nt = rng.choice((2, 2, 3, 4))
        speech = rng.random() < 0.6
        a, b = pair(rng, speech)
        sig = (SIGS + LONG)[a]
        before = [op("shared_make", id=0, ref=sig, deg=sig + DEGS[b], speech=1 if speech else None, m=M_SVM, scale=rng.choice((None, 0)), cold=rng.choice((1, 1, None)), win=rng.choice((4, 10)))]
        before += [op("svm_load", id="v", p=M_SVM), op("mapper_load", id="q", p=M_SVM), op("buf", id="r", sig=sig), op("buf", id="d", sig=sig + DEGS[b])]
        api = rng.random() < 0.3
        if api:
            for t in range(nt):
                c = {k: x for k, x in rng.choice(SPEECH if speech else AUDIO).items() if k not in ("noreal", "nogal")}
                before.append(op("api_create", id="a%d" % t, sr=1000, **c))
        threads = []
        heavy = rng.choice((0, 1, 1, 2))
        for t in range(nt):
            th = []
            for _ in range(rng.randrange(2, 6)):
                x = rng.random()
                if x < 0.15:
                    th.append(op("shared_predict", id=0, s=rng.randrange(6), base=rng.choice((0.9, 0.5))))
                elif x < 0.27:
                    th.append(op("svm_predict", id="v", s=rng.randrange(6), base=rng.choice((0.9, 0.5))))
                elif x < 0.37:
                    th.append(op("mapper_predict", id="q", s=rng.randrange(6), base=rng.choice((0.9, 0.5))))
                elif x < 0.5:
                    th.append(op("shared_window", id=0, s=rng.randrange(1, 5)))
                elif x < 0.65:
                    th.append(op("shared_nsim", id=0, s=rng.randrange(12)))
                elif x < 0.75:
                    th.append(op("shared_patches", id=0))
                elif x < 0.85:
                    th.append(op("shared_scale", id=0))
                elif x < 0.92:
                    th.append(op("shared_align", id=0))
                else:
                    th.append(op("shared_select", id=0, win=rng.choice((3, 10))))
            if heavy and t < 2 or heavy == 2:
                big = op("api_run", id="a%d" % t, ref="@r", deg="@d", full=1) if api and rng.random() < 0.6 else op(
                    "shared_sim", id=0, noreal=rng.choice((None, None, 1)))
                th.insert(rng.randrange(len(th) + 1), big)
            threads.append(th)
        lines = before + [l for th in threads for l in th]
        ops = setup_lines(lines) + [sched_op(rng)] + before
        for th in threads:
            ops += [op("thread", own=0).replace(" own=0", " own=0")] + th
        ops += ["join"]
        return dict(flavour="mt", procs=[ops])

    def judge(self, scn, res, ctx):
        p = res[0]
        v = self.verdict(p)
        if v:
            return v
        v = ended_badly(res)
        if v:
            return v
        self.account(p, ctx)
        ops = scn["procs"][0]
        pre, th, j = sections(ops)
        idx = [i for t in th for i in t]
        seq = [ops[i] for i in pre] + [ops[i] for i in idx]
        q = ctx.sane("mt", seq)
        alone = {i: q.r.get(len(pre) + n) for n, i in enumerate(idx)}
        self.compare_alone(v, p, scn, alone, ctx)
        return v


class C20(Threads):
    id = "C20"
    quick_runs = 1500
    thorough_runs = 60000
    quick_wall = 45
    rule = ("a run is 2-4 writers, which share nothing but the disk, appending 1-4 results each to one results CSV, one debug JSON or both, "
            "under one schedule that may switch writers at every file call, with interrupted calls; distinct by the operation list, which holds "
            "the schedule's seed; it counts when the schedule switched writers more than twice")

    def gen(self, rng, i, ctx):
        from output import WRITES, CSV, JSN
        pre = []
        if rng.random() < 0.4:
            nb = rng.choice((3, 21, 32))
            pre.append(op("csv_write", csv=CSV, json=rng.choice((None, JSN)), s=77, nb=nb, ref="first.wav", deg="first_d.wav"))
        elif rng.random() < 0.3:
            pre.append(op("put", p=CSV, text=""))
        ops = [sched_op(rng)] + pre
        if rng.random() < 0.8:
            kv = parse(ops[0])[1]
            ops[0] = op("sched", seed=int(kv["seed"]), tick=int(kv["tick"]), strat="io", p=rng.choice((0.9, 0.5, 0.5, 0.2)))
        if rng.random() < 0.25:
            ops.append(op("fault", p=rng.choice((CSV, JSN)), op="write", kind="EINTR", from_=rng.randrange(1, 9), count=rng.choice((1, 3))))
        both = rng.random()
        n = 0
        for t in range(rng.choice((2, 2, 3, 4))):
            ops.append(op("thread", own=1))
            for _ in range(rng.randrange(1, 5)):
                w = dict(rng.choice(WRITES))
                w.update(ref="t%d_%d.wav" % (t, n), s=rng.randrange(1, 40), np=rng.choice((0, 1, 3, 3, 30)))
                n += 1
                ops.append(op("csv_write", csv=CSV if both < 0.8 else None, json=JSN if both > 0.5 else None, **w))
        ops += ["join", op("dump", p=CSV), op("dump", p=JSN)]
        return dict(flavour="mt", procs=[ops])

    def judge(self, scn, res, ctx):
        from output import CSV, JSN, clean, json_objects
        p = res[0]
        v = self.verdict(p) or ended_badly(res)
        if v:
            return v
        self.account(p, ctx)
        ops = scn["procs"][0]
        pre, th, j = sections(ops)
        csv = json_ = b""
        for i in range(j, len(ops)):
            if i in p.r and ops[i].startswith("dump"):
                d = bytes.fromhex(p.r[i].get("hex", ""))
                if parse(ops[i])[1]["p"] == CSV:
                    csv = d
                else:
                    json_ = d
        rows, objs, headers = {}, {}, set()
        for t, idx in enumerate([pre] + th):
            for i in idx:
                if not ops[i].startswith("csv_write"):
                    continue
                kv = parse(ops[i])[1]
                h, row, js, _ = clean(ctx, ops[i], "mt")
                if kv.get("csv"):
                    rows.setdefault(t, []).append(row)
                    headers.add(h)
                if kv.get("json"):
                    objs.setdefault(t, []).append(js)
        lines = csv.splitlines(True)
        if lines and lines[0] not in headers:
            v.append(("header", "the results file does not start with a header: %r" % lines[0][:60]))
        nh = sum(l in headers for l in lines)
        if nh > (1 if rows.get(0) else len(rows)):
            v.append(("header", "%d headers for %d writers" % (nh, len(rows))))
        body = [l for l in lines if l not in headers]
        self.merged(v, "row", body, rows)
        try:
            d, got, k, text = json.JSONDecoder(), [], 0, json_.decode()
            while k < len(text):
                o, e = d.raw_decode(text, k)
                got.append(text[k:e].encode())
                k = e
                while k < len(text) and text[k].isspace():
                    k += 1
            self.merged(v, "object", got, {t: [x.strip() for x in l] for t, l in objs.items()})
        except ValueError:
            v.append(("object", "the debug JSON is broken: %r" % text[max(0, k - 30):k + 60]))
        for l in err_lines(p):
            if "riting" in l:
                v.append(("message", "an error is reported although nothing failed: %s" % l[:100]))
        ctx.note("records appended", len(body))
        return v

    @staticmethod
    def merged(v, what, got, want):
        """got is an interleaving of want's lists."""
        left = {t: list(l) for t, l in want.items()}
        if not left.get(0) or got[:len(left[0])] == left[0]:
            got = got[len(left.pop(0, [])):]
        # records of different writers differ, those of one are in order
        for g in got:
            t = [t for t, l in left.items() if l and l[0] == g]
            if not t:
                late = [t for t, l in left.items() if g in l]
                v.append((what, "a %s is %s: %r" % (what, "out of order, or others of its writer are lost" if late else "broken, or written twice", g[:80])))
                return
            left[t[0]].pop(0)
        n = sum(len(l) for l in left.values())
        if n:
            v.append((what, "%d %ss are lost" % (n, what)))


PROPS = [C01(), C02(), C20()]
