"""C21 the figures of one result agree with each other."""
from common import *
from output import json_objects
from cli import cli, cli_args

EPS = 1e-9


def numbers(s):
    return [float(x) for x in s.split(",") if x]


def of_result(r):
    """The figures of a result an operation printed."""
    pt = [numbers(q) for q in r["pt"].split(";") if q]
    return dict(mos=float(r["mos"]), vnsim=float(r["vnsim"]), lag=float(r["lag"]), cfb=numbers(r["cfb"]), pt=[(q[:5], q[5:]) for q in pt],
                **{k: numbers(r[k]) for k in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy")})


def of_json(o):
    """The figures of an object of the debug JSON."""
    f = lambda x: float(x or 0)
    g = lambda k: [f(x) for x in o.get(k, [])]
    return dict(mos=f(o.get("moslqo")), vnsim=f(o.get("vnsim")), lag=f(o.get("alignmentLagS")), cfb=g("centerFreqBands"),
                pt=[([f(q.get(k)) for k in ("similarity", "refPatchStartTime", "refPatchEndTime", "degPatchStartTime", "degPatchEndTime")],
                     [f(x) for x in q.get("freqBandMeans", [])]) for q in o.get("patchSims", [])],
                **{k: g(k) for k in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy")})


def discord(f, conf, secs, itself):
    """What in these figures cannot be true of one comparison, or None.

    conf: the configuration; secs: length of the reference; itself: the signal was compared with itself."""
    nb = len(f["fvnsim"])
    for k in ("fvnsim10", "fstdnsim", "fvdegenergy", "cfb"):
        if len(f[k]) != nb:
            return "%d bands in fvnsim, %d in %s" % (nb, len(f[k]), k)
    if not nb:
        return "no bands"
    if any(a >= b for a, b in zip(f["cfb"], f["cfb"][1:])):
        return "the bands are not in order: %s" % f["cfb"]
    ok = lambda a, b: abs(a - b) <= EPS or (a != a and b != b)
    if not ok(f["vnsim"], sum(f["fvnsim"]) / nb):
        return "vnsim is %r, the mean of the bands %r" % (f["vnsim"], sum(f["fvnsim"]) / nb)
    if not f["pt"]:
        return "no patches"
    end = -1
    for n, (t, means) in enumerate(f["pt"]):
        sim, rs, re_, ds, de = t
        if len(means) != nb:
            return "patch %d has %d bands of %d" % (n, len(means), nb)
        if not ok(sim, sum(means) / nb):
            return "patch %d: similarity %r, the mean of its bands %r" % (n, sim, sum(means) / nb)
        if not (0 <= rs < re_ <= secs + EPS):
            return "patch %d covers %r to %r of a reference of %r s" % (n, rs, re_, secs)
        if rs <= end:
            return "patch %d starts at %r, the one before at %r" % (n, rs, end)
        end = rs
        if ds == de == 0:
            if sim:
                return "patch %d: no counterpart, but similarity %r" % (n, sim)
        elif not (0 <= ds < de) or abs((de - ds) - (re_ - rs)) > 1e-6:
            return "patch %d: %r to %r against %r to %r" % (n, rs, re_, ds, de)
    k = max(1, int(len(f["pt"]) * 0.1))
    for b in range(nb):
        col = sorted(m[b] for _, m in f["pt"])
        if not ok(f["fvnsim"][b], sum(col) / len(col)):
            return "band %d: fvnsim %r, the patches' mean %r" % (b, f["fvnsim"][b], sum(col) / len(col))
        if not ok(f["fvnsim10"][b], sum(col[:k]) / k):
            return "band %d: fvnsim10 %r, the lowest patches' mean %r" % (b, f["fvnsim10"][b], sum(col[:k]) / k)
        if not f["fstdnsim"][b] >= 0:
            return "band %d: standard deviation %r" % (b, f["fstdnsim"][b])
    if f["mos"] != f["mos"]:
        return "the score is not a number"
    if conf.get("nogal") and f["lag"]:
        return "lag %r without global alignment" % f["lag"]
    if itself and int(conf.get("win", 60) or 60) >= 1:
        if f["lag"] or abs(f["vnsim"] - 1) > EPS or any(abs(x - 1) > EPS for x in f["fvnsim"] + f["fvnsim10"]):
            return "compared with itself: lag %r, similarity %r" % (f["lag"], f["vnsim"])
        if any(t[1:3] != t[3:5] for t, _ in f["pt"]):
            return "compared with itself, patches lie elsewhere: %s" % [t[1:] for t, _ in f["pt"]]
    return None


def signals(rng):
    """(rate, reference, degraded) of random kind, length and damage."""
    sr = rng.choice((1000, 1000, 1000, 2000, 800, 400))
    n = int(sr * rng.choice((rng.uniform(0.6, 1.2), rng.uniform(1, 2), rng.uniform(1, 5), rng.uniform(1, 5000 / sr))))
    a = "k:%s;s:%d;n:%d;r:%d;q:1" % (rng.choice(("mix", "bursts", "noise", "mix")), rng.randrange(100), n, sr)
    x = rng.random()
    if x < 0.15:
        return sr, a, a
    if x < 0.2:
        return sr, a, a + rng.choice((";dg:0", ";dg:1e-200", ";dc:0.01", ";dg:-1"))
    d = ";dn:%g;ds:%d" % (rng.choice((0, 0.01, 0.1, 0.5, 2)), rng.randrange(99))
    if rng.random() < 0.4:
        d += ";dl:%d" % rng.randrange(-sr // 2, sr)
    if rng.random() < 0.4:
        d += ";dg:%.2f" % rng.uniform(0.01, 3)
    if rng.random() < 0.3:
        d += ";dt:%d" % rng.uniform(0.3 * n, n)
    if rng.random() < 0.3:
        d += ";dz1:%.2f;dz2:%.2f" % (rng.random() * 0.5, 0.5 + rng.random() * 0.5)
    return sr, a, a + d


class C21(Prop):
    id = "C21"
    flavours = ("mem", "io")
    quick_runs = 500
    thorough_runs = 20000
    quick_wall = 55
    rule = ("a run makes 2-7 comparisons of signals of random kind, length, delay, damage and rate, through one or two managers or APIs or "
            "as a batch on the command line, while reads are split, interrupted or fail, allocations fail and the neural backend fails; "
            "every result that comes out is recomputed from its own parts; distinct by the operation list")

    def gen(self, rng, i, ctx):
        mem = rng.random() < 0.85
        ops, files, sess = [], [], []
        if rng.random() < 0.25:
            c, pairs = dict(rng.choice(CONFIGS)), []
            for n in range(rng.randrange(1, 6)):
                sr, a, b = signals(rng)
                files += [op("wav", p="/sim/in/a%d.wav" % n, sig=a, sr=sr), op("wav", p="/sim/in/b%d.wav" % n, sig=b, sr=sr)]
                pairs.append(("/sim/in/a%d.wav" % n, "/sim/in/b%d.wav" % n))
                if rng.random() < 0.1:
                    pairs.append((rng.choice(BAD), pairs[-1][1]))
                if rng.random() < 0.3:
                    ops.append(self.fault(rng, rng.choice(pairs[-1])))
            files.append(op("put", p="/sim/in/list.csv", text="reference,degraded\n" + "".join("%s,%s\n" % q for q in pairs)))
            ops.append(cli(["--batch_input_csv=/sim/in/list.csv", "--output_debug=/sim/out/dbg.json"] + cli_args(c)))
            ops.append(op("dump", p="/sim/out/dbg.json"))
            extra = [x for q in pairs for x in q if x in FILES]
            l = setup_lines(ops + [op("x", m=c.get("m", ""))], [op("x", p=x) for x in extra])
            return heap(rng, dict(flavour="mem" if mem else "io", procs=[l + files + ops], conf=c, full=True))
        for s in range(rng.choice((1, 1, 2))):
            if rng.random() < 0.6:
                ops.append(op("mgr_init", id=s, **rng.choice(CONFIGS)))
                sess.append(("mgr", s, 0))
            else:
                a = rng.choice(APIS)
                ops.append(op("api_create", id=s, **a))
                sess.append(("api", s, a["sr"]))
        for n in range(rng.randrange(2, 8)):
            kind, s, want = rng.choice(sess)
            sr, a, b = signals(rng)
            while want and sr != want:
                sr, a, b = signals(rng)
            bad = dict(allocfail=int(10 ** rng.uniform(0, 4.5))) if mem and rng.random() < 0.12 else {}
            faulty = rng.random() < 0.25
            if kind == "mgr" and rng.random() < 0.5:
                p = "/sim/in/a%d.wav" % n, "/sim/in/b%d.wav" % n
                files += [op("wav", p=p[0], sig=a, sr=sr), op("wav", p=p[1], sig=b, sr=sr)]
                if faulty:
                    ops.append(self.fault(rng, rng.choice(p)))
                ops.append(op("mgr_run", id=s, ref=p[0], deg=p[1], full=1, **bad))
                if faulty:
                    ops.append("nofaults")
            else:
                if faulty:
                    ops.append(op("tflite", invoke=1))
                ops.append(op("mgr_sig" if kind == "mgr" else "api_run", id=s, ref=a, deg=b, full=1, sr=sr, **bad))
                if faulty:
                    ops.append(op("tflite"))
        return heap(rng, dict(flavour="mem" if mem else "io", procs=[setup_lines(ops) + files + ops]))

    def fault(self, rng, p):
        if rng.random() < 0.5:
            return op("fault", p=p, op="read", kind="short", arg=rng.choice((1, 44, 100, 511, 1000)), count=-1)
        kind = rng.choice(("EINTR", "EIO", "EIO", "ENOMEM"))
        return op("fault", p=p, op=rng.choice(("read", "read", "open")), kind=kind, from_=rng.randrange(1, 4),
                  count=rng.choice((1, 2, 2 if kind == "EINTR" else -1)))

    def judge(self, scn, res, ctx):
        v = ended_badly(res)
        p = res[0]
        wav, conf, batch = {}, {}, []

        def check(what, f, c, ref, deg):
            ctx.note("results checked")
            a, b = wav.get(ref, ref), wav.get(deg, deg)
            sr = int(re.search(r"r:(\d+)", a).group(1))
            n = int(re.search(r"n:(\d+)", a).group(1))
            ctx.note("signals compared with themselves", a == b)
            d = discord(f, c, n / sr, a == b)
            if d:
                v.append(("figures", "%s: %s" % (what, d)))
            ctx.note("results with lost patches", any(t[3] == t[4] == 0 for t, _ in f["pt"]))

        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if name == "wav":
                wav[kv["p"]] = kv["sig"]
            elif name in ("mgr_init", "api_create"):
                conf[name[:3], kv["id"]] = kv
            elif name == "put" and kv["p"] == "/sim/in/list.csv":
                batch = [x.split(",") for x in kv["text"].splitlines()[1:]]
            elif i in p.r and name in ("mgr_run", "mgr_sig", "api_run"):
                r = p.r[i]
                ctx.note("comparisons")
                if "exc" in r:
                    if r["exc"] != "bad_alloc" or "allocfail" not in kv:
                        v.append(("exception", "operation %d let an exception out: %s" % (i, brief(r))))
                    continue
                if r.get("ok") == "1":
                    check("operation %d (%s)" % (i, l[:150]), of_result(r), conf[name[:3], kv["id"]], kv["ref"], kv["deg"])
            elif i in p.r and name == "dump" and "hex" in p.r[i]:
                objs = json_objects(bytes.fromhex(p.r[i]["hex"]).decode(errors="replace"))
                if objs is None:
                    v.append(("json", "the debug JSON cannot be read"))
                    continue
                left = list(batch)
                for n, o in enumerate(objs):
                    q = [o.get("referenceFilepath", ""), o.get("degradedFilepath", "")]
                    while left and left[0] != q:
                        left.pop(0)
                    if not left:
                        v.append(("json", "object %d is about %s, which is not (or no longer) to be compared" % (n, q)))
                        break
                    left.pop(0)
                    if q[0] in wav:
                        check("object %d (%s)" % (n, q), of_json(o), scn["conf"], *q)
        return v


PROPS = [C21()]
