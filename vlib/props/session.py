"""C03 histories of comparisons; C04 (re)configuration; C11 model files; C15 the lattice backend; C19 entry points."""
import re

from common import *
from cli import LATNAME, SVMNAME

DEFAULTS = [op("host", p=SVMNAME, from_=SVM), op("host", p=LATNAME, from_=LATTICE)]
INIT = ("mgr_init", "api_create")
RUNS = ("mgr_run", "mgr_sig", "api_run")


def pristine(ctx, flavour, init_line, run_line, files=()):
    """The result of this comparison in a process that does nothing else."""
    lines = [init_line, run_line]
    ops = setup_lines(lines) + list(files) + lines
    kv = parse(init_line)[1]
    if not kv.get("m") or kv.get("noopts") == "1":
        ops = DEFAULTS + ops
    p = ctx.ref(flavour, ops)
    if not p.exited:
        return dict(died=p.died() or "crash")
    return p.r[len(ops) - 1]


def fix_id(line):
    name, kv = parse(line)
    kv = {k: x for k, x in kv.items() if k not in ("id", "csv", "json", "verbose", "allocfail", "stack")}
    return op(name, **dict(kv, id=0))


def run_op(rng, kind, sid, p_bad=0.2):
    if kind == "mgr" and rng.random() < 0.6:
        a, b = pick_pair(rng, p_bad)
        return op("mgr_run", id=sid, ref=a, deg=b, full=1)
    a, b = pick_sigs(rng, p_bad)
    if kind == "mgr":
        return op("mgr_sig", id=sid, ref=a, deg=b, full=1, srd=2000 if rng.random() < p_bad * 0.2 else None)
    return op("api_run", id=sid, ref=a, deg=b, full=1, alias=1 if rng.random() < 0.06 else None)


def check_result(v, what, got, want, run=None, conf=None):
    if "died" in want:
        return
    if run and due(parse(run)[1], parse(conf)[1]) == 1 - int(got.get("ok", 0)):
        v.append(("unscored", what + (": a sound pair is refused: " if got.get("ok") != "1" else ": an unusable pair is scored: ") + brief(got)))
    if got.get("refsame", "1") != "1" or got.get("bufsame", "1") != "1":
        v.append(("input", what + ": the caller's samples were changed"))
    if not same(got, want, "refsame", "bufsame"):
        k = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)]
        v.append(("history", "%s: %s, alone it is %s" % (what, " ".join("%s=%s" % (x, got.get(x, "-")[:40]) for x in k[:3]),
                                                       " ".join("%s=%s" % (x, want.get(x, "-")[:40]) for x in k[:3]))))


class C03(Prop):
    id = "C03"
    flavours = ("io", "mem")
    quick_runs = 700
    thorough_runs = 20000
    quick_wall = 60
    rule = ("a run is one process with 1-3 sessions (manager or API, audio, speech, lattice) making 3-10 comparisons, including "
            "missing, malformed, too short and mismatched inputs and reads that fail, in random order; every healthy comparison is "
            "compared with the same comparison in a fresh process; distinct by the operation list")

    def gen(self, rng, i, ctx):
        ops, sess = [], []
        for s in range(rng.choice((1, 1, 2, 3))):
            if rng.random() < 0.6:
                ops.append(op("mgr_init", id=s, **rng.choice(CONFIGS)))
                sess.append(("mgr", s))
            else:
                ops.append(op("api_create", id=s, **rng.choice(APIS)))
                sess.append(("api", s))
        if rng.random() < 0.25:
            ops.append(op("builder_new", id="b", speech=rng.choice((None, 1))))
            sess.append(("builder", "b"))
        faults = []
        for _ in range(rng.randrange(3, 11)):
            kind, s = rng.choice(sess)
            if kind == "builder":
                ops.append(op("build", id=s, sig=rng.choice(REFSIG + BADSIG) + rng.choice(DEG), sr=rng.choice((1000, 1000, 2000))))
                continue
            l = run_op(rng, kind, s)
            if "mgr_run" in l and rng.random() < 0.15:
                # the file has another content from now on
                p = parse(l)[1][rng.choice(("ref", "deg"))]
                if p in FILES:
                    x = rng.random()
                    new = file_op(rng.choice(GOOD if x < 0.7 else BAD)) if x < 0.9 else op("rmfile", p=p)
                    if rng.random() < 0.7:
                        ops.append(l)
                    ops.append(re.sub(r" p=\S+", " p=" + enc(p), new, count=1))
            if "mgr_run" in l and rng.random() < 0.2:
                p = parse(l)[1][rng.choice(("ref", "deg"))]
                ops.append(op("fault", p=p, op=rng.choice(("open", "read", "read")), kind=rng.choice(("EIO", "EMFILE", "ENOMEM", "EACCES")),
                              from_=rng.choice((1, 1, 2)), count=rng.choice((1, -1))))
                ops.append(l)
                ops.append("nofaults")
            else:
                ops.append(l)
        mem = rng.random() < 0.7
        return heap(rng, dict(flavour="mem" if mem else "io", procs=[setup_lines(ops) + ops]))

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p, fl = res[0], scn["flavour"]
        conf, faulty, disk, made = {}, False, {}, set()
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            key = (name.split("_")[0], kv.get("id"))
            if name in ("wav", "put", "rmfile") and kv["p"] in FILES:
                if kv["p"] in made or name == "rmfile":
                    disk[kv["p"]] = l
                made.add(kv["p"])
            elif name == "fault":
                faulty = True
            elif name == "nofaults":
                faulty = False
            elif name in INIT or name == "builder_new":
                if name == "builder_new":
                    key = ("build", kv["id"])
                conf[key] = l
                if i in p.r and name in INIT and p.r[i].get("ok") != "1" and not faulty:
                    v.append(("init", "operation %d: a good configuration is refused: %s" % (i, brief(p.r[i]))))
            elif i in p.r and "exc" not in p.r[i]:
                if name == "build":
                    key = ("build", kv["id"])
                if key not in conf:
                    continue
                ctx.note("comparisons")
                if faulty:
                    ctx.note("comparisons with a failing disk")
                    continue
                want = pristine(ctx, fl, fix_id(conf[key]), fix_id(l), [disk[x] for x in (kv.get("ref"), kv.get("deg")) if x in disk])
                ctx.note("failing comparisons", want.get("ok") == "0")
                check_result(v, "operation %d (%s)" % (i, l[:80]), p.r[i], want, *([l, conf[key]] if name in RUNS and not disk else []))
        return v


BADMODEL = {
    "/sim/model/none": None,
    "/sim/model/text": op("put", p="/sim/model/text", text="not a model\n"),
    "/sim/model/empty": op("put", p="/sim/model/empty", text=""),
    "/sim/model/dir": op("dir", p="/sim/model/dir"),
    "/sim/model/cut": op("host", p="/sim/model/cut", from_=SVM, trunc=100000),
    "/sim/model/cut2": op("host", p="/sim/model/cut2", from_=SVM, trunc=150),
    "/sim/model/line": op("host", p="/sim/model/line", from_=SVM, cutline=40),
}


class C04(Prop):
    id = "C04"
    flavours = ("io", "mem")
    quick_runs = 700
    thorough_runs = 20000
    quick_wall = 60
    rule = ("a run is one process configuring and reconfiguring 1-2 sessions with good and unusable models and options, with reads "
            "of the model and backend steps failing, and comparing before, between and after; distinct by the operation list")

    def gen(self, rng, i, ctx):
        ops = [x for x in BADMODEL.values() if x]
        body = []
        sess = [(rng.choice(("mgr", "api")), s) for s in range(rng.choice((1, 1, 2)))]
        last = {}
        if rng.random() < 0.3:
            ops += DEFAULTS
        for _ in range(rng.randrange(3, 10)):
            kind, s = rng.choice(sess)
            x = rng.random()
            if x < 0.45:
                body.append(run_op(rng, kind, s, 0.08))
                continue
            if kind == "mgr":
                c = dict(rng.choice(CONFIGS))
                name = "mgr_init"
            else:
                c = dict(rng.choice(APIS))
                name = "api_create"
            if (kind, s) in last and rng.random() < 0.4:
                # the last configuration, but for one thing
                c = dict(last[kind, s])
                k = rng.choice(("win", "speech", "lattice", "unscaled", "model") + (("nogal", "noreal") if kind == "mgr" else ("sr",)))
                if k == "win":
                    c["win"] = rng.choice((1, 2, 4, 10, 60))
                elif k == "sr":
                    c["sr"] = 3000 - c["sr"] if c["sr"] in (1000, 2000) else 1000
                elif k != "model":
                    c[k] = None if c.get(k) else 1
                if c.get("speech") and c.get("lattice"):
                    c["m"] = M_LAT
                elif c.get("m") == M_LAT or k == "model":
                    c["m"] = M_SVM if c.get("m") == M_SV2 else M_SV2
            last[kind, s] = c = dict(c)
            pre = post = None
            if x < 0.7:
                pass
            elif x < 0.85:
                c["m"] = rng.choice(sorted(BADMODEL))
            elif x < 0.95 and kind == "api":
                c = dict(c)
                c.update(rng.choice((dict(noaudio=1), dict(sr=0), dict(override=0, sr=rng.choice((16000, 8000, 44100, 47999, 48001, 96000, 1))),
                                     dict(override=0, sr=48000), dict(noopts=1, sr=rng.choice((1000, 48000))), dict(m=""), dict(m="", override=0, sr=48000))))
            else:
                if c.get("lattice") and c.get("speech") and rng.random() < 0.7:
                    pre = op("tflite", **{rng.choice(("build", "threads", "builder", "allocate", "nosig")): 1})
                else:
                    pre = op("fault", p=c["m"], op=rng.choice(("open", "read")), kind=rng.choice(("EIO", "EMFILE", "EACCES")),
                             from_=rng.choice((1, 1, 2, 5, 12)), count=-1)
                post = "nofaults"
            if pre:
                body.append(pre)
            body.append(op(name, id=s, **c))
            if post:
                body.append(post)
            if rng.random() < 0.6:
                body.append(run_op(rng, kind, s, 0.05))
        return heap(rng, dict(flavour="mem" if rng.random() < 0.75 else "io", procs=[ops + setup_lines(body) + body]))

    @staticmethod
    def doomed(name, kv, have):
        """Configurations that can never be honoured."""
        if name == "api_create":
            bare = kv.get("noopts") == "1"
            if kv.get("noaudio") == "1" or kv.get("sr") == "0":
                return True
            if (kv.get("override") == "0" and kv.get("speech") != "1" or bare) and kv.get("sr") != "48000":
                return True
            if bare:
                return SVMNAME not in have
            if not kv.get("m"):
                if kv.get("speech") != "1":
                    return SVMNAME not in have
                return kv.get("lattice") == "1" and LATNAME not in have
        needs = kv.get("speech") != "1" or kv.get("lattice") == "1"
        return needs and kv.get("m") not in have

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p, fl = res[0], scn["flavour"]
        cur = {}      # session -> (line of the last good configuration or None, certain)
        faulty = False
        have = {parse(l)[1].get("p") for l in scn["procs"][0] if l.startswith("host")} & (set(MODELS) | {SVMNAME, LATNAME})
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            key = (name.split("_")[0], kv.get("id"))
            if name in ("fault", "tflite"):
                faulty = True
            elif name == "nofaults":
                faulty = False
            elif name in INIT and i in p.r and "exc" not in p.r[i]:
                ok = p.r[i].get("ok") == "1"
                doomed = self.doomed(name, kv, have)
                ctx.note("configurations refused" if not ok else "configurations accepted")
                if ok and doomed:
                    v.append(("accepted", "operation %d: a configuration that cannot be honoured is accepted: %s" % (i, l[:100])))
                if not ok and not doomed and not faulty:
                    v.append(("refused", "operation %d: a good configuration is refused: %s" % (i, brief(p.r[i]))))
                if ok:
                    cur[key] = (l, True)
                elif key in cur:
                    cur[key] = (cur[key][0], False)
            elif name in RUNS and i in p.r and "exc" not in p.r[i]:
                line, certain = cur.get(key, (None, False))
                if line is None:
                    ctx.note("comparisons never configured")
                    if p.r[i].get("ok") == "1":
                        v.append(("unconfigured", "operation %d: a session that was never configured gives %s" % (i, p.r[i].get("mos"))))
                    continue
                if faulty:
                    continue
                if not certain:
                    ctx.note("comparisons after a failed reconfiguration")
                    if p.r[i].get("ok") != "1":
                        continue
                want = pristine(ctx, fl, fix_id(line), fix_id(l))
                check_result(v, "operation %d (%s)" % (i, l[:80]), p.r[i], want, l, line)
        return v


class C11(Prop):
    id = "C11"
    flavours = ("io", "mem")
    quick_runs = 2000
    thorough_runs = 60000
    rule = ("a run is one process loading the shipped SVR model 1-4 times from a disk that truncates it, loses lines or fails, "
            "interrupts and splits reads, and predicting with whatever loads; distinct by the operation list")

    def gen(self, rng, i, ctx):
        ops = []
        for k in range(rng.randrange(1, 6)):
            # a file may be replaced by another
            p = "/sim/model/m%d" % rng.choice((k, k, 0))
            src = rng.choice((SVM, SVM, SVM2))
            size = os.path.getsize(src)
            x = rng.random()
            kv = {}
            if x < 0.3:
                kv["trunc"] = rng.choice((rng.randrange(size), size - rng.randrange(1, 400), rng.randrange(400)))
            elif x < 0.4:
                kv["cutline"] = rng.randrange(8, 90)
            elif x < 0.45:
                kv["append"] = rng.choice(("\n", " ", "trailing\n"))
            ops.append(op("host", p=p, from_=src, **kv))
            x = rng.random()
            if x < 0.25:
                ops.append(op("fault", p=p, op="read", kind="EIO", from_=rng.choice((1, 2, 3, rng.randrange(1, 16))), count=rng.choice((1, -1))))
            elif x < 0.35:
                ops.append(op("fault", p=p, op="read", kind="eof", arg=rng.choice((rng.randrange(size), rng.randrange(500))), count=-1))
            elif x < 0.5:
                ops.append(op("fault", p=p, op="read", kind="short", arg=rng.choice((1000, 4095, 100, 17)) if rng.random() < .9 else 3,
                              from_=rng.randrange(1, 50), count=rng.choice((1, 20, -1))))
            elif x < 0.56:
                ops.append(op("fault", p=p, op="open", kind=rng.choice(("EMFILE", "EACCES", "EIO", "ENOMEM", "vanish")), from_=rng.choice((1, 2)), count=rng.choice((1, -1))))
            elif x < 0.64:
                ops.append(op("fault", p=p, op="read", kind="EINTR", from_=rng.randrange(1, 12), count=rng.choice((1, 3))))
            w = rng.choice(("svm", "svm", "reload", "mapper", "remap"))
            if w in ("mapper", "remap"):
                sid = p[-1] if w == "remap" else "n%d" % k   # a mapper keeps its path
                ops.append(op("mapper_reload" if w == "remap" else "mapper_load", id=sid, p=p))
                ops.append(op("mapper_predict", id=sid, s=rng.randrange(4)))
            else:
                sid = "s" if w == "reload" else k
                ops.append(op("svm_reload" if w == "reload" else "svm_load", id=sid, p=p))
                if rng.random() < 0.12:
                    # training replaces the model, as loading does
                    ops += [op("svm_train", id=sid, rows=rng.choice((6, 9, 12)), f=rng.choice((3, 4)), s=rng.randrange(5), **{"in": 1}),
                            op("svm_predict", id=sid, s=rng.randrange(4))]
                    if rng.random() < 0.7:
                        ops.append(op("svm_reload", id=sid, p=p))
                for _ in range(rng.choice((1, 1, 2))):
                    ops.append(op("svm_predict", id=sid, s=rng.randrange(4), base=rng.choice((0.9, 0.5, 0.99))))
        return heap(rng, dict(flavour=rng.choice(("io", "mem", "mem")), procs=[ops]))

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p, fl = res[0], scn["flavour"]
        damaged, faulty, state, hosted = set(), set(), {}, {}
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if name == "host":
                hosted[kv["p"]] = kv["from"]
                damaged.discard(kv["p"])
                if "trunc" in kv or "cutline" in kv:
                    damaged.add(kv["p"])
            elif name == "fault":
                if kv["kind"] != "short":   # C stdio hands EINTR to libsvm
                    faulty.add(kv["p"])
            elif name.endswith(("load",)) and i in p.r:
                ok = p.r[i].get("ok") == "1"
                key = (name.split("_")[0], kv["id"])
                ctx.note("models loaded" if ok else "models refused")
                if kv["p"] not in hosted:
                    continue
                if ok and kv["p"] in damaged:
                    v.append(("accepted", "operation %d: a model file that is not whole is accepted" % i))
                if not ok and kv["p"] not in damaged | faulty:
                    v.append(("refused", "operation %d: an intact model is refused: %s" % (i, brief(p.r[i]))))
                if not ok and not p.r[i].get("msg"):
                    v.append(("silent", "operation %d: refused without a reason" % i))
                state[key] = hosted[kv["p"]] if ok else None
            elif name == "svm_train" and i in p.r:
                state[("svm", kv["id"])] = fix_id(l)
            elif name.endswith("predict") and i in p.r:
                key = (name.split("_")[0], kv["id"])
                if "y" not in p.r[i]:
                    if state.get(key):
                        v.append(("lost", "operation %d: the model loaded before is gone" % i))
                    continue
                ref = [op("host", p=M_SVM, from_=state.get(key) or SVM), op("mapper_load" if "mapper" in name else "svm_load", id=0, p=M_SVM), fix_id(l)]
                if (state.get(key) or "").startswith("svm_train"):
                    ref[1] = state[key]
                want = ctx.ref(fl, ref).r[2]
                if want != p.r[i]:
                    v.append(("prediction", "operation %d: %s instead of %s" % (i, p.r[i]["y"], want.get("y"))))
        return v


class C15(Prop):
    id = "C15"
    flavours = ("io", "mem")
    quick_runs = 700
    thorough_runs = 20000
    quick_wall = 60
    rule = ("a run is one process with 1-2 lattice sessions whose backend fails to build, to allocate, to take the delegate, to "
            "offer the signature or to run, before, between and after comparisons; distinct by the operation list")

    def gen(self, rng, i, ctx):
        body = []
        lat = [dict(m=M_LAT, speech=1, lattice=1, win=10), dict(m=M_LAT, speech=1, lattice=1, win=3, nogal=1)]
        sess = [(rng.choice(("mgr", "api")), s) for s in range(rng.choice((1, 1, 2)))]
        for _ in range(rng.randrange(3, 9)):
            kind, s = rng.choice(sess)
            x = rng.random()
            if x < 0.3:
                body.append(op("tflite", **{rng.choice(("build", "threads", "builder", "allocate", "nosig", "delegate")): rng.choice((1, 1, 2, 3))}))
            elif x < 0.4:
                body.append(op("tflite", invoke=rng.choice((1, 2, 3)), after=rng.choice((0, 0, 1, 2))))
            elif x < 0.5:
                body.append(op("fault", p=M_LAT, op=rng.choice(("open", "read")), kind=rng.choice(("EIO", "EMFILE", "ENOENT")),
                               from_=rng.choice((1, 2)), count=-1))
            elif x < 0.6:
                body.append("nofaults")
            if rng.random() < 0.5:
                body.append(op("mgr_init" if kind == "mgr" else "api_create", id=s, **rng.choice(lat), **({} if kind == "mgr" else dict(sr=1000))))
            if rng.random() < 0.7:
                body.append(run_op(rng, kind, s, 0.05))
            if rng.random() < 0.15:
                body.append(op("%s_del" % kind, id=s))
        body += ["nofaults"]
        kind, s = sess[0]
        body += [op("mgr_init" if kind == "mgr" else "api_create", id=s, **lat[0], **({} if kind == "mgr" else dict(sr=1000))), run_op(rng, kind, s, 0)]
        for k, s in sess:
            body.append(op("%s_del" % k, id=s))
        body.append("mem")
        return heap(rng, dict(flavour=rng.choice(("io", "mem", "mem")), procs=[setup_lines(body) + body]))

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p, fl = res[0], scn["flavour"]
        tf, disk, cur, live = {}, False, {}, set()
        hosted = any(l.startswith("host") and M_LAT in l for l in scn["procs"][0])
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            key = (name.split("_")[0], kv.get("id"))
            if name == "tflite":
                tf = kv
            elif name == "fault":
                disk = True
            elif name == "nofaults":
                tf, disk = {}, False
            elif name.endswith("_del"):
                cur.pop(key, None)
                live.discard(key)
            elif name in INIT and i in p.r:
                live.add(key)
                ok = p.r[i].get("ok") == "1"
                must = [k for k in ("build", "threads", "builder", "allocate", "nosig") if tf.get(k)] + (
                    ["delegate"] if tf.get("delegate") in ("1", "3") else [])
                ctx.note("backend failures at configuration", bool(must))
                if ok and must:
                    v.append(("accepted", "operation %d: configured although the backend failed (%s)" % (i, must)))
                if not ok and not must and not disk and hosted:
                    v.append(("refused", "operation %d: a good configuration is refused: %s" % (i, brief(p.r[i]))))
                cur[key] = l if ok else None
            elif name in RUNS and i in p.r:
                live.add(key)
                if not cur.get(key):
                    if p.r[i].get("ok") == "1" and key not in cur:
                        v.append(("unconfigured", "operation %d: never configured, yet %s" % (i, p.r[i].get("mos"))))
                    if p.r[i].get("ok") == "1" and cur.get(key, "") is None:
                        v.append(("unconfigured", "operation %d: its configuration failed, yet it gives %s" % (i, p.r[i].get("mos"))))
                    continue
                want = pristine(ctx, fl, fix_id(cur[key]), fix_id(l))
                if tf.get("invoke") and p.r[i].get("ok") == "1" and tf.get("after", "0") == "0":
                    v.append(("score", "operation %d: a score although the model could not run" % i))
                elif tf.get("invoke") and p.r[i].get("ok") != "1":
                    ctx.note("backend failures at a comparison")
                    continue
                else:
                    check_result(v, "operation %d (%s)" % (i, l[:80]), p.r[i], want, l, cur[key])
            elif name == "mem" and i in p.r:
                if not live and p.r[i]["tflite"] != "0":
                    v.append(("leak", "operation %d: %s backend objects outlive every session" % (i, p.r[i]["tflite"])))
                if p.r[i]["handles"] != "0":
                    v.append(("leak", "operation %d: %s files left open" % (i, p.r[i]["handles"])))
        return v


def num(x):
    return repr(float(x))  # compares equal to itself even if it is not a number


class C19(Prop):
    id = "C19"
    quick_runs = 300
    thorough_runs = 6000
    quick_wall = 60
    flavours = ("mem", "io")
    rule = ("a run compares one pair of signals through the manager with files, the manager with samples, the API, the command line "
            "and a batch, in random order in one or two processes, while reads are split and interrupted; distinct by the operation list")

    def gen(self, rng, i, ctx):
        k, d = rng.randrange(len(REFSIG)), rng.randrange(len(DEG))
        ref, deg = "/sim/in/r%d.wav" % k, "/sim/in/d%d_%d.wav" % (k, d)
        sp = rng.random() < 0.4
        c = dict(m=M_SVM, win=rng.choice((1, 1, 2, 10, 60)))
        x = rng.random()
        if x < 0.35:
            k = rng.randrange(len(LONGSIG))
            ref, deg = "/sim/in/l%d.wav" % k, "/sim/in/m%d_%d.wav" % (k, rng.randrange(len(LONGDEG)))
        elif x < 0.4:
            ref, deg = "/sim/in/lost.wav", "/sim/in/lost_d.wav"
        elif x < 0.45:
            bad = "/sim/in/" + rng.choice(("short.wav", "short2.wav", "one.wav"))
            ref, deg = rng.choice(((bad, deg), (ref, bad)))
        elif x < 0.57:
            k = rng.randrange(len(FARSIG))
            ref, deg = "/sim/in/f%d.wav" % k, "/sim/in/g%d_%d.wav" % (k, rng.choice((0, 2) if sp else (1, 3)))
            c["win"] = rng.choice((10, 59, 60, 60))
        elif x < 0.7:
            r = rng.choice((2000,) * 6 + (8000,) * 4 + (16000,) * 2 + (48000,) * 2)
            sp = sp or r == 16000
            s = "s" if sp else ""
            ref, deg = "/sim/in/q%s%d.wav" % (s, r), "/sim/in/p%s%d.wav" % (s, r)
        sr = FILES[ref]["sr"]
        if sp:
            c.update(speech=1)
            if rng.random() < 0.5:
                c.update(lattice=1, m=M_LAT)
            elif rng.random() < 0.5:
                c.update(unscaled=1)
        if rng.random() < (0.6 if c["win"] == 60 else 0.2):
            c["win"] = None
        only = {}
        if rng.random() < 0.2:
            # what the API has no option for
            only = rng.choice((dict(nogal=1), dict(noreal=1), dict(nogal=1, noreal=1)))
        mine, default = dict(c), []
        if rng.random() < 0.25:
            # the models of the working directory
            mine["m"] = LATNAME if sp else SVMNAME
            default = list(DEFAULTS)
        m2 = dict(mine, **only)
        if m2["win"] is None:
            m2.pop("win")
        a2 = dict(mine, m="" if default else c["m"], win=c["win"] or 0, sr=sr, override=int(not sp and (sr != 48000 or rng.random() < 0.5)))
        ways = [op("mgr_init", id=1, **m2), op("mgr_init", id=2, sv=1, **m2), op("api_create", id=3, **a2)]
        q = lambda f: FILES[f]["sig"] + ";q:1"
        runs = [op("mgr_run", id=1, ref=ref, deg=deg, full=1), op("mgr_sig", id=2, ref=q(ref), deg=q(deg), sr=sr, full=1),
                op("api_run", id=3, ref=q(ref), deg=q(deg), full=1)]
        if only:
            ways[2] = ways[0].replace("id=1", "id=4")
            runs[2] = runs[0].replace("id=1", "id=4")
        args = ["--results_csv=/sim/out/res.csv", "--output_debug=/sim/out/dbg.json"]
        # The lattice is the default, and audio mode has no use for it.
        if not (c.get("lattice") or not sp) or rng.random() < 0.5:
            args.append("--use_lattice_model=%s" % ("true" if c.get("lattice") else "false"))
        if not default:
            args.append("--similarity_to_quality_model=" + c["m"])
        if c["win"] is not None:
            args.append("--search_window_radius=%d" % c["win"])
        for k, f in (("speech", "--use_speech_mode"), ("unscaled", "--use_unscaled_speech_mos_mapping"), ("nogal", "--disable_global_alignment"),
                     ("noreal", "--disable_realignment")):
            if m2.get(k):
                args.append(f)
        pre = list(default)
        if rng.random() < 0.5:
            args.append("--batch_input_csv=/sim/in/list.csv")
            pre.append(op("put", p="/sim/in/list.csv", text="reference,degraded\n%s,%s\n" % (ref, deg)))
        else:
            args += ["--reference_file=" + ref, "--degraded_file=" + deg]
        rng.shuffle(args)
        cli = op("cli", **{"a%d" % n: a for n, a in enumerate(args)})
        body = ways + runs
        if rng.random() < 0.3:
            body = [body[0], body[3], body[1], body[4], body[2], body[5]]
        f = []
        for path in rng.sample((ref, deg, mine["m"], "/sim/in/list.csv"), 2):
            if rng.random() < 0.6 or path == mine["m"]:
                f.append(op("fault", p=path, op="read", kind="short", arg=rng.choice((100, 511, 44, 1000)), count=-1))
            else:
                f.append(op("fault", p=path, op="read", kind="EINTR", from_=rng.randrange(1, 4), count=2))
        procs = [setup_lines(body + [cli] + args, [ref, deg]) + pre + f + body, f + [cli, op("dump", p="/sim/out/dbg.json"), op("dump", p="/sim/out/res.csv")]]
        return heap(rng, dict(flavour="mem" if rng.random() < 0.8 else "io", procs=procs, keep_procs=True, full=True))

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + [x for p in res for x in escaped(p)]
        if v:
            return v
        got, ready = {}, set()
        for n, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if name in INIT and n in res[0].r:
                ready.add((name.split("_")[0], kv["id"]))
                if res[0].r[n].get("ok") != "1":
                    v.append(("refused", "a good configuration is refused: %s" % brief(res[0].r[n])))
            if name in RUNS and n in res[0].r and (name.split("_")[0], kv["id"]) in ready:
                got[name] = res[0].r[n]
        for l in scn["procs"][0]:
            name, kv = parse(l)
            if name == "mgr_run" and "mgr_run" in got:
                conf = next(parse(x)[1] for x in scn["procs"][0] if x.startswith("mgr_init"))
                if due(kv, conf) == 1 - int(got["mgr_run"].get("ok", 0)):
                    v.append(("unscored", "%s, %s: %s" % (kv["ref"], kv["deg"], brief(got["mgr_run"]))))
        keys = ("ok", "mos", "vnsim", "fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy", "np", "lag", "cfb", "pt", "h")
        names = sorted(got)
        for a in names[1:]:
            d = [k for k in keys if got[a].get(k) != got[names[0]].get(k)]
            if d:
                v.append(("differ", "%s and %s give different %s: %s, %s" % (names[0], a, d[0], got[names[0]].get(d[0], "")[:60], got[a].get(d[0], "")[:60])))
        if "mgr_run" in got and len(scn["procs"]) > 1:
            import output
            for n, l in enumerate(scn["procs"][1]):
                if "dbg.json" in l and l.startswith("dump") and n in res[1].r:
                    text = bytes.fromhex(res[1].r[n].get("hex", "")).decode()
                    objs = output.json_objects(text)
                    g = got["mgr_run"]
                    if g.get("ok") != "1":
                        if text:
                            v.append(("differ", "the command line writes a result, the manager refuses"))
                    elif not objs or len(objs) != 1:
                        v.append(("differ", "the command line writes %s results for one pair" % (objs and len(objs))))
                    else:
                        o = objs[0]
                        if num(o.get("moslqo", 0)) != num(g["mos"]):
                            v.append(("differ", "the command line gives %s, the manager %s" % (o.get("moslqo"), g["mos"])))
                        for k in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy"):
                            if [num(x) for x in o.get(k, [])] != [num(x) for x in g[k].split(",")]:
                                v.append(("differ", "the command line's %s differs from the manager's" % k))
                        pt = [[num(x) for x in q.split(",")] for q in g["pt"].split(";") if q]
                        mine = [[num(q.get(k, 0)) for k in ("similarity", "refPatchStartTime", "refPatchEndTime", "degPatchStartTime", "degPatchEndTime")] +
                                [num(x) for x in q.get("freqBandMeans", [])] for q in o.get("patchSims", [])]
                        if num(o.get("vnsim", 0)) != num(g["vnsim"]) or num(o.get("alignmentLagS", 0)) != num(g["lag"]):
                            v.append(("differ", "the command line's similarity or lag differs from the manager's"))
                        if pt != mine or [num(x) for x in o.get("centerFreqBands", [])] != [num(x) for x in g["cfb"].split(",")]:
                            v.append(("differ", "the command line's patches or bands differ from the manager's"))
                    ctx.note("agreements checked")
        return v


PROPS = [C03(), C04(), C11(), C15(), C19()]
