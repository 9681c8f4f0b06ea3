"""C07 batches; C18 the command line."""
from common import *
from output import json_objects

CSV, JSN, LIST = "/sim/out/res.csv", "/sim/out/dbg.json", "/sim/in/list.csv"
LATNAME = ("/sim/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite")
SVMNAME = "/sim/model/libsvm_nu_svr_model.txt"
COMPLAINT = re.compile(r"error|fail|invalid|unable|cannot|could not|can't|not found|no such|does not exist|skip|reject|refus|abort", re.I)


def cli_args(c):
    """Options of the command line for a manager configuration."""
    a = ["--use_lattice_model=%s" % ("true" if c.get("lattice") else "false")]
    if c.get("m"):
        a.append("--similarity_to_quality_model=" + c["m"])
    if c.get("win") is not None:
        a.append("--search_window_radius=%d" % c["win"])
    for k, f in (("speech", "--use_speech_mode"), ("unscaled", "--use_unscaled_speech_mos_mapping"), ("nogal", "--disable_global_alignment"),
                 ("noreal", "--disable_realignment")):
        if c.get(k):
            a.append(f)
    return a


def cli(args):
    return op("cli", **{"a%d" % n: a for n, a in enumerate(args)})


def list_text(pairs, eol="\n"):
    return "reference,degraded" + eol + "".join("%s,%s%s" % (a, b, eol) for a, b in pairs)


def complaints(p):
    return sum(1 for l in err_lines(p) if COMPLAINT.search(l))


def split_csv(data):
    """(header, [rows])"""
    ls = data.splitlines(True)
    return (ls[0], ls[1:]) if ls else (b"", [])


class C07(Prop):
    id = "C07"
    flavours = ("mem", "io")
    quick_runs = 640
    thorough_runs = 20000
    quick_wall = 70
    rule = ("a run is one batch of 2-9 pairs through the real main(): good, missing, malformed, too short, mismatched and repeated "
            "pairs in random order and configuration, with files that cannot be opened, fail or end early when read, or vanish at "
            "some point; every row is compared with the pair's own one-pair batch under the same persistent faults; distinct by the "
            "operation list")

    def gen(self, rng, i, ctx):
        c = dict(rng.choice(CONFIGS))
        pairs = []
        for _ in range(rng.randrange(2, 10)):
            if pairs and rng.random() < 0.15:
                a, b = rng.choice(pairs)
                if rng.random() < 0.5:
                    a, b = a, a
                pairs.append((a, b))
            else:
                pairs.append(pick_pair(rng, 0.4))
        files = [f for p in pairs for f in p if f in GOOD]
        faults, gone = [], []
        for _ in range(rng.choice((0, 0, 1, 1, 2))):
            if not files:
                break
            f = rng.choice(files)
            if f in gone or any("p=" + enc(f) + " " in x for x in faults):
                continue
            x = rng.random()
            if x < 0.25:
                faults.append(op("fault", p=f, op="open", kind=rng.choice(("EACCES", "EMFILE", "ENOMEM", "EIO", "ESTALE", "ELOOP")), count=-1))
            elif x < 0.45:
                faults.append(op("fault", p=f, op="read", kind=rng.choice(("EIO", "ESTALE", "ENOMEM")), count=-1))
            elif x < 0.6:
                faults.append(op("fault", p=f, op="read", kind="eof", arg=rng.choice((0, 20, 44, 46, 300, 1500, 2301)), count=-1))
            elif x < 0.7:
                faults.append(op("fault", p=f, op="read", kind="short", arg=rng.choice((1, 11, 44, 500)), count=-1))
            elif x < 0.9:
                gone.append(f)
                faults.append(op("fault", p=f, op="any", kind="vanish", from_=rng.randrange(1, 26)))
            else:
                gone.append(f)
                faults.append(op("fault", p=f, op="open", kind=rng.choice(("EMFILE", "EACCES", "ENOMEM")), from_=rng.randrange(1, 5), count=rng.choice((1, 2))))
        args = cli_args(c) + ["--batch_input_csv=" + LIST, "--results_csv=" + CSV, "--output_debug=" + JSN]
        if rng.random() < 0.3:
            args.append("--verbose")
        l = cli(args)
        names = [f for p in pairs for f in p]
        tail = []
        if rng.random() < 0.2:
            tail = [op("fault", p=LIST, op="read", kind=rng.choice(("short", "short", "EINTR")), arg=rng.choice((1, 7, 100)), count=rng.choice((1, 3)))]
        ops = setup_lines([l], [cli(names)]) + faults + tail + [op("put", p=LIST, text=list_text(pairs, rng.choice(("\n", "\n", "\r\n")))), l,
                                                        op("dump", p=CSV), op("dump", p=JSN)]
        return heap(rng, dict(flavour="mem" if rng.random() < 0.85 else "io", procs=[ops], pairs=pairs, gone=gone))

    def solo(self, ctx, scn, pair):
        """(header, row, json, complaints) of this pair's own batch."""
        keep, cl = [], None
        for l in scn["procs"][0]:
            name, kv = parse(l)
            if name == "cli":
                cl = cli([x for x in kv.values() if x != "--verbose"])
            elif name == "fault" and kv["p"] in pair and kv["p"] not in scn["gone"]:
                keep.append(l)
        ops = setup_lines([cl], [cli(pair)]) + sorted(keep) + [op("put", p=LIST, text=list_text([pair])), cl, op("dump", p=CSV), op("dump", p=JSN)]
        p = ctx.sane(scn["flavour"], ops)
        n = len(ops)
        h, rows = split_csv(bytes.fromhex(p.r[n - 2].get("hex", "")))
        return h, rows, bytes.fromhex(p.r[n - 1].get("hex", "")), complaints(p), p.r[n - 3].get("rc")

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p = res[0]
        if v:
            return v
        ops = scn["procs"][0]
        ran = [i for i, l in enumerate(ops) if l.startswith("cli")]
        lst = [parse(l)[1]["text"] for l in ops if l.startswith("put p=" + LIST)]
        if not ran or not lst:
            return []
        if p.r[ran[0]].get("rc") != "0":
            return [("exit", "the batch ended with exit code %s" % p.r[ran[0]].get("rc"))]
        pairs = [tuple(l.split(",")) for l in lst[-1].replace("\r", "").split("\n")[1:] if l]
        got = {parse(l)[1]["p"]: bytes.fromhex(p.r[i].get("hex", "")) for i, l in enumerate(ops) if l.startswith("dump")}
        want = []
        for a in pairs:
            h, rows, js, n, rc = self.solo(ctx, scn, a)
            if rc != "0" or len(rows) > 1 or (not rows and not n) or bool(rows) != bool(js):
                v.append(("solo", "the pair %s on its own: exit code %s, %d rows, %d complaints" % (",".join(a), rc, len(rows), n)))
                return v
            win = [x[23:] for x in parse(ops[ran[0]])[1].values() if x.startswith("--search_window_radius=")]
            d = due(dict(ref=a[0], deg=a[1]), dict(win=win[-1]) if win else {})
            hurt = any(l.startswith("fault") and parse(l)[1]["p"] in a and parse(l)[1]["kind"] != "short" for l in ops)
            if d is not None and bool(rows) != bool(d) and not hurt:
                v.append(("solo", "the %s pair %s gives %d rows" % ("sound" if d else "unusable", ",".join(a), len(rows))))
                return v
            want.append((h, rows[0] if rows else b"", js, any(f in scn["gone"] for f in a)))
        ctx.note("pairs", len(pairs))
        ctx.note("failing pairs", sum(1 for w in want if not w[1]))
        # Which of the pairs that touch a vanishing file gave a row?
        if CSV in got:
            head, rows = split_csv(got[CSV])
            hs = {w[0] for w in want if w[1]}
            if rows and head not in hs:
                v.append(("row", "the results do not begin with the header"))
            took = self.match(rows, want)
            if took is None:
                v.append(("row", "the result rows are not those of the pairs on their own, in order: %d rows for %d pairs (%d good)%s" % (
                    len(rows), len(pairs), sum(1 for w in want if w[1]), self.where(rows, want))))
                return v
            js = b"".join(w[2] for w, t in zip(want, took) if t)
            if JSN in got and got[JSN] != js:
                v.append(("row", "the debug output is not that of the pairs on their own, in order"))
            dead = set()
            for a, w, t in zip(pairs, want, took):
                lost = [f for f in a if f in scn["gone"]]
                if w[1] and not t:
                    ctx.note("pairs lost to a vanishing file")
            bad = len(pairs) - sum(took)
            if complaints(p) < bad:
                v.append(("silent", "%d of %d pairs gave no row, %d complaints on standard error" % (bad, len(pairs), complaints(p))))
            for r in rows:
                f = r.decode().split(",")
                try:
                    m = float(f[2])
                except (ValueError, IndexError):
                    m = None
                if m is None or not (1 <= m <= 5):
                    v.append(("score", "a row's score is %s" % (f[2:3])))
        return v

    @staticmethod
    def match(rows, want):
        """Per pair whether its row is there, in order; None if impossible."""
        # rows must be a subsequence of want; only touched pairs may be absent
        n, m = len(want), len(rows)
        memo = {}

        def go(i, j):
            if i == n:
                return [] if j == m else None
            if (i, j) in memo:
                return memo[i, j]
            h, row, js, soft = want[i]
            r = None
            if row and j < m and rows[j] == row:
                t = go(i + 1, j + 1)
                r = None if t is None else [True] + t
            if r is None and (not row or soft):
                t = go(i + 1, j)
                r = None if t is None else [False] + t
            memo[i, j] = r
            return r
        return go(0, 0)

    @staticmethod
    def where(rows, want):
        good = [w[1] for w in want if w[1]]
        for j, (a, b) in enumerate(zip(rows, good)):
            if a != b:
                return "; row %d begins %r, not %r" % (j, a[:70], b[:70])
        return ""


class C18(Prop):
    id = "C18"
    flavours = ("mem", "io")
    quick_runs = 1400
    thorough_runs = 40000
    quick_wall = 70
    rule = ("a run is one execution of the real main() with random options, inputs, lists, models and outputs, among them missing, "
            "unreadable, unstatable and vanishing files, unusable models and options that do not parse; distinct by the operation list")
    real = Prop.real

    def gen(self, rng, i, ctx):
        c = dict(rng.choice(CONFIGS))
        if rng.random() < 0.5:
            c["win"] = rng.choice((1, 5, 20, 60, None, 0))
        pre, faults = [], []
        x = rng.random()
        badmodel = None
        if x < 0.2:
            # the default model of the working directory
            c.pop("m")
            for path, src in ((SVMNAME, SVM), (LATNAME, LATTICE)):
                y = rng.random()
                if y < 0.75:
                    pre.append(op("host", p=path, from_=src))
                elif y < 0.83:
                    pre.append(op("put", p=path, text="not a model\n"))
        elif x < 0.4:
            import session
            badmodel = c["m"] = rng.choice(sorted(session.BADMODEL))
            if session.BADMODEL[badmodel]:
                pre.append(session.BADMODEL[badmodel])
        args = cli_args(c)
        if c.get("lattice") and rng.random() < 0.3:
            args.remove("--use_lattice_model=true")
        elif not c.get("lattice") and rng.random() < 0.3:
            args[args.index("--use_lattice_model=false")] = "--nouse_lattice_model"
        pairs = [pick_pair(rng, 0.25) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
        batch = rng.random() < 0.35
        listed = True
        if batch:
            args.append("--batch_input_csv=" + LIST)
            if rng.random() < 0.85:
                pre.append(op("put", p=LIST, text=list_text(pairs)))
            else:
                listed = False
            if rng.random() < 0.3:
                args += ["--reference_file=/sim/in/missing.wav", "--degraded_file=" + pairs[0][1]]
        else:
            pairs = pairs[:1]
            if rng.random() < 0.95:
                args.append("--reference_file=" + pairs[0][0])
            else:
                pairs = [("", pairs[0][1])]
            if rng.random() < 0.95:
                args.append("--degraded_file=" + pairs[0][1])
            else:
                pairs = [(pairs[0][0], "")]
        out = []
        if rng.random() < 0.75:
            args.append("--results_csv=" + CSV)
        if rng.random() < 0.6:
            args.append("--output_debug=" + JSN)
        if rng.random() < 0.3:
            args.append("--verbose")
        if rng.random() < 0.04:
            args.append(rng.choice(("--no_such_option=1", "--search_window_radius=wide", "--use_speech_mode=perhaps", "--search_window_radius=")))
        if rng.random() < 0.3:
            # two-word form
            args = [y for a in args for y in (a.split("=", 1) if a.startswith(("--ref", "--deg", "--res", "--batch", "--sim", "--search")) and rng.random() < 0.5 else [a])]
            args = ["%s" % a for a in args]
        else:
            rng.shuffle(args)
        if rng.random() < 0.08 and all("=" in a or a in ("--verbose", "--use_speech_mode") for a in args):
            pre.append(op("put", p="/sim/in/flags.txt", text="# options\n" + "\n".join(args[1:]) + "\n"))
            args = [args[0], "--flagfile=/sim/in/flags.txt"]
        for path in (CSV, JSN):
            if rng.random() < 0.3:
                pre.append(op("put", p=path, text="kept\n"))
        names = [f for p in pairs for f in p if f]
        targets = names + ([LIST] if batch else []) + ([c["m"]] if c.get("m") else [SVMNAME, LATNAME])
        x = rng.random()
        if x < 0.35:
            f = rng.choice(targets)
            y = rng.random()
            if y < 0.3:
                faults.append(op("fault", p=f, op="stat", kind=rng.choice(("EACCES", "ELOOP", "ENAMETOOLONG", "EIO", "ENOTDIR")), count=-1))
            elif y < 0.8:
                faults.append(op("fault", p=f, op=rng.choice(("any", "open", "stat")), kind="vanish", from_=rng.randrange(1, 6)))
            else:
                faults.append(op("fault", p=f, op="open", kind=rng.choice(("EACCES", "EMFILE", "EIO")), from_=rng.choice((1, 1, 2)), count=-1))
        elif x < 0.4:
            faults.append(op("fault", p="*", op="cwd", kind=rng.choice(("ENOENT", "EACCES")), count=-1))
        l = cli(args)
        ops = setup_lines([l], [cli(names)]) + pre + faults + [op("dump", p=CSV), op("dump", p=JSN), l, op("dump", p=CSV), op("dump", p=JSN)]
        return heap(rng, dict(flavour="mem" if rng.random() < 0.85 else "io", procs=[ops]))

    # ------------------------------------------------------------ the model
    @staticmethod
    def options(words, files):
        """{option: value} as the documentation has it, or None if it does not parse."""
        d = dict(use_lattice_model="true", search_window_radius="60")
        q = list(words)
        while q:
            w = q.pop(0)
            if not w.startswith("--"):
                return None
            k, eq, val = w[2:].partition("=")
            if k == "flagfile":
                if val not in files:
                    return None
                q = [x.strip() for x in files[val].splitlines() if x.strip() and not x.startswith("#")] + q
                continue
            flag = k in ("use_speech_mode", "use_lattice_model", "use_unscaled_speech_mos_mapping", "disable_global_alignment",
                         "disable_realignment", "verbose")
            if k.startswith("no") and k[2:] == "use_lattice_model" and not eq:
                d[k[2:]] = "false"
            elif flag:
                if eq and val not in ("true", "false"):
                    return None
                d[k] = val if eq else "true"
            elif k in ("reference_file", "degraded_file", "batch_input_csv", "results_csv", "output_debug", "similarity_to_quality_model",
                       "search_window_radius"):
                if not eq:
                    if not q:
                        return None
                    val = q.pop(0)
                if k == "search_window_radius" and not re.match(r"^-?\d+$", val):
                    return None
                d[k] = val
            else:
                return None
        return d

    def judge(self, scn, res, ctx):
        p = res[0]
        ops = scn["procs"][0]
        ran = [i for i, l in enumerate(ops) if l.startswith("cli")]
        if not ran:
            return []
        at = ran[0]
        words = list(parse(ops[at])[1].values())
        disk, dirs, texts, faults = {}, set(), {}, []
        for l in ops[:at]:
            name, kv = parse(l)
            if name in ("put", "wav", "host"):
                disk[kv["p"]] = l
                if name == "put" and "text" in kv:
                    texts[kv["p"]] = kv["text"]
            elif name == "dir":
                dirs.add(kv["p"])
            elif name == "fault":
                faults.append(kv)
        o = self.options(words, texts)
        if p.end == "exit":
            # the option parser ends the program
            rc = p.status.split(":")[-1]
            v = []
            if o is not None and not faults:
                v.append(("options", "options that are documented are refused (exit %s)" % rc))
            if rc == "0":
                v.append(("options", "options that do not parse end with exit code 0"))
            if not p.err.strip():
                v.append(("options", "options that do not parse end without a message"))
            return v
        v = ended_badly(res) + escaped(p)
        if v or at not in p.r:
            return v
        rc = p.r[at].get("rc")
        if o is None:
            return [("options", "options that do not parse are accepted (exit %s)" % rc)]
        dumps = {}
        for i, l in enumerate(ops):
            if l.startswith("dump") and i in p.r:
                dumps.setdefault(parse(l)[1]["p"], {})["before" if i < at else "after"] = p.r[i].get("hex")
        unstat = {f["p"] for f in faults if f["op"] == "stat" and f["kind"] != "vanish"}
        racy = {f["p"] for f in faults} - unstat
        cwdbad = any(f["op"] == "cwd" for f in faults)

        def there(path):
            return path and path not in unstat and (path in disk or path in dirs)

        must_fail = None
        maybe = False
        batch = o.get("batch_input_csv")
        speech, lattice = o.get("use_speech_mode") == "true", o["use_lattice_model"] == "true"
        model = o.get("similarity_to_quality_model")
        needed = not speech or lattice
        default = not model
        if default:
            model = LATNAME if speech else SVMNAME
        for f in ([batch] if batch else [o.get("reference_file", ""), o.get("degraded_file", "")]):
            if not there(f):
                must_fail = "%r does not exist or cannot be examined" % f
            if f in racy:
                maybe = True
        if default and cwdbad:
            maybe = True
        if model in racy:
            maybe = True
        if not there(model):
            # a model that no quality mapper needs may or may not be demanded
            if needed and not (not default and speech and model in unstat):
                must_fail = "the model %s does not exist" % model
            else:
                maybe = True
        elif needed and not must_fail:
            c = dict(m=model, speech=1 if speech else None, lattice=1 if lattice else None, win=10)
            lines = [disk[model] if model in disk else op("dir", p=model)] + [op("mgr_init", **c)]
            if ctx.sane(scn["flavour"], lines).r[1].get("ok") != "1":
                must_fail = "the model %s cannot be loaded" % model
        pairs = []
        if batch:
            if batch in texts:
                pairs = [tuple(x.split(",")) for x in texts[batch].split("\n")[1:] if x]
        else:
            pairs = [(o.get("reference_file", ""), o.get("degraded_file", ""))]
        csv, jsn = o.get("results_csv"), o.get("output_debug")
        ctx.note("command lines refused" if rc != "0" else "command lines accepted")
        if rc != "0":
            if not must_fail and not maybe:
                v.append(("refused", "a command line whose files all exist and load ends with exit code %s: %s" % (rc, p.err[-120:])))
            if not p.err.strip():
                v.append(("message", "exit code %s without a message" % rc))
            for f, d in dumps.items():
                if "before" in d and "after" in d and d.get("before") != d.get("after"):
                    v.append(("output", "the command line was refused and yet %s changed" % f))
            return v
        if must_fail and not maybe:
            v.append(("accepted", "%s, and yet the exit code is 0" % must_fail))
            return v
        if must_fail:
            return v
        # accepted: every pair compared, in order
        for f, d in dumps.items():
            if f not in (csv, jsn) and d.get("before") != d.get("after"):
                v.append(("output", "%s changed although it is not an output of this command line" % f))
        c = dict(m=model, win=o["search_window_radius"], speech=1 if speech else None, lattice=1 if lattice else None,
                 unscaled=1 if o.get("use_unscaled_speech_mos_mapping") == "true" else None,
                 nogal=1 if o.get("disable_global_alignment") == "true" else None, noreal=1 if o.get("disable_realignment") == "true" else None)
        results = []
        for a, b in pairs:
            lines = [op("dir", p="/sim/in"), op("dir", p="/sim/model")] + ([disk[model]] if model in disk else []) + [disk[f] for f in dict.fromkeys((a, b)) if f in disk]
            lines += [op("mgr_init", **c), op("mgr_run", ref=a, deg=b, full=1)]
            q = ctx.sane(scn["flavour"], lines)
            results.append((q.r[len(lines) - 1], a in racy or b in racy or batch in racy or model in racy))
        good = sum(1 for r, _ in results if r.get("ok") == "1")
        for f in (jsn, csv):
            if not f or "after" not in dumps.get(f, {}):
                continue
            before, after = bytes.fromhex(dumps[f].get("before") or ""), bytes.fromhex(dumps[f].get("after") or "")
            if not after.startswith(before):
                v.append(("output", "%s: what it held has changed" % f))
                continue
            add = after[len(before):]
            if f == jsn:
                got = json_objects(add.decode(errors="replace"))
                if got is None:
                    v.append(("output", "the debug output is not a sequence of JSON objects"))
                    continue
                got = [("%.17g" % float(g.get("moslqo", 0)), g.get("referenceFilepath", ""), g.get("degradedFilepath", "")) for g in got]
                want = [("%.17g" % float(r["mos"]) if r.get("ok") == "1" else None, a, b, soft) for (r, soft), (a, b) in zip(results, pairs)]
            else:
                ls = add.decode(errors="replace").splitlines()
                if ls and not before:
                    ls = ls[1:]
                got = [(l.split(",") + ["", "", ""])[:3] for l in ls]
                got = [(g[2], g[0], g[1]) for g in got]
                want = [("%.9g" % float(r["mos"]) if r.get("ok") == "1" else None, a, b, soft) for (r, soft), (a, b) in zip(results, pairs)]
            k = 0
            bad = None
            for m, a, b, soft in want:
                if m is not None and k < len(got) and got[k] == (m, a, b):
                    k += 1
                elif m is not None and not soft:
                    bad = "%s,%s should give %s%s" % (a, b, m, ", the output says %s" % (got[k],) if k < len(got) else "")
                    break
            if bad or k < len(got):
                v.append(("result", "%s: not the results of its pairs under its options, in order: %s" % (f, bad or "%d more" % (len(got) - k))))
            elif len(got) < len(pairs) and complaints(p) < (1 if batch in racy else len(pairs) - len(got)):
                v.append(("silent", "exit code 0 and %s, %d results for %d pairs, %d complaints" % (f, len(got), len(pairs), complaints(p))))
            ctx.note("results checked", len(got))
        if good < len(pairs) and complaints(p) < (1 if batch in racy else len(pairs) - good):
            v.append(("silent", "exit code 0, %d of %d pairs cannot be compared, %d complaints" % (len(pairs) - good, len(pairs), complaints(p))))
        return v


PROPS = [C07(), C18()]
