"""C08 results CSV across crashes; C09 the outputs agree; C10 lost output is reported."""
import copy
from common import *

CSV = "/sim/out/res.csv"
JSN = "/sim/out/dbg.json"


WRITES = []
_g = random.Random(5)
for _i in range(24):
    WRITES.append(dict(s=_i + 1, np=_g.choice((0, 1, 3, 5, 12)) if _i % 8 else 45, nb=_g.choice((1, 3, 21, 32, 32)),
                       mos=_g.choice((None, 1, 4.732, 5.0, 3.3333333333, 4.999999999)) if _i % 6 != 3 else _g.choice(("nan", "inf", 0, -1.5, 1e-9)),
                       ref=_g.choice(("r.wav", "with space.wav", "a/b/c.wav", "é.wav", "back\\slash 'and' \"quote\".wav", "/" + "long/" * 60 + "r.wav")), deg="d%d.wav" % _i))


def write_op(rng, csv=CSV, json=None, **kv):
    return op("csv_write", csv=csv, json=json, **WRITES[rng.randrange(len(WRITES))], **kv)


def clean(ctx, line, flavour="io"):
    """(header, row, json, verbose stdout) that this write produces on an empty, healthy disk."""
    name, kv = parse(line)
    kv = {k: x for k, x in kv.items() if k in ("s", "np", "nb", "mos", "ref", "deg")}
    kv.update(csv="/sim/out/clean.csv", json="/sim/out/clean.json", verbose=1)
    p = ctx.sane(flavour, [op(name, **kv), op("dump", p="/sim/out/clean.csv"), op("dump", p="/sim/out/clean.json")])
    c = bytes.fromhex(p.r[1].get("hex", ""))
    h, _, row = c.partition(b"\n")
    return h + b"\n", row, bytes.fromhex(p.r[2].get("hex", "")), p.out


def out_faults(rng, path, n_max=14):
    x = rng.random()
    where = dict(from_=rng.randrange(1, n_max))
    if x < 0.2:
        return [op("fault", p=path, op="write", kind="torn", arg=rng.choice((0, 1, 2, 5, 30, 100, 101, 333, 999, 10000)), from_=rng.randrange(1, 8))]
    if x < 0.35:
        return [op("fault", p=path, op=rng.choice(("any", "open", "write", "close", "seek")), kind="crash", **where)]
    if x < 0.5:
        return [op("fault", p=path, op="write", kind=rng.choice(("EIO", "ENOSPC", "EDQUOT", "EFBIG")), from_=rng.randrange(1, 8),
                   count=rng.choice((1, 2, -1)))]
    if x < 0.6:
        return [op("disk", free=rng.choice((0, 1, 10, 100, 300, 600, 1200, 3000)))]
    if x < 0.7:
        return [op("fault", p=path, op="open", kind=rng.choice(("EACCES", "ENOENT", "EROFS", "EMFILE", "ENOSPC", "EISDIR")),
                   from_=rng.randrange(1, 5), count=rng.choice((1, 2, -1)))]
    if x < 0.76:
        return [op("fault", p=path, op="close", kind=rng.choice(("EIO", "ENOSPC", "EDQUOT")), from_=rng.randrange(1, 5))]
    if x < 0.8:
        return [op("fault", p=path, op="seek", kind="EIO", from_=rng.randrange(1, 5))]
    if x < 0.92:
        return [op("fault", p=path, op="write", kind="short", arg=rng.choice((1, 7, 64, 500)), from_=rng.randrange(1, 5), count=rng.choice((1, 3, -1)))]
    return [op("fault", p=path, op="write", kind="EINTR", from_=rng.randrange(1, 5), count=rng.choice((1, 3)))]


class C08(Prop):
    id = "C08"
    level = "fault_enumeration"
    quick_runs = 5000
    thorough_runs = 200000
    rule = ("a run is 1-4 processes, one after another on the same simulated disk, each appending 1-5 results to one CSV file "
            "while writes fail, fill the disk, are split, interrupted, torn by a crash, or the process is killed at any file call; "
            "distinct by the operation list")

    def gen(self, rng, i, ctx):
        procs = []
        for n in range(rng.choice((1, 1, 2, 3, 4))):
            ops = []
            if n == 0:
                x = rng.random()
                if x < 0.15:
                    ops.append(op("put", p=CSV, text=""))
                elif x < 0.35:
                    h, r, _, _ = clean(ctx, write_op(random.Random(i)))
                    ops.append(op("put", p=CSV, hex=(h + r * rng.choice((0, 1, 3))).hex()))
                elif x < 0.4:
                    ops.append(op("put", p=CSV, text="something else entirely\nand a last line without an end"))
            else:
                ops.append(op("disk", free=-1))
            ops.append(op("dump", p=CSV))
            for f in range(rng.choice((0, 1, 1, 1, 2))):
                ops += out_faults(rng, CSV)
            for w in range(rng.randrange(1, 6)):
                ops += [write_op(rng, json=JSN if rng.random() < 0.2 else None, verbose=rng.choice((None, 1))), op("dump", p=CSV)]
            procs.append(ops)
        procs.append([op("disk", free=-1), op("dump", p=CSV), write_op(rng), op("dump", p=CSV)])
        return dict(flavour="io", procs=procs)

    def judge(self, scn, res, ctx):
        v = ended_badly(res)
        cur = None          # the file, None: missing
        for n, p in enumerate(res):
            v += escaped(p)
            err = p.err.decode(errors="replace")
            pending = []    # writes since the last dump
            nerr = err.count(CSV)
            used = 0
            incomplete = 0
            faulted = bool(p.fired)
            for i, l in enumerate(scn["procs"][n]):
                name, kv = parse(l)
                done = i in p.r
                if name == "put" and kv["p"] == CSV:
                    cur = bytes.fromhex(kv["hex"]) if "hex" in kv else kv["text"].encode()
                elif name == "csv_write":
                    pending.append((i, l, done))
                elif name == "dump" and done:
                    r = p.r[i]
                    new = None if "missing" in r else bytes.fromhex(r["hex"])
                    v2, inc = self.step(ctx, n, i, cur, new, pending, faulted)
                    v += v2
                    incomplete += inc
                    pending = []
                    cur = new
            # After a crash the next process's first dump settles `pending`.
            if pending:
                nxt = None
                if n + 1 < len(res):
                    for i, l in enumerate(scn["procs"][n + 1]):
                        name, kv = parse(l)
                        if name in ("csv_write", "put"):
                            break
                        if name == "dump" and i in res[n + 1].r:
                            r = res[n + 1].r[i]
                            nxt = (None if "missing" in r else bytes.fromhex(r["hex"]),)
                            break
                if nxt is None:
                    break
                v2, inc = self.step(ctx, n, "end", cur, nxt[0], [x for x in pending], True)
                v += v2
                cur = nxt[0]
            if incomplete > nerr:
                v.append(("silent", "process %d: %d records are incomplete, %d failures reported" % (n, incomplete, nerr)))
            if not faulted and nerr:
                v.append(("alarm", "process %d: a write error is reported on a healthy disk" % n))
        return v

    def step(self, ctx, n, i, old, new, writes, faulted):
        """Violations and incomplete records of what was appended."""
        v = []
        old = old or b""
        new = new or b""
        if not new.startswith(old):
            return [("rewrote", "process %d, operation %s: what the file held before has changed" % (n, i))], 0
        # Each state: (bytes appended so far, records that are incomplete)
        states = {(b"", 0)}
        add = new[len(old):]
        for (j, l, done) in writes:
            h, r, _, _ = clean(ctx, l)
            nxt = set()
            for s, inc in states:
                full = (h if not old + s else b"") + r
                if add.startswith(s + full):
                    nxt.add((s + full, inc))
                if faulted:
                    # any leading part of it
                    k = 0
                    rest = add[len(s):]
                    m = min(len(full) - 1, len(rest))
                    while k < m and rest[k] == full[k]:
                        k += 1
                    if len(writes) == 1 or k == 0:
                        nxt.add((s + full[:k], inc + 1))
                        # libstdc++ offers the whole record again when it
                        # closes the file after a failed partial write
                        for q in range(1, k + 1):
                            t = s + full[:q]
                            z = 0
                            tail = add[len(t):]
                            while z < min(len(full), len(tail)) and tail[z] == full[z]:
                                z += 1
                            if z and t + full[:z] == add:
                                nxt.add((add, inc + 1))
                    else:
                        nxt |= {(s + full[:q], inc + 1) for q in (0, k)}
            states = nxt
        ok = [inc for s, inc in states if s == add]
        if not ok:
            v.append(("appended", "process %d, operation %s: the bytes appended are not the header and row(s) due, nor a leading part: %r"
                      % (n, i, add[:60])))
            return v, 0
        # a record of a crashed call may be incomplete without a message
        inc = min(ok)
        if any(not done for _, _, done in writes):
            inc = 0
        ctx.note("records complete" if not inc else "records incomplete", len(writes))
        return v, inc



def clean_out(ctx, line):
    """What this write prints on its own."""
    name, kv = parse(line)
    kv = {k: x for k, x in kv.items() if k in ("s", "np", "nb", "mos", "ref", "deg", "verbose", "speech", "lattice")}
    return ctx.sane("io", [op(name, **kv)]).out


def dig(x, n):
    return "%.*g" % (n, x)


def json_objects(text):
    """The concatenated JSON objects of a debug file, or None."""
    d, out, i = json.JSONDecoder(), [], 0
    while i < len(text):
        if text[i].isspace():
            i += 1
            continue
        try:
            o, i = d.raw_decode(text, i)
        except ValueError:
            return None
        out.append(o)
    return out


def agree(header, row, obj, out, verbose):
    """Why the three renderings of one result disagree, or None."""
    h, r = header.decode().rstrip("\n").split(","), row.decode().rstrip("\n").split(",")
    if not row.endswith(b"\n") or row.count(b"\n") != 1 or not header.endswith(b"\n"):
        return "the CSV row is not one line"
    if len(h) != len(r):
        return "%d CSV columns, %d values" % (len(h), len(r))
    want = [("reference", obj.get("referenceFilepath", "")), ("degraded", obj.get("degradedFilepath", "")),
            ("moslqo", dig(float(obj.get("moslqo", 0)), 9))]
    for key, col in (("fvnsim", "fvnsim%d"), ("fvnsim10", "fvnsim10_%d"), ("fstdnsim", "fstdnsim%d"), ("fvdegenergy", "fvdegenergy%d")):
        want += [(col % i, dig(float(x), 9)) for i, x in enumerate(obj.get(key, []))]
    if h != [a for a, _ in want]:
        return "the CSV header does not name the values of the result"
    if r != [b for _, b in want]:
        j = next(i for i, (a, b) in enumerate(zip(r, [b for _, b in want])) if a != b)
        return "CSV column %s holds %s, the debug JSON says %s" % (h[j], r[j], want[j][1])
    t = out.decode()
    mos = [l.split()[-1] for l in t.splitlines() if l.startswith("MOS-LQO:")]
    if mos != [dig(float(obj.get("moslqo", 0)), 6)]:
        return "the console shows MOS-LQO %s, the debug JSON %s" % (mos, obj.get("moslqo"))
    if verbose:
        tab = [l for l in t.splitlines() if l.startswith("|")]
        sims = [[w.strip() for w in l.replace(" - ", "|").split("|")[1:-1]] for l in tab if len(l.split("|")) == 6 and "Idx" not in l]
        if sims != [[str(n), "%.6f" % p.get("similarity", 0)] + ["%.3f" % p.get(k, 0) for k in ("refPatchStartTime", "refPatchEndTime", "degPatchStartTime", "degPatchEndTime")]
                    for n, p in enumerate(obj.get("patchSims", []))]:
            return "the console's patch table differs from the debug JSON"
        nb = [[w.strip() for w in l.split("|")[1:-1]] for l in tab if l.endswith("Hz |")]
        if nb != [["%.6f" % float(x), "%.6f" % float(y), "%.1fHz" % float(z)]
                  for x, y, z in zip(obj.get("fvnsim", []), obj.get("fvnsim10", []), obj.get("centerFreqBands", []))]:
            return "the console's band table differs from the debug JSON"
    return None


class C09(Prop):
    id = "C09"
    quick_runs = 3000
    thorough_runs = 100000
    rule = ("a run is one process writing 1-6 results (synthetic ones, or real comparisons) to CSV, debug JSON and console in "
            "random combinations while the disk fails one of the files; distinct by the operation list")

    def gen(self, rng, i, ctx):
        ops = []
        csvs, jsns = [CSV, "/sim/out/b.csv"], [JSN, "/sim/out/b.json"]
        if rng.random() < 0.75:
            victim = rng.choice(csvs + jsns)
            for _ in range(rng.choice((1, 1, 2))):
                f = out_faults(rng, victim)
                if "torn" in f[0] or "crash" in f[0] or f[0].startswith("disk"):
                    f = [op("fault", p=victim, op="write", kind="ENOSPC", from_=rng.randrange(1, 5), count=-1)]
                ops += f
        else:
            victim = None
        real = rng.random() < 0.1
        if real:
            c = rng.choice(CONFIGS)
            ops.append(op("mgr_init", **c))
        for w in range(rng.randrange(1, 3 if real else 7)):
            csv = rng.choice(csvs + [CSV, None])
            jsn = rng.choice(jsns + [JSN, None])
            vb = rng.choice((None, 1))
            if real:
                a, b = pick_pair(rng, 0)
                ops.append(op("mgr_run", ref=a, deg=b, csv=csv or "", json=jsn or "", verbose=vb, full=1,
                              speech=c.get("speech"), lattice=c.get("lattice")))
            else:
                ops.append(write_op(rng, csv, jsn, verbose=vb, speech=rng.choice((None, 1)), lattice=rng.choice((None, 1))))
            ops += [op("dump", p=x) for x in csvs + jsns]
        return dict(flavour="io", procs=[setup_lines(ops) + ops], victim=victim)

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p = res[0]
        if v:
            return v
        cur = {}
        pend = []
        outs = b""
        speech = None
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if name == "csv_write":
                pend.append((l, kv))
                outs += clean_out(ctx, l)
            elif name == "mgr_run":
                pend.append((l, kv))
                outs = None
            elif name == "dump":
                f = kv["p"]
                new = bytes.fromhex(p.r[i].get("hex", ""))
                old = cur.get(f, b"")
                mine = [x for x in pend if x[1].get("csv") == f or x[1].get("json") == f]
                if f != scn["victim"]:
                    want = old
                    for l2, kv2 in mine:
                        if l2.startswith("mgr_run"):
                            want = None
                            break
                        h, r, j, _ = clean(ctx, l2)
                        want += j if kv2.get("json") == f else (b"" if want else h) + r
                    if want is not None and new != want:
                        v.append(("sink", "operation %d: %s does not hold what was written to it%s" % (
                            i, f, " (only %s was failing)" % scn["victim"] if scn["victim"] else "")))
                    if want is None and len(mine) == 1:
                        v += self.real_result(mine[0], [p.r[k] for k, m in enumerate(scn["procs"][0]) if m == mine[0][0] and k < i][-1], f, old, new)
                cur[f] = new
                # the last dump of a group ends it
                nxt = scn["procs"][0][i + 1:i + 2]
                if not nxt or not nxt[0].startswith("dump"):
                    pend = []
        if outs is not None and p.out != outs:
            v.append(("console", "the console output is not that of the results, in order"))
        for l in scn["procs"][0]:
            name, kv = parse(l)
            if name == "csv_write":
                h, r, j, o = clean(ctx, l)
                objs = json_objects(j.decode())
                if objs is None or len(objs) != 1:
                    v.append(("json", "the debug output of one result is not one JSON object"))
                    continue
                a = agree(h, r, objs[0], o, True)
                if a:
                    v.append(("agree", a))
        return v

    def real_result(self, w, result, f, old, new):
        l, kv = w
        if not new.startswith(old):
            return [("sink", "%s: earlier content changed" % f)]
        add = new[len(old):]
        if result.get("ok") != "1":
            return [("sink", "%s: something was written for a comparison that failed" % f)] if add else []
        if kv.get("json") == f:
            o = json_objects(add.decode())
            if not o or len(o) != 1:
                return [("json", "%s: the debug output of one result is not one JSON object" % f)]
            o = o[0]
            for k in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy"):
                if [float(x) for x in o.get(k, [])] != [float(x) for x in result[k].split(",")]:
                    return [("agree", "%s: %s differs from the result returned" % (f, k))]
            if float(o.get("moslqo", 0)) != float(result["mos"]) or float(o.get("vnsim", 0)) != float(result["vnsim"]) \
                    or len(o.get("patchSims", [])) != int(result["np"]) or o.get("referenceFilepath") != kv["ref"]:
                return [("agree", "%s: the debug JSON differs from the result returned" % f)]
            return []
        lines = add.decode().splitlines()
        if len(lines) != (1 if old else 2) or not add.endswith(b"\n"):
            return [("sink", "%s: %d lines for one result" % (f, len(lines)))]
        want = [kv["ref"], kv["deg"], dig(float(result["mos"]), 9)]
        for k in ("fvnsim", "fvnsim10", "fstdnsim", "fvdegenergy"):
            want += [dig(float(x), 9) for x in result[k].split(",")]
        if lines[-1].split(",") != want:
            return [("agree", "%s: the CSV row differs from the result returned" % f)]
        return []


class C10(Prop):
    id = "C10"
    quick_runs = 3000
    thorough_runs = 100000
    rule = ("a run is one process appending 1-6 results to a CSV and a debug JSON file, or a command line run over 2 pairs, while "
            "opens, writes and closes fail, fill the disk, are split or interrupted; distinct by the operation list")

    def gen(self, rng, i, ctx):
        fl = []
        for path in rng.choice(((CSV,), (JSN,), (CSV, JSN), ())):
            for _ in range(rng.choice((1, 1, 2))):
                f = out_faults(rng, path)
                if "torn" not in f[0] and "crash" not in f[0]:
                    fl += f
        if rng.random() < 0.06:
            k = rng.randrange(len(REFSIG))
            args = ["--reference_file=/sim/in/r%d.wav" % k, "--degraded_file=/sim/in/d%d_1.wav" % k,
                    "--similarity_to_quality_model=" + M_SVM, "--results_csv=" + CSV, "--output_debug=" + JSN]
            cli = op("cli", **{"a%d" % n: a for n, a in enumerate(args)})
            ops = setup_lines([cli]) + fl + [cli, op("dump", p=CSV), op("dump", p=JSN)]
            return dict(flavour="io", procs=[ops])
        ops = list(fl)
        for w in range(rng.randrange(1, 7)):
            ops += [write_op(rng, rng.choice((CSV, CSV, None)), rng.choice((JSN, JSN, None))), op("dump", p=CSV), op("dump", p=JSN)]
        return dict(flavour="io", procs=[ops])

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        if v:
            return v
        p = res[0]
        err = p.err.decode(errors="replace")
        ops = scn["procs"][0]
        cur, pend, missing = {}, [], {CSV: 0, JSN: 0}
        for i, l in enumerate(ops):
            name, kv = parse(l)
            if name == "csv_write":
                pend.append((l, kv))
            elif name == "cli":
                k = [x for x in ops if not x.startswith(("fault", "disk"))]
                r = ctx.sane("io", k)
                for j, x in enumerate(k):
                    if x.startswith("dump"):
                        path = parse(x)[1]["p"]
                        want = r.r[j].get("hex", "")
                        mine = [p.r[q].get("hex", "") for q, y in enumerate(ops) if y == x and q in p.r]
                        if mine and mine[-1] != want:
                            missing[path] += 1
            elif name == "dump":
                f = kv["p"]
                new = bytes.fromhex(p.r[i].get("hex", ""))
                want = cur.get(f, b"")
                mine = [x for x in pend if f in (x[1].get("csv"), x[1].get("json"))]
                for l2, kv2 in mine:
                    h, r, j, _ = clean(ctx, l2)
                    want += j if kv2.get("json") == f else (b"" if want else h) + r
                if new != want and mine:
                    missing[f] += 1
                cur[f] = new
                pend = [x for x in pend if f not in (x[1].get("csv"), x[1].get("json")) or
                        (f == CSV and x[1].get("json") == JSN)]
        for f, n in missing.items():
            ctx.note("records lost", n)
            if n > err.count(f):
                v.append(("silent", "%s: %d records lost or incomplete, %d mentioned on stderr" % (f, n, err.count(f))))
        if not p.fired and (CSV in err or JSN in err):
            v.append(("alarm", "a failure is reported on a healthy disk"))
        return v


PROPS = [C08(), C09(), C10()]
