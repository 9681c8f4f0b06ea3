"""C16 batch lists; C17 training tables."""
from common import *
import numbers


def fields(line, delim):
    """std::getline's idea of the fields of a line."""
    if line == "":
        return []
    f = line.split(delim)
    if f[-1] == "":
        f.pop()
    return f


def lines_of(text):
    """std::getline's idea of the lines of a file."""
    l = text.split("\n")
    if l[-1] == "":
        l.pop()
    return l


def read_faults(rng, p, mode):
    ops = []
    if mode == "benign":
        for _ in range(rng.choice((1, 2, 3))):
            if rng.random() < 0.7:
                ops.append(op("fault", p=p, op="read", kind="short", arg=rng.choice((1, 2, 3, 5, 17, 100)), from_=rng.randrange(1, 5),
                              count=rng.choice((1, 4, -1))))
            else:
                ops.append(op("fault", p=p, op="read", kind="EINTR", from_=rng.randrange(1, 5), count=rng.choice((1, 3))))
    elif mode == "io":
        if rng.random() < 0.7:
            ops.append(op("fault", p=p, op="read", kind="short", arg=rng.choice((3, 17, 40, 100)), count=-1))
        ops.append(op("fault", p=p, op="read", kind="EIO", from_=rng.randrange(1, 12), count=rng.choice((1, -1))))
    elif mode == "open":
        ops.append(op("fault", p=p, op="open", kind=rng.choice(("EMFILE", "EACCES", "ENOENT", "EIO", "vanish"))))
    return ops


def pairs(text):
    out = []
    for l in lines_of(text)[1:]:
        if l.endswith("\r"):
            l = l[:-1]
        f = fields(l, ",")
        if len(f) >= 2:
            out.append((f[0], f[1]))
    return out


class C16(Prop):
    id = "C16"
    quick_runs = 6000
    thorough_runs = 200000
    rule = ("a run is one process reading 1-3 generated batch lists (CRLF, blank lines, ragged rows, long paths, no final newline) "
            "from a disk that splits, interrupts, fails or truncates reads; distinct by the operation list")

    def gen(self, rng, i, ctx):
        ops, exp = [], {}
        for k in range(rng.choice((1, 2, 3))):
            p = "/sim/b%d.csv" % k
            nl = rng.choice(("\n", "\n", "\r\n"))
            rows = [rng.choice(("reference,degraded", "reference,degraded", "", "ref,deg,extra", "x"))]
            for j in range(rng.choice((0, 1, 2, 5, 12, 40))):
                def path():
                    n = "%s%d_%s.wav" % (rng.choice("rd"), rng.randrange(1000), rng.choice(("a", "with space", "é", "-", "q\"uote")))
                    x = rng.random()
                    if x < 0.1:
                        n = "/".join(["dir%d" % rng.randrange(10) for _ in range(rng.choice((1, 3, 30)))] + [n])
                    if 0.1 <= x < 0.2:
                        n = rng.choice(("#", "//", ";", "%", "!", " ", "\t", "'", "~", "-", "..", "\\", "nan", "NULL", "\xef\xbb\xbf")) + n + rng.choice(("", "", " ", "\t", "#", ".bak"))
                    if x > 0.995:
                        n = "L" * 9000 + n
                    return n
                x = rng.random()
                if x < 0.7:
                    rows.append(path() + "," + path())
                elif x < 0.76:
                    rows.append(path() + "," + path() + "," + path())
                elif x < 0.82:
                    rows.append("")
                elif x < 0.86:
                    rows.append(path())
                elif x < 0.9:
                    rows.append("," + path())
                elif x < 0.93:
                    rows.append(path() + ",")
                elif x < 0.94:
                    rows.append(rng.choice(("reference,degraded", "  ", "\t", "#", "-----,-----", " , ")))
                elif x < 0.95:
                    rows.append(",")
                elif x < 0.97:
                    rows.append(path() + ",,")
                else:
                    rows.append(path() + "\r," + path())
            text = nl.join(rows) + (nl if rng.random() < 0.8 else "")
            mode = rng.choice(("plain", "benign", "benign", "io", "io", "open", "cut"))
            if mode == "cut":
                b = text.encode()
                text = b[:rng.randrange(len(b) + 1)].decode(errors="surrogateescape")
            raw = text.encode(errors="surrogateescape")
            ops.append(op("put", p=p, hex=raw.hex()))
            ops += read_faults(rng, p, mode)
            ops.append(op("batch", p=p))
            exp[p] = dict(mode=mode, hex=raw.hex())
        return dict(flavour="io", procs=[ops], exp=exp)

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p = res[0]
        have = set()
        err = p.err.decode(errors="replace")
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if name == "put":
                have.add(kv["p"])
            if name != "batch" or i not in p.r or "exc" in p.r[i] or kv["p"] not in have:
                continue
            e = scn["exp"][kv["p"]]
            want = pairs(bytes.fromhex(e["hex"]).decode(errors="surrogateescape"))
            got = [tuple(dec(y) for y in x.split(",")) for x in p.r[i].get("rows", "").split("\n") if x]
            ctx.note("lists " + e["mode"])
            ctx.note("rows", len(want))
            if e["mode"] in ("io", "open"):
                if got != want[:len(got)]:
                    v.append(("pairs", "%s: pairs that are not a prefix of the list after a failing read" % kv["p"]))
                if len(got) < len(want) and kv["p"] not in err:
                    v.append(("silent", "%s: %d of %d rows lost without a message" % (kv["p"], len(want) - len(got), len(want))))
            elif got != want:
                n = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                v.append(("pairs", "%s (%s): %d pairs instead of %d, first difference at row %d" % (kv["p"], e["mode"], len(got), len(want), n)))
        return v


class C17(Prop):
    id = "C17"
    quick_runs = 5000
    thorough_runs = 150000
    rule = ("a run is one process reading 1-3 generated training tables from a disk that splits, interrupts, fails or truncates "
            "reads; distinct by the operation list")

    def gen(self, rng, i, ctx):
        ops, exp = [], {}
        for k in range(rng.choice((1, 2, 3))):
            p = "/sim/t%d.txt" % k
            d = rng.choice((",", ",", ";", " ", "\t"))
            cols = rng.randrange(1, 34)
            rows = []
            for j in range(rng.choice((0, 1, 3, 10, 60))):
                x = rng.random()
                r = ["%s" % rng.choice((rng.uniform(-1, 5), rng.randrange(-5, 6), 0.0, 1e-300, 12345678.25, 1e22)) for _ in range(cols)]
                if x < 0.05:
                    r[rng.randrange(cols)] = rng.choice(("x", "1.0.0", "--", "0x", "1.5x", "2e", "", "3 4", "1;2", "#1"))
                elif x < 0.1:
                    r[rng.randrange(cols)] = rng.choice((" 2.5", "2.5 ", "+3", "1e400", "-1E+5", ".5", "5.", "-0", "inf", "1e-400"))
                if x > 0.97:
                    r = []
                rows.append(d.join(r))
            text = "\n".join(rows) + ("\n" if rng.random() < 0.8 else "")
            mode = rng.choice(("plain", "benign", "benign", "io", "io", "open", "cut"))
            if mode == "cut":
                text = text[:rng.randrange(len(text) + 1)]
            ops.append(op("put", p=p, text=text))
            ops += read_faults(rng, p, mode)
            ops.append(op("train_read", p=p, delim=d))
            exp[p] = dict(mode=mode, text=text, delim=d)
        return dict(flavour="io", procs=[ops], exp=exp)

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p = res[0]
        have = set()
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if name == "put":
                have.add(kv["p"])
            if name != "train_read" or i not in p.r or "exc" in p.r[i] or kv["p"] not in have:
                continue
            e = scn["exp"][kv["p"]]
            want = []
            for row in lines_of(e["text"]):
                vals = []
                for f in fields(row, e["delim"]):
                    try:
                        vals.append(float(f))
                    except ValueError:
                        pass
                want.append(vals)
            got = [[float(y) for y in x.split(",") if y] for x in p.r[i].get("rows", "").split(";")][:-1]
            ctx.note("tables " + e["mode"])
            if e["mode"] in ("io", "open"):
                if got != want[:len(got)]:
                    v.append(("values", "%s: rows that are not a prefix of the table after a failing read" % kv["p"]))
                if len(got) < len(want) and not p.err:
                    v.append(("silent", "%s: %d of %d rows lost without a message" % (kv["p"], len(want) - len(got), len(want))))
            elif got != want:
                n = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                v.append(("values", "%s (%s): %d rows instead of %d, first difference at row %d" % (kv["p"], e["mode"], len(got), len(want), n)))
        return v


PROPS = [C16(), C17()]
