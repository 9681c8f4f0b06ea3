"""Ingredients shared by the generators: signals, files, sessions, oracles."""
import random, struct

from core import *

M_SVM = "/sim/model/svm.txt"
M_SV2 = "/sim/model/svm2.txt"
M_LAT = "/sim/model/lattice.tflite"
MODELS = {M_SVM: op("host", p=M_SVM, from_=SVM), M_LAT: op("host", p=M_LAT, from_=LATTICE),
          M_SV2: op("host", p=M_SV2, from_=SVM2)}

# ---------------------------------------------------------------- signals
REFSIG = ["k:mix;s:11;n:1300;r:1000;q:1", "k:bursts;s:12;n:1500;r:1000;q:1", "k:mix;s:13;n:1650;r:1000;q:1",
          "k:noise;s:14;n:1250;r:1000;q:1"]
DEG = ["", ";dn:0.1;ds:3", ";dn:0.5;ds:4", ";dl:37;dn:0.05", ";dl:-50;dg:0.5", ";dc:0.4", ";dz1:0.3;dz2:0.45", ";dg:0.2;dn:0.02",
       ";dt:1200;dn:0.1", ";dl:300", ";dg:3;dn:0.3", ";dt:650", ";dt:980;dn:0.05"]
BADSIG = ["k:mix;s:5;n:100;r:1000;q:1", "k:mix;s:5;n:0", "k:mix;s:5;n:1", "k:mix;s:6;n:400;r:1000;q:1",
          "k:silence;n:1300", "k:mix;s:5;n:79;r:1000",
          # accepted, and as far from speech as samples can be
          "k:nan;n:1300", "k:noise;s:3;n:1300;dg:1e200", "k:noise;s:3;n:1300;dg:inf", "k:noise;s:3;n:1300;dg:1e-200", "k:const;n:1300", "k:impulse;s:9;n:1300"]

# Long enough for the search window to matter: parts have moved far.
LONGSIG = ["k:mix;s:21;n:4200;r:1000;q:1", "k:bursts;s:22;n:3600;r:1000;q:1"]
LONGDEG = [";dw:1500;dn:0.05", ";dw:2600", ";dw:700;dn:0.1;ds:5"]

# ---------------------------------------------------------------- files
FILES = {}
for i, r in enumerate(LONGSIG):
    FILES["/sim/in/l%d.wav" % i] = dict(sig=r, sr=1000)
    for j, d in enumerate(LONGDEG):
        FILES["/sim/in/m%d_%d.wav" % (i, j)] = dict(sig=r + d, sr=1000)
for i, r in enumerate(REFSIG):
    FILES["/sim/in/r%d.wav" % i] = dict(sig=r, sr=1000)
    for j, d in enumerate(DEG):
        FILES["/sim/in/d%d_%d.wav" % (i, j)] = dict(sig=r + d, sr=1000)
FILES["/sim/in/stereo.wav"] = dict(sig=REFSIG[0], sr=1000, ch=2)
FILES["/sim/in/stereo_d.wav"] = dict(sig=REFSIG[0] + DEG[1], sr=1000, ch=2)
FILES["/sim/in/ext.wav"] = dict(sig=REFSIG[1] + DEG[2], sr=1000, ext=1)
FILES["/sim/in/list.wav"] = dict(sig=REFSIG[1], sr=1000, list=26)
FILES["/sim/in/with space.wav"] = dict(sig=REFSIG[2] + DEG[1], sr=1000)
FILES["/sim/in/tail.wav"] = dict(sig=REFSIG[0] + DEG[3], sr=1000, tail=700)
FILES["/sim/in/longdecl.wav"] = dict(sig=REFSIG[0] + DEG[5], sr=1000, datasize=900000)
# Nothing of the reference's activity is left in the degraded signal.
FILES["/sim/in/lost.wav"] = dict(sig=LONGSIG[0] + ";dz1:0;dz2:0.6", sr=1000)
FILES["/sim/in/lost_d.wav"] = dict(sig=LONGSIG[0] + ";dt:900", sr=1000)
# A short reference far into a long degraded signal: which window finds it.
FARSIG = ["k:mix;s:41;n:520;r:400;q:1", "k:mix;s:42;n:390;r:400;q:1"]
FARLAG = [14, 20, 23.7, 35.6]
for i, r in enumerate(FARSIG):
    FILES["/sim/in/f%d.wav" % i] = dict(sig=r, sr=400)
    for j, d in enumerate(FARLAG):
        FILES["/sim/in/g%d_%d.wav" % (i, j)] = dict(sig=r + ";dl:%d" % (d * 400), sr=400)
# The rates people use.
for r in (2000, 8000, 16000, 48000):
    FILES["/sim/in/q%d.wav" % r] = dict(sig="k:mix;s:31;n:%d;r:%d;q:1" % (r * 0.97, r), sr=r)
    FILES["/sim/in/p%d.wav" % r] = dict(sig="k:mix;s:31;n:%d;r:%d;q:1;dn:0.1;dl:%d" % (r * 0.97, r, r // 40), sr=r)
    FILES["/sim/in/qs%d.wav" % r] = dict(sig="k:mix;s:32;n:%d;r:%d;q:1" % (r * 0.7, r), sr=r)
    FILES["/sim/in/ps%d.wav" % r] = dict(sig="k:mix;s:32;n:%d;r:%d;q:1;dn:0.2" % (r * 0.7, r), sr=r)
GOOD = sorted(p for p in FILES if not re.match(r"/sim/in/([lmfg][01]|[pq]s?\d+)", p))
BAD = []


def bad(name, **kv):
    FILES["/sim/in/" + name] = kv
    BAD.append("/sim/in/" + name)


bad("short.wav", sig=BADSIG[0], sr=1000)
bad("short2.wav", sig=BADSIG[3], sr=1000)
bad("one.wav", sig=BADSIG[2], sr=1000)
bad("rate.wav", sig="k:mix;s:11;n:2600;r:2000;q:1", sr=2000)
bad("rate1.wav", sig="k:mix;s:11;n:1300;r:1000;q:1", sr=1001)
bad("empty.wav", text="")
bad("text.wav", text="this is not a wave file, it is only text that goes on for a while\n")
bad("head.wav", sig=REFSIG[0], sr=1000, trunc=30)
bad("justhead.wav", sig=REFSIG[0], sr=1000, trunc=44)
bad("bits8.wav", sig=REFSIG[0], sr=1000, bits=8)
bad("fmt3.wav", sig=REFSIG[0], sr=1000, fmt=3)
bad("nochan.wav", sig=REFSIG[0], sr=1000, chdecl=0)
bad("nodata.wav", sig="k:mix;n:0", sr=1000)
bad("rate0.wav", sig=REFSIG[0], sr=0)
bad("hugefmt.wav", hex="524946460000000057415645666d7420ffffffff0100010000000000000000000200100064617461ffffffff")
bad("trunc.wav", sig=REFSIG[0], sr=1000, trunc=1245)
MISSING = ["/sim/in/missing.wav", "/sim/nowhere/x.wav", "/sim/in"]


def file_op(path):
    kv = dict(FILES[path])
    if "sig" in kv:
        return op("wav", p=path, **kv)
    return op("put", p=path, **kv)


def setup_lines(lines, extra=()):
    """Operations that create every pool file the given lines mention."""
    out = [op("dir", p="/sim/in")]
    done = set()
    for l in list(lines) + list(extra):
        name, kv = parse(l)
        if name in ("put", "wav", "host", "dir"):
            continue
        words = list(kv.values())
        for v in words:
            for w in v.replace("--", "=").split("="):
                if w in MODELS and w not in done:
                    done.add(w)
                    out.append(MODELS[w])
                if w in FILES and w not in done:
                    done.add(w)
                    out.append(file_op(w))
    return out


# ---------------------------------------------------------------- sessions
def configs():
    """Good manager configurations."""
    return [dict(m=M_SVM, win=10), dict(m=M_SVM, win=1, nogal=1), dict(m=M_SVM, win=10, noreal=1),
            dict(m=M_SVM, win=60), dict(m=M_SVM, win=5, nogal=1, noreal=1),
            dict(m=M_SVM, speech=1, win=10), dict(m=M_SVM, speech=1, unscaled=1, win=10),
            dict(m=M_SVM, speech=1, win=2, noreal=1), dict(m=M_LAT, speech=1, lattice=1, win=10),
            dict(m=M_LAT, speech=1, lattice=1, win=1, nogal=1, sv=1), dict(m=M_SVM, lattice=1, win=8),
            dict(m=M_SVM, speech=1, win=0), dict(m=M_SVM, win=-1), dict(m=M_SV2, win=10, sv=1), dict(m=M_SV2, win=3, noreal=1)]


CONFIGS = configs()
APIS = [dict(m=M_SVM, sr=1000, win=10), dict(m=M_SVM, sr=1000, win=1), dict(m=M_SVM, sr=1000, speech=1, win=10),
        dict(m=M_SVM, sr=1000, speech=1, unscaled=1, win=2), dict(m=M_LAT, sr=1000, speech=1, lattice=1, win=10),
        dict(m=M_SVM, sr=2000, win=10), dict(m=M_SVM, sr=1000, lattice=1, win=7),
        dict(m=M_SV2, sr=1000, win=10)]


def pick_pair(rng, p_bad=0.2):
    """Paths of a pair of files."""
    def one():
        x = rng.random()
        if x < p_bad * 0.7:
            return rng.choice(BAD)
        if x < p_bad:
            return rng.choice(MISSING)
        return rng.choice(GOOD)
    if p_bad and rng.random() < 0.04:
        return "/sim/in/lost.wav", "/sim/in/lost_d.wav"
    if rng.random() < 0.03:
        r = rng.choice((2000,) * 6 + (8000,) * 3 + (16000,))
        return "/sim/in/qs%d.wav" % r, "/sim/in/ps%d.wav" % r
    if rng.random() < 0.02:
        i = rng.randrange(len(FARSIG))
        return "/sim/in/f%d.wav" % i, "/sim/in/g%d_%d.wav" % (i, rng.randrange(len(FARLAG)))
    if rng.random() < 0.08:
        i = rng.randrange(len(LONGSIG))
        return "/sim/in/l%d.wav" % i, "/sim/in/m%d_%d.wav" % (i, rng.randrange(len(LONGDEG)))
    if rng.random() < 0.75:
        i = rng.randrange(len(REFSIG))
        a, b = "/sim/in/r%d.wav" % i, "/sim/in/d%d_%d.wav" % (i, rng.randrange(len(DEG)))
        if rng.random() < p_bad:
            if rng.random() < 0.5:
                a = one() if rng.random() < 0.3 else rng.choice(BAD + MISSING)
            else:
                b = one() if rng.random() < 0.3 else rng.choice(BAD + MISSING)
        return a, b
    return one(), one()


def pick_sigs(rng, p_bad=0.15):
    if rng.random() < 0.08:
        a = rng.choice(LONGSIG)
        return a, a + rng.choice(LONGDEG)
    i = rng.randrange(len(REFSIG))
    a, b = REFSIG[i], REFSIG[i] + rng.choice(DEG)
    if rng.random() < p_bad:
        if rng.random() < 0.5:
            a = rng.choice(BADSIG)
        else:
            b = rng.choice(BADSIG)
    return a, b


UNUSABLE = ["/sim/in/%s.wav" % n for n in ("empty", "text", "head", "justhead", "bits8", "fmt3", "nochan", "nodata", "hugefmt")] + MISSING
_GRID = {}
for i, r in enumerate(REFSIG):
    for j, d in enumerate(DEG):
        _GRID[r, r + d] = _GRID["/sim/in/r%d.wav" % i, "/sim/in/d%d_%d.wav" % (i, j)] = 1000


def due(kv, conf):
    """Whether comparing this pair must give a result (1), an error (0), or may do either (None)."""
    a, b = kv.get("ref"), kv.get("deg")
    if a in UNUSABLE or b in UNUSABLE:
        return 0
    if a in FILES and b in FILES and "sig" in FILES[a] and "sig" in FILES[b] and FILES[a]["sr"] != FILES[b]["sr"]:
        return 0
    win = conf.get("win")
    # An API window of 0 is the default.
    if (a, b) in _GRID and "srd" not in kv and conf.get("sr", "1000") == "1000" and (win is None or int(win) >= 1):
        return 1
    return None


def strip(r, *keys):
    return {k: v for k, v in r.items() if k not in keys}


def same(a, b, *ignore):
    return strip(a, *ignore) == strip(b, *ignore)


def brief(r):
    return " ".join("%s=%s" % (k, v[:90]) for k, v in sorted((r or {}).items()) if k not in ("data", "hex", "rows"))[:300]


def ended_badly(res, ctx=None):
    """Violations every property shares: the process died of its own accord."""
    out = []
    for i, p in enumerate(res):
        d = p.died()
        if d:
            out.append(("died", "process %d: %s" % (i, d)))
    return out


def escaped(p):
    return [("exception", "operation %d let an exception out: %s" % (i, brief(r))) for i, r in p.r.items()
            if "exc" in r]


def err_lines(p):
    return p.err.decode(errors="replace").splitlines()


# ---------------------------------------------------------------- WAV model
def wav_bytes(sr, ch, frames, ext=False, chunks=(), tail=b"", datasize=None, riffsize=None, fmt=None, bits=16, extra=None):
    """A RIFF file.  frames: interleaved int16 values."""
    pcm = struct.pack("<%dh" % len(frames), *frames)
    out = b"WAVE"
    tag = fmt if fmt is not None else (0xfffe if ext else 1)
    body = struct.pack("<HHIIHH", tag, ch, sr & 0xffffffff, (sr * ch * 2) & 0xffffffff, (ch * 2) & 0xffff, bits)
    if ext or extra is not None:
        e = extra if extra is not None else b"\1" * 22
        body += struct.pack("<H", len(e)) + e
    out += b"fmt " + struct.pack("<I", len(body)) + body
    if tag == 0xfffe:
        out += b"fact" + struct.pack("<I", 4) + struct.pack("<I", len(frames) // max(1, ch))
    for cid, data in chunks:
        out += cid + struct.pack("<I", len(data)) + data + b"\0" * (len(data) % 2)
    out += b"data" + struct.pack("<I", len(pcm) if datasize is None else datasize)
    head = len(out) + 8
    out += pcm + tail
    return b"RIFF" + struct.pack("<I", len(out) if riffsize is None else riffsize) + out, head


def mono(frames, ch):
    n = len(frames) // ch
    if ch == 1:
        return [f / 32768.0 for f in frames[:n]]
    out = []
    for i in range(n):
        t = 0.0
        for c in range(ch):
            t += frames[i * ch + c] / 32768.0
        out.append(t / ch)
    return out


def unpack_data(r):
    h = r.get("data", "")
    return list(struct.unpack("<%dd" % (len(h) // 16), bytes.fromhex(h)))


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-12 for x, y in zip(a, b))


def heap(rng, scn):
    """In most runs the heap hands out old contents and addresses of its own choosing."""
    if scn["flavour"] == "mem" and rng.random() < 0.7:
        for ops in scn["procs"]:
            ops.insert(0, op("fill", seed=rng.choice((0, 1, 2, rng.randrange(3, 1 << 30))), reuse=rng.choice((0, 1, 2))))
    return scn
