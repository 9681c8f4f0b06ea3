"""C05 loading WAV files from a failing disk; C06 reading them in pieces."""
from common import *


def rand_frames(rng, n):
    k = rng.random()
    if k < 0.15:
        return [rng.choice((-32768, 32767, 0, 1, -1)) for _ in range(n)]
    return [rng.randrange(-32768, 32768) for _ in range(n)]


def rand_wav(rng, nmax=4200):
    """(bytes, data offset, frames, channels, rate, declared bytes)"""
    ch = rng.choice((1, 1, 1, 2, 2, 3, 6))
    n = rng.choice((1, 2, 7, 64, 333, 1000, rng.randrange(1, nmax)))
    n = max(1, n // ch)
    fr = rand_frames(rng, n * ch)
    sr = rng.choice((8000, 16000, 44100, 48000, 1000, 1, 192000))
    kw = {}
    if rng.random() < 0.25:
        kw["ext"] = True
    elif rng.random() < 0.15:
        kw["extra"] = bytes(rng.randrange(256) for _ in range(rng.choice((0, 2, 10))))
    if rng.random() < 0.35:
        kw["chunks"] = [(rng.choice((b"LIST", b"JUNK", b"bext", b"cue ")),
                         bytes(rng.randrange(256) for _ in range(rng.randrange(0, 80))))
                        for _ in range(rng.choice((1, 1, 2, 4)))]
    if rng.random() < 0.3:
        kw["tail"] = b"LIST" + struct.pack("<I", 2 * rng.randrange(200)) + bytes(rng.randrange(256) for _ in range(rng.randrange(400)))
    if rng.random() < 0.2:
        kw["riffsize"] = rng.choice((0, 0xffffffff, 4, 36))
    decl = None
    x = rng.random()
    if x < 0.2:
        decl = rng.choice((len(fr) * 2 + 2 * rng.randrange(1, 5000), 0xfffffffe, 0x7ffffffe, 0x80000000, len(fr) * 2 + 2))
        kw["datasize"] = decl
    elif x < 0.3:
        decl = 2 * rng.randrange(1, len(fr) + 1)
        kw["datasize"] = decl
    b, head = wav_bytes(sr, ch, fr, **kw)
    return b, head, fr, ch, sr, (decl if decl is not None else len(fr) * 2)


def present(b, head, declared):
    """Samples of the data chunk that the file really holds."""
    n = min(declared, max(0, len(b) - head)) // 2
    return list(struct.unpack("<%dh" % n, b[head:head + 2 * n]))


class C05(Prop):
    id = "C05"
    flavours = ("io", "mem")
    quick_runs = 5000
    thorough_runs = 60000
    rule = ("a run is one process loading 2-6 generated WAV files (1-6 channels, extensible or plain headers, extra chunks, lying "
            "sizes) from a simulated disk that truncates, fails, interrupts and splits reads, or mutates header bytes; distinct by "
            "the operation list")

    def gen(self, rng, i, ctx):
        mem = rng.random() < 0.4
        ops, exp = [], {}
        for k in range(rng.randrange(2, 7)):
            p = "/sim/w%d.wav" % k
            b, head, fr, ch, sr, decl = rand_wav(rng)
            mode = rng.choice(("plain", "benign", "benign", "cut", "cut", "io", "io", "mutate", "earlyeof", "stream", "missing", "other"))
            kind = "exact"
            if mode == "cut":
                b = b[:rng.choice((rng.randrange(len(b) + 1), head + rng.randrange(max(1, len(b) - head)), head - 1, head,
                                   head + 1, head + 2))]
            if mode == "mutate":
                b = bytearray(b)
                for _ in range(rng.choice((1, 1, 2, 5))):
                    o = rng.randrange(min(len(b), head + 4))
                    b[o] = rng.choice((0, 255, 1, 0x7f, 0x80, rng.randrange(256)))
                b = bytes(b)
                kind = "hostile"
            if mode == "other":
                # a file of something else than 16-bit PCM
                b, kind = bytearray(b), "other"
                x = rng.randrange(5)
                if x < 2:
                    b[34:36] = struct.pack("<H", rng.choice((8, 24, 32, 0, 4, 64, 15)))
                elif x == 2:
                    b[20:22] = struct.pack("<H", rng.choice((0, 2, 3, 6, 7, 0x11, 0x55, 0xffff)))
                elif x == 3:
                    b[22:24] = b"\0\0"
                else:
                    o = rng.choice((0, 8, 12))
                    b[o:o + 4] = rng.choice((b"RIFX", b"AIFF", b"    ", b"\0\0\0\0"))
                b = bytes(b)
            if mode == "earlyeof":
                cut = rng.randrange(len(b) + 1)
                ops.append(op("fault", p=p, op="read", kind="eof", arg=cut, count=-1))
                b2 = b[:cut]
            else:
                b2 = b
            if mode == "missing":
                ops.append(op("put", p=p, hex=b.hex()))
                ops.append(op("fault", p=p, op="open", kind=rng.choice(("ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ENOMEM", "vanish"))))
                kind = "refused"
            else:
                ops.append(op("put", p=p, hex=b.hex()))
            if mode == "benign" or (mode in ("cut", "mutate") and rng.random() < 0.3):
                for _ in range(rng.choice((1, 2, 4))):
                    if rng.random() < 0.6:
                        ops.append(op("fault", p=p, op="read", kind="short", arg=rng.choice((1, 2, 3, 43, 44, 45, 511, 1000)),
                                      from_=rng.randrange(1, 6), count=rng.choice((1, 3, -1))))
                    else:
                        ops.append(op("fault", p=p, op="read", kind="EINTR", from_=rng.randrange(1, 6), count=rng.choice((1, 2, 5))))
            if mode == "io":
                kind = "io"
                if rng.random() < 0.5:
                    ops.append(op("fault", p=p, op="read", kind="short", arg=rng.choice((10, 44, 100, 512)), count=-1))
                ops.append(op("fault", p=p, op="read", kind="EIO", from_=rng.randrange(1, 9), count=rng.choice((1, -1))))
            if rng.random() < 0.1:
                ops.append(op("fault", p=p, op="seek", kind="EIO", count=-1))
            if mode == "stream":
                st = rng.choice((None, None, "fail", "bad"))
                ops.append(op("loadstream", hex=b.hex(), state=st, pos=rng.choice((None, None, 0, 5)), k=k))
                if st:
                    kind = "refused"
                key = "#%d" % k
            else:
                ops.append(op("load", p=p))
                if rng.random() < 0.15:
                    ops.append(op("load", p=p))
                key = p
            smp = present(b2, head, decl)
            bad_ch = len(smp) // ch == 0
            want = [] if (len(b2) < head or bad_ch) else mono(smp[:len(smp) // ch * ch], ch)
            exp[key] = dict(kind=kind, n=len(want), sr=sr, size=len(b), short=len(smp) * 2 < decl,
                            want=struct.pack("<%dd" % len(want), *want).hex())
        return heap(rng, dict(flavour="mem" if mem else "io", procs=[ops], exp=exp))

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p = res[0]
        have = set()
        err = p.err.decode(errors="replace")
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if name == "put":
                have.add(kv["p"])
            if name not in ("load", "loadstream") or i not in p.r or "exc" in p.r[i]:
                continue
            key = kv["p"] if name == "load" else "#" + kv.get("k", "")
            if name == "load" and key not in have:
                continue
            e = scn["exp"][key]
            r = p.r[i]
            want = list(struct.unpack("<%dd" % e["n"], bytes.fromhex(e["want"])))
            data = unpack_data(r) if "data" in r else []
            what = "%s (%s): " % (key, e["kind"])
            ctx.note("loads " + e["kind"])
            if scn["flavour"] == "mem":
                lim = 64 * e["size"] + (4 << 20)
                if int(r["peak"]) > lim:
                    v.append(("memory", what + "%s bytes allocated to load a file of %d" % (r["peak"], e["size"])))
            if "h" in r:
                v.append(("size", what + "more samples than the file could hold"))
                continue
            if e["kind"] == "hostile":
                if len(data) * 2 > e["size"]:
                    v.append(("invented", what + "%d samples from %d bytes" % (len(data), e["size"])))
                continue
            if e["kind"] == "other":
                if data:
                    v.append(("invented", what + "%d samples from a file that is not 16-bit PCM" % len(data)))
                elif not err:
                    v.append(("silent", what + "not loaded and nothing said"))
                continue
            if data and int(r["sr"]) != e["sr"]:
                v.append(("rate", what + "sample rate %s, the file says %d" % (r["sr"], e["sr"])))
            if e["kind"] == "refused":
                # a faulted open may be retried; the data must then be right
                if data and not close(data, want):
                    v.append(("data", what + "wrong samples"))
                if not data and not err:
                    v.append(("silent", what + "not loaded and nothing said"))
            elif e["kind"] == "io":
                if not close(data, want[:len(data)]):
                    v.append(("data", what + "samples that are not in the file after a read error"))
                if len(data) < len(want) and not err:
                    v.append(("silent", what + "lost samples without a message"))
            else:
                if not close(data, want):
                    n = next((j for j, (a, b) in enumerate(zip(data, want)) if abs(a - b) > 1e-12), min(len(data), len(want)))
                    v.append(("data", what + "%d samples instead of %d, first difference at %d" % (len(data), len(want), n)))
                if e["short"] and not err:
                    v.append(("silent", what + "a shortened file without a message"))
        return v


class C06(Prop):
    id = "C06"
    quick_runs = 6000
    thorough_runs = 100000
    rule = ("a run is one process with 1-3 readers over byte streams that refill in random pieces, end early, fail or cannot seek, "
            "each read in a random sequence of requests (0, 1, odd, whole, too many), interleaved; distinct by the operation list")

    def gen(self, rng, i, ctx):
        ops, exp, pauses = [], {}, {}
        ids = []
        for k in range(rng.choice((1, 1, 2, 3))):
            b, head, fr, ch, sr, decl = rand_wav(rng, 1500)
            kw = dict(chunk=rng.choice((1, 2, 3, 7, 64, 512, 4096)))
            n = present(b, head, decl)
            kind = "exact"
            mode = rng.choice(("plain", "plain", "cut", "fail", "noseek", "pause"))
            if mode == "cut":
                b = b[:rng.randrange(len(b) + 1)]
                n = present(b, head, decl)
            elif mode == "fail":
                kw["failat"] = rng.randrange(len(b) + 1)
                kw["failkind"] = rng.choice(("throw", "eof"))
                kind = "fail"
            elif mode == "noseek":
                kw["noseek"] = 1
                kind = "noseek"
            elif mode == "pause" and len(n) > 1:
                kind = "pause"
                at = sorted({rng.randrange(0, len(n)) for _ in range(rng.choice((1, 1, 2, 5)))})
                kw["pauses"] = ",".join(str(head + 2 * x) for x in at)
                pauses[str(k)] = at
            ops.append(op("reader_new", id=k, hex=b.hex(), **kw))
            exp[str(k)] = dict(kind=kind, sr=sr, ch=ch, decl=decl, head=head, size=len(b), fail=kw.get("failat", -1), pauses=pauses.get(str(k), []),
                               want=struct.pack("<%dh" % len(n), *n).hex())
            ids.append(k)
        total = {k: len(exp[str(k)]["want"]) // 4 for k in ids}
        for _ in range(rng.randrange(3, 25)):
            k = rng.choice(ids)
            n = rng.choice((0, 1, 2, 3, 17, 100, 511, 512, 1024, total[k], max(0, total[k] - 1), total[k] + 1, 5000,
                            rng.randrange(0, 700)))
            ops.append(op("reader_read", id=k, n=n, clear=1 if str(k) in pauses else None))
        for k in ids:
            if str(k) in pauses:
                ops += [op("reader_read", id=k, n=total[k] + 64, clear=1)] * (len(pauses[str(k)]) + 1)
            elif rng.random() < 0.8:
                ops.append(op("reader_read", id=k, n=total[k] + 64))
            ops.append(op("reader_read", id=k, n=9))
        return dict(flavour="io", procs=[ops], exp=exp)

    def judge(self, scn, res, ctx):
        v = ended_badly(res) + escaped(res[0])
        p = res[0]
        pos, new, broken = {}, {}, set()
        for i, l in enumerate(scn["procs"][0]):
            name, kv = parse(l)
            if i not in p.r or "exc" in p.r[i]:
                continue
            r = p.r[i]
            k = kv.get("id")
            e = scn["exp"][k]
            want = bytes.fromhex(e["want"])
            if name == "reader_new":
                pos[k], new[k] = 0, r
                whole = e["kind"] == "exact" and e["size"] >= e["head"]
                if whole and r["valid"] != "1":
                    v.append(("header", "reader %s: a good header was refused" % k))
                if e["kind"] == "exact" and e["size"] < e["head"] and r["valid"] == "1":
                    v.append(("header", "reader %s: a header that is cut short was accepted" % k))
                if r["valid"] == "1":
                    if int(r["ch"]) != e["ch"] or int(r["sr"]) != e["sr"]:
                        v.append(("header", "reader %s: %s channels at %s" % (k, r["ch"], r["sr"])))
                    if e["kind"] == "exact" and int(r["total"]) != len(want) // 2:
                        v.append(("total", "reader %s: %s samples announced, %d present" % (k, r["total"], len(want) // 2)))
            elif name == "reader_read" and k in new:
                got, n = int(r["got"]), int(kv["n"])
                ctx.note("reads")
                if r["guard"] != "1":
                    v.append(("overrun", "reader %s: wrote past the %d samples asked for" % (k, n)))
                if got > n:
                    v.append(("overrun", "reader %s: returned %d of %d" % (k, got, n)))
                    continue
                if new[k]["valid"] != "1":
                    if got:
                        v.append(("header", "reader %s: %d samples although its header is invalid" % (k, got)))
                    continue
                d = bytes.fromhex(r["data"])[:2 * got]
                if d != want[pos[k]:pos[k] + 2 * got] or len(d) != 2 * got:
                    v.append(("data", "reader %s: samples %d..%d are not those of the data chunk" % (k, pos[k] // 2, pos[k] // 2 + got)))
                left = len(want) // 2 - pos[k] // 2
                if e["kind"] == "pause":
                    # the stream has nothing for now at these samples, once each
                    at = [x for x in e["pauses"] if x >= pos[k] // 2 and (k, x) not in broken]
                    stop = min(at[:1] + [1 << 40]) - pos[k] // 2
                    if got < min(n, left, stop):
                        v.append(("count", "reader %s: %d samples for a request of %d with %d left and %d at hand" % (k, got, n, left, stop)))
                    if n > got:
                        broken.add((k, pos[k] // 2 + got))
                if e["kind"] == "exact" and got != min(n, left):
                    v.append(("count", "reader %s: %d samples for a request of %d with %d left" % (k, got, n, left)))
                if e["kind"] == "fail" and e["fail"] >= e["head"]:
                    ok = max(0, min(len(want) // 2, (e["fail"] - e["head"]) // 2) - pos[k] // 2)
                    if n <= ok and got != n and k not in broken:
                        v.append(("count", "reader %s: %d of %d samples although the stream fails later" % (k, got, n)))
                pos[k] += 2 * got
                if got < n:
                    broken.add(k)
        return v


PROPS = [C05(), C06()]
