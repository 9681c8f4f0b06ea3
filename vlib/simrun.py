"""Talks to the simulation server (sim/harness.cc)."""
import hashlib, os, signal, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
MODEL = os.path.join(REPO, "model")
SVM = os.path.join(MODEL, "libsvm_nu_svr_model.txt")
SVM2 = os.path.join(MODEL, "tcdaudio_aacvopus_coresv_grid_nu0.3_c126.237786175_g0.204475514639.model")
LATTICE = os.path.join(
    MODEL, "lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite")


class HarnessError(Exception):
    """The machinery, not the code under test, failed."""


def enc(s):
    if isinstance(s, str):
        s = s.encode()
    return "".join("%%%02x" % c if c <= 32 or c == 37 or c >= 127 else chr(c) for c in s)


def dec(s):
    out = bytearray()
    b = s.encode()
    i = 0
    while i < len(b):
        if b[i] == 37 and i + 2 < len(b):
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out.decode(errors="surrogateescape")


def op(name, **kv):
    """One line of the operation language."""
    return name + "".join(" %s=%s" % (k.rstrip("_"), enc(str(v) if not isinstance(v, bytes) else v))
                          for k, v in kv.items() if v is not None)


def parse(line):
    """(name, {k: v}) of an op or result line."""
    t = line.split(" ")
    d = {}
    for x in t[1:]:
        if x:
            k, _, v = x.partition("=")
            d[k] = dec(v) if _ else "1"
    return t[0], d


class Proc:
    """What one simulated process did."""

    def __init__(self):
        self.status = None
        self.r = {}        # op index -> {k: v}
        self.fired = {}
        self.probes = {}
        self.hash = ""
        self.ops = 0
        self.escapes = 0
        self.trace = []
        self.mem = None
        self.end = None    # "done" or "simcrash"
        self.out = b""
        self.err = b""
        self.extra = []
        self.lines = []

    @property
    def exited(self):
        return self.status == "exit:0" and self.end == "done"

    @property
    def crashed(self):          # simulated power cut
        return self.end == "simcrash"

    def died(self):
        """None, or how the program under test died of its own accord."""
        if self.exited or self.crashed:
            return None
        e = self.err.decode(errors="replace")
        why = ""
        for l in e.splitlines():
            if "ERROR: AddressSanitizer" in l or "terminate called" in l or "what():" in l or "runtime error" in l:
                why += " " + l.strip()
        last = max(self.r) if self.r else -1
        return "%s after op %d%s" % (self.status, last, why[:300])

    def digest(self):
        h = hashlib.sha256()
        for l in self.lines:
            h.update(l.encode())
            h.update(b"\n")
        h.update(self.out)
        if self.exited or self.crashed:
            h.update(self.err)
        return h.hexdigest()


class Harness:
    def __init__(self, binary, preload=()):
        self.binary = binary
        self.preload = list(preload)
        self.p = None
        self.runs = 0
        self.procs = 0

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:"
                               "handle_segv=1:handle_abort=0:print_summary=1:symbolize=0:"
                               "max_allocation_size_mb=3000:detect_stack_use_after_return=0")
        env["TSAN_OPTIONS"] = "report_bugs=0"
        env["LC_ALL"] = "C"
        env["MALLOC_ARENA_MAX"] = "1"
        self.p = subprocess.Popen([self.binary] + self.preload, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/")

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def run(self, procs, trace=False, cpu=60):
        """procs: list of lists of op lines.  Returns a list of Proc."""
        if self.p is None:
            self.start()
        msg = ["BEGIN"]
        if trace:
            msg.append("trace")
        msg.append("cpu %d" % cpu)
        for ops in procs:
            msg.append("proc")
            msg += ops
        msg.append("END")
        try:
            self.p.stdin.write(("\n".join(msg) + "\n").encode())
            self.p.stdin.flush()
            out = []
            cur = None
            while True:
                l = self.p.stdout.readline()
                if not l:
                    raise HarnessError("simulation server died")
                l = l.decode().rstrip("\n")
                if l == "END":
                    break
                tag, _, rest = l.partition(" ")
                if tag == "PROC":
                    cur = Proc()
                    out.append(cur)
                    cur.status = rest.split(" ", 1)[1]
                    cur.lines.append(l)
                elif tag == "R":
                    i, _, kv = rest.partition(" ")
                    cur.r[int(i)] = parse("R " + kv)[1]
                    cur.lines.append(l)
                elif tag == "F":
                    k, n = rest.split(" ")
                    cur.fired[dec(k)] = int(n)
                elif tag == "P":
                    k, n = rest.split(" ")
                    cur.probes[dec(k)] = int(n)
                elif tag == "H":
                    h, n, e = rest.split(" ")
                    cur.hash, cur.ops, cur.escapes = h, int(n), int(e)
                    cur.lines.append(l)
                elif tag == "T":
                    cur.trace.append(rest)
                elif tag == "M":
                    cur.mem = parse("M " + rest)[1]
                    cur.lines.append(l)
                elif tag == "X":
                    cur.end = rest
                    cur.lines.append(l)
                elif tag == "STDOUT":
                    cur.out = bytes.fromhex(rest)
                elif tag == "STDERR":
                    cur.err = bytes.fromhex(rest)
                else:
                    cur.extra.append(l)
                    cur.lines.append(l)
        except (BrokenPipeError, ValueError) as e:
            self.stop()
            raise HarnessError("simulation server: %s" % e)
        self.runs += 1
        self.procs += len(out)
        for p in out:
            if p.status in ("exit:95", "exit:96", "exit:97", "exit:98"):
                raise HarnessError("simulation server internal error " + p.status)
        return out


def digest(procs):
    return hashlib.sha256("|".join(p.digest() for p in procs).encode()).hexdigest()
