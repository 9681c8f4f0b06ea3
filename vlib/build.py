"""Builds the simulator binaries from /repo's current working tree.

Every object is cached in /verif/build under the hash of its command line, its
source and every header it could include, so a check that runs in a fresh copy
builds everything and a second run builds only what changed.
"""
import concurrent.futures, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
STUBS = os.path.join(SIM, "stubs")
JOBS = max(1, min(8, os.cpu_count() or 1))


class BuildError(Exception):
    pass


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))


def absl_libs():
    mods = ("absl_base absl_raw_logging_internal absl_flags absl_flags_parse absl_flags_usage "
            "absl_flags_internal absl_status absl_statusor absl_strings absl_synchronization "
            "absl_bad_optional_access absl_throw_delegate").split()
    out = subprocess.run(["pkg-config", "--libs"] + mods, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().split()
    if not out:
        names = [os.path.basename(p)[3:-3] for p in glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so")]
        out = ["-l" + n for n in sorted(names)]
    return out


COMMON_INC = None


def includes(gen):
    svm = "/usr/include/libsvm" if os.path.exists("/usr/include/libsvm/svm.h") else "/usr/include"
    return ["-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src/svr_training"),
            "-I" + REPO, "-I" + gen, "-I" + svm, "-I" + STUBS, "-I" + SIM]


BASE = ["-std=c++17", "-DARMA_DONT_USE_WRAPPER", "-DNDEBUG", "-DVISQOL_SIM", "-w", "-g1", "-fno-omit-frame-pointer"]

# flavour: compiler, flags for everything, extra flags for code under test, link flags
FLAVOURS = {
    "io": dict(cxx="clang++", flags=["-O1", "-fsanitize=address", "-fsanitize-address-use-after-return=never"],
               under=[], link=["-fsanitize=address", "-rdynamic"],
               sim=["simfs.cc", "harness.cc", "setup.cc", "memprobe_none.cc"], ops=["ops.cc"]),
    "mem": dict(cxx="clang++", flags=["-O1"], under=[], rename={"malloc": "sim_malloc"}, link=["-rdynamic"],
                sim=["simfs.cc", "harness.cc", "setup.cc", "memprobe.cc"], ops=["ops.cc"]),
    "mt": dict(cxx="clang++", flags=["-O2"], under=["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], link=["-rdynamic"],
               rename={f: "sim_" + f for f in ("svm_load_model strtok localtime gmtime ctime asctime setlocale setenv getenv memcpy memmove memset "
                                               "strcpy strncpy snprintf sprintf").split()},
               sim=["simfs.cc", "harness.cc", "setup.cc", "sched.cc", "memprobe_none.cc"], ops=["ops.cc", "shared_ops.cc"]),
    "plain": dict(cxx="g++", flags=["-O2"], under=[], link=[], sim=[]),
}


def gen_protos(gen):
    protos = sorted(glob.glob(os.path.join(REPO, "src/proto/*.proto")))
    stamp = os.path.join(gen, "stamp")
    key = _hash_files(protos)
    outs = [os.path.join(gen, "src/proto", os.path.basename(p)[:-6] + ".pb.cc") for p in protos]
    if not (os.path.exists(stamp) and open(stamp).read() == key and all(map(os.path.exists, outs))):
        os.makedirs(gen, exist_ok=True)
        _run(["protoc", "--cpp_out=" + gen, "-I" + REPO] + protos)
        with open(stamp, "w") as f:
            f.write(key)
    return outs


def repo_sources():
    srcs = sorted(glob.glob(os.path.join(REPO, "src/*.cc")) + glob.glob(os.path.join(REPO, "src/svr_training/*.cc")))
    return srcs


def build(flavour, extra_sources=(), extra_flags=(), name=None, main_as="visqol_main"):
    """Returns the path of the flavour's simulator binary."""
    fl = FLAVOURS[flavour]
    os.makedirs(BUILD, exist_ok=True)
    gen = os.path.join(BUILD, "gen")
    pbs = gen_protos(gen)
    headers = []
    for root in (os.path.join(REPO, "src"), SIM, gen):
        for d, _, fs in os.walk(root):
            headers += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".inc", ".ipp"))]
    hh = _hash_files(headers)
    inc = includes(gen)
    jobs = []
    for s in repo_sources():
        fl_extra = list(fl["under"])
        if os.path.basename(s) == "main.cc":
            fl_extra.append("-Dmain=" + main_as)
        jobs.append((s, fl_extra))
    for s in pbs:
        jobs.append((s, list(fl["under"])))
    for s in sorted(glob.glob(os.path.join(STUBS, "*.cc"))):
        jobs.append((s, list(fl["under"])))
    for s in fl.get("ops", []):
        jobs.append((os.path.join(SIM, s), list(fl["under"]) + ["-DSIM_FLAVOUR_" + flavour.upper()]))
    for s in fl["sim"]:
        jobs.append((os.path.join(SIM, s), ["-DSIM_FLAVOUR_" + flavour.upper()]))
    for s in extra_sources:
        jobs.append((s, []))
    objdir = os.path.join(BUILD, "obj-" + flavour)
    os.makedirs(objdir, exist_ok=True)

    def comp(job):
        src, extra = job
        cmd = [fl["cxx"]] + BASE + fl["flags"] + extra + list(extra_flags) + inc + ["-c", src]
        key = hashlib.sha256((" ".join(cmd) + repr(fl.get("rename")) + hh + _hash_files([src])).encode()).hexdigest()[:24]
        obj = os.path.join(objdir, os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d" % os.getpid()
            _run(cmd + ["-o", tmp])
            if fl.get("rename") and os.path.dirname(src) != SIM:
                _run(["objcopy"] + ["--redefine-sym=%s=%s" % x for x in sorted(fl["rename"].items())] + [tmp])
            os.rename(tmp, obj)
        return obj

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        # biggest files first
        order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
        futs = {i: ex.submit(comp, jobs[i]) for i in order}
        objs = [futs[i].result() for i in range(len(jobs))]
    out = os.path.join(BUILD, "sim-" + (name or flavour))
    link = [fl["cxx"]] + fl["flags"] + fl["link"] + objs + absl_libs() + ["-lprotobuf", "-lsvm", "-lpthread", "-ldl"]
    if name and name.startswith("test"):
        link += ["-lgmock", "-lgtest", "-lgtest_main"]
    key = hashlib.sha256(" ".join(link).encode()).hexdigest()
    stamp = out + ".key"
    if not (os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key):
        tmp = out + ".tmp%d" % os.getpid()
        _run(link + ["-o", tmp])
        os.rename(tmp, out)
        with open(stamp, "w") as f:
            f.write(key)
    # Drop objects of earlier trees.
    keep = set(objs)
    for o in glob.glob(os.path.join(objdir, "*.o")):
        if o not in keep and not name:
            try:
                os.unlink(o)
            except OSError:
                pass
    return out


if __name__ == "__main__":
    for f in sys.argv[1:]:
        print(build(f))
