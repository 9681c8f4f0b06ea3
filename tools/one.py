"""tools/one.py ID RUN [show]: generate and judge one run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, build, props
p = props.ALL[sys.argv[1]]
for f in p.flavours:
    build.build(f)
c = core.Ctx(p.flavours)
i = int(sys.argv[2])
scn = p.gen(core.rng_for(p, i), i, c)
print("flavour", scn["flavour"])
res = c.run(scn, trace=True)
for n, (ops, r) in enumerate(zip(scn["procs"], res)):
    print("-- proc", n, r.status, r.end)
    for j, l in enumerate(ops):
        print("%3d %s" % (j, l[:200]))
        if j in r.r:
            print("      ->", core.enc(" ".join("%s=%s" % (k, v[:60]) for k, v in r.r[j].items())).replace("%20", " "))
    print(r.err.decode(errors="replace")[-1500:])
    if len(sys.argv) > 3:
        print("\n".join(r.trace))
print("judge:", p.judge(scn, res, c))
a, b = c.run(scn), c.run(scn)
print("repeat:", core.digest(a) == core.digest(b))
if "d" in sys.argv:
    for x, y in zip(a, b):
        for l, m in zip(x.lines, y.lines):
            if l != m:
                print(l[:600]); print(m[:600])
c.close()
