"""tools/leaks.py ID RUN: where the blocks alive at the end of a run were allocated."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import core, build, props
p = props.ALL[sys.argv[1]]
for f in p.flavours:
    build.build(f)
c = core.Ctx(p.flavours)
scn = p.gen(core.rng_for(p, int(sys.argv[2])), int(sys.argv[2]), c)
scn["procs"][0][-1] = "endmem trace=1"
r = c.run(scn)[0]
print(r.mem)
for l in r.lines:
    if l.startswith("L"):
        print(core.dec(l) if hasattr(core, "dec") else l)
c.close()
