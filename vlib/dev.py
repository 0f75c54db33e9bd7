"""developer helper: python3 -m vlib.dev CHECK HARNESS [seconds] : build and run one symx harness with engine statistics"""
import importlib.util, sys, os, tempfile, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, symx
spec = importlib.util.spec_from_file_location("chk", os.path.join(core.VERIF, "checks", sys.argv[1] + ".py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
h = [x for x in m.H if x.name == sys.argv[2]][0]
wd = "/tmp/dev"; os.makedirs(wd, exist_ok=True)
eng, bc = symx.build_bc(h, wd)
t = sys.argv[3] if len(sys.argv) > 3 else "30"
subprocess.run([eng, bc, "-o", wd + "/o.json", "--time", t] + h.flags + sys.argv[4:])
d = json.load(open(wd + "/o.json"))
print({k: d[k] for k in d if k not in ("functions", "samples", "failures")})
for f in d["failures"][:10]: print(f)
