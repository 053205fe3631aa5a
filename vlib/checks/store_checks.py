"""S02-S04: what is stored."""
import subprocess, os
from ..core import *
def _store(ctx, pid, a, b):
  ctx.model(mc(ctx.work, "Store", name="MC_Store", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(4, 5)}\n"), "storage")
  shim = ctx.work.path("crashshim.so")
  p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", shim, os.path.join(ROOT, "drivers", "crashshim.c"), "-ldl"], capture_output=True, text=True)
  if p.returncode: raise MachineryError("shim: " + p.stderr[-500:])
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(a, a * 15), 35), (ctx.n(b, b * 10), 90)]):
    for j, s in enumerate(gen(ctx.work, "Store", num, depth, ctx.seed * 59 + i + len(pid) + int(pid[2:]), ops="GenOps(st)", name=f"G{i}")):
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Store", "store", scs, only=lambda c: c.startswith(pid), env={"LD_PRELOAD": shim})
CHECKS = {p: (lambda ctx, p=p: _store(ctx, p, 160, 30)) for p in ("S02", "S03", "S04")}
