"""S01: deployments."""
from ..core import *
def _s01(ctx):
  ctx.model(mc(ctx.work, "Deploy", name="MC_Deploy", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(5, 6)}\n"), "deploy")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(240, 3000), 30), (ctx.n(100, 1200), 60)]):
    for j, s in enumerate(gen(ctx.work, "Deploy", num, depth, ctx.seed * 67 + i, ops="GenOps(st)", name=f"G{i}")):
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j + 7 * i})
  ctx.judge("Deploy", "deploy", scs)
CHECKS = {"S01": _s01}
