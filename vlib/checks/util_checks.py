"""U01, U02: shared producers, groups of background tasks."""
from ..core import *
def U01(ctx):
  lv = ctx.n(5, 6)
  ctx.model(mc(ctx.work, "Prod", name="MC_Prod", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {lv}\n"), "producer")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(400, 8000), 25), (ctx.n(100, 2000), 80)]):
    for j, s in enumerate(gen(ctx.work, "Prod", num, depth, ctx.seed * 41 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Prod", "prod", scs)

def U02(ctx):
  ctx.model(mc(ctx.work, "Group", name="MC_Group", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(4, 5)}\n"), "group")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(600, 10000), 14), (ctx.n(400, 6000), 30)]):
    for j, s in enumerate(gen(ctx.work, "Group", num, depth, ctx.seed * 43 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Group", "group", scs)
CHECKS = {"U01": U01, "U02": U02}
