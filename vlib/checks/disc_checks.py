"""D01-D03: discovery."""
from ..core import *
def pre(*ps): return lambda c: c.startswith(ps)

def disc(ctx, pid):
  ctx.model(mc(ctx.work, "Disc", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(3, 4)}\n"), "discovery")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(300, 5000), 25), (ctx.n(100, 2000), 70)]):
    for j, s in enumerate(gen(ctx.work, "Disc", num, depth, ctx.seed * 29 + i, ops=f"Gen{pid}(st)", name=f"G{i}")):
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 10000 + i * 5000 + j})
  ctx.judge("Disc", "disc", scs, only=pre(pid))

def D01(ctx): disc(ctx, "D01")
def D02(ctx): disc(ctx, "D02")
def D03(ctx): disc(ctx, "D03")
CHECKS = {"D01": D01, "D02": D02, "D03": D03}
