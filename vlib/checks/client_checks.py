"""C01-C05: the client."""
from ..core import *


def pre(*ps): return lambda c: c.startswith(ps)


def handles(ctx, only):
  ctx.model(mc(ctx.work, "Handles", constraint="MCC", extra=f"MCC == st.ops < {ctx.n(4, 5)}\n" ), "handles, ops<%d" % ctx.n(4, 5))
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(500, 8000), 40), (ctx.n(250, 4000), 90)]):
    for j, s in enumerate(gen(ctx.work, "Handles", num, depth, ctx.seed * 13 + i, ops="GenOps(st)", name=f"G{i}")):
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 10000 + i * 5000 + j, "slow": j % 2, "off": (0, -1, 100000)[j % 3]})
  ctx.judge("Handles", "handles", scs, only=only)

def C01(ctx): handles(ctx, pre("C01"))
def C02(ctx): handles(ctx, pre("C02"))

CHECKS = {"C01": C01, "C02": C02}


def rpc(ctx, only):
  ctx.model(mc(ctx.work, "Rpc", constraint="MCC", extra=f"MCC == st.n <= 2 /\\ TLCGet(\"level\") <= {ctx.n(4, 5)}\n"), "requests")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(400, 6000), 30), (ctx.n(150, 3000), 80)]):
    for j, s in enumerate(gen(ctx.work, "Rpc", num, depth, ctx.seed * 17 + i, ops="GenOps(st)", name=f"G{i}")):
      scs.append({"cfg": 0, "ops": s["ops"], "seed": ctx.seed * 10000 + i * 5000 + j})
  ctx.judge("Rpc", "rpc", scs, only=only)

def C03(ctx): rpc(ctx, pre("C03"))
def C04(ctx):
  rpc(ctx, pre("C04"))
  ctx.model(mc(ctx.work, "Bcast", constraint="MCC", extra=f"MCC == st.ops < {ctx.n(4, 5)}\n"), "broadcasts")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(250, 4000), 30), (ctx.n(100, 2000), 70)]):
    for j, s in enumerate(gen(ctx.work, "Bcast", num, depth, ctx.seed * 19 + i, ops="GenOps(st)", name=f"GB{i}")):
      scs.append({"cfg": 0, "ops": s["ops"], "seed": ctx.seed * 10000 + i * 5000 + j})
  ctx.judge("Bcast", "bcast", scs, only=pre("C04"))
CHECKS.update({"C03": C03, "C04": C04})


def sync(ctx, cfgs, only):
  k = ctx.n(4, 5) if cfgs == "Cfgs" else ctx.n(5, 6)
  ctx.model(mc(ctx.work, "Sync", cfgs=cfgs, constants="CONSTANT N = 3\n", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {k}\n"), "synchronizer")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(500, 8000), 40), (ctx.n(150, 3000), 120)]):
    for j, s in enumerate(gen(ctx.work, "Sync", constants="CONSTANT N = 3\n", num=num, depth=depth, seed=ctx.seed * 23 + i, ops="GenOps(st)", cfgs=cfgs, name=f"G{i}")):
      k = j % 4
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 10000 + i * 5000 + j, "base": 0 if k < 3 else 1_700_000_000_000, "scale": (1, 1000, 7, 1)[k], "off": (0, 5000, -3, 1)[k], "float": j % 5 == 0})
  ctx.judge("Sync", "sync", scs, only=only, constants="CONSTANT N = 3\n")

def C05(ctx): sync(ctx, "Cfgs", pre("C05"))
def B05(ctx): sync(ctx, "BCfgs", pre("B05"))
CHECKS.update({"C05": C05, "B05": B05})
