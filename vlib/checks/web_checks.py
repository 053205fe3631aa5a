"""W01-W04: web requests."""
from ..core import *
def W01(ctx):
  ctx.model(mc(ctx.work, "Web", name="MC_Web", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(3, 4)}\n"), "routing")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(500, 10000), 25), (ctx.n(150, 2000), 60)]):
    for j, s in enumerate(gen(ctx.work, "Web", num, depth, ctx.seed * 47 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Web", "web", scs)
def W04(ctx):
  ctx.model(mc(ctx.work, "Static", name="MC_Static", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(3, 4)}\n"), "published directory")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(500, 10000), 30), (ctx.n(150, 2000), 90)]):
    for j, s in enumerate(gen(ctx.work, "Static", num, depth, ctx.seed * 53 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Static", "static", scs)
def W02(ctx):
  ctx.model(mc(ctx.work, "Tunnel", name="MC_Tunnel", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(6, 7)}\n"), "requests over the network")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(500, 8000), 30), (ctx.n(160, 2000), 70)]):
    for j, s in enumerate(gen(ctx.work, "Tunnel", num, depth, ctx.seed * 73 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Tunnel", "tunnel", scs)
def W03(ctx):
  ctx.model(mc(ctx.work, "Paths", name="MC_Paths", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(4, 5)}\n"), "web paths")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(240, 4000), 30), (ctx.n(80, 1000), 70)]):
    for j, s in enumerate(gen(ctx.work, "Paths", num, depth, ctx.seed * 71 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Paths", "paths", scs)
CHECKS = {"W01": W01, "W02": W02, "W03": W03, "W04": W04}
def W05(ctx):
  ctx.model(mc(ctx.work, "Live", name="MC_Live", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(5, 6)}\n"), "live views")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(220, 4000), 30), (ctx.n(60, 1000), 70)]):
    for j, s in enumerate(gen(ctx.work, "Live", num, depth, ctx.seed * 79 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Live", "live", scs)
CHECKS["W05"] = W05
def W06(ctx):
  ctx.model(mc(ctx.work, "Ui", name="MC_Ui", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(3, 4)}\n"), "controls and displays")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(420, 6000), 20), (ctx.n(84, 1400), 50)]):
    for j, s in enumerate(gen(ctx.work, "Ui", num, depth, ctx.seed * 83 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Ui", "ui", scs)
CHECKS["W06"] = W06
