"""T01-T02: task manager and task hosts."""
from ..core import *
def _tasks(ctx, pid):
  ctx.model(mc(ctx.work, "Tasks", name="MC_Tasks", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(6, 7)}\n"), "tasks")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(300, 4000), 30), (ctx.n(120, 1500), 60)]):
    for j, s in enumerate(gen(ctx.work, "Tasks", num, depth, ctx.seed * 61 + i + 100 * int(pid[2:]), ops="GenOps(st)", name=f"G{i}")):
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j + 7 * i})
  ctx.judge("Tasks", "tasks", scs, only=lambda c: c.startswith(pid))
CHECKS = {p: (lambda ctx, p=p: _tasks(ctx, p)) for p in ("T01", "T02")}
def T03(ctx):
  ctx.model(mc(ctx.work, "Fn", name="MC_Fn", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(4, 5)}\n"), "function tasks")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(320, 5000), 30), (ctx.n(120, 1500), 80)]):
    for j, s in enumerate(gen(ctx.work, "Fn", num, depth, ctx.seed * 79 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j + 7 * i})
  ctx.judge("Fn", "fn", scs)
CHECKS["T03"] = T03
