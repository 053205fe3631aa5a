"""N08: stream framing (Wire.tla)."""
from ..core import *


def wire_consts(f, n, c): return f"CONSTANTS MaxFrames={f} MaxNoise={n} MaxCuts={c}\n"


def N08(ctx):
  ctx.model(mc(ctx.work, "Wire", constants=wire_consts(2, *ctx.n((1, 1), (2, 1)))), "framing")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(500, 8000), 40), (ctx.n(150, 3000), 120)]):
    for j, s in enumerate(gen(ctx.work, "Wire", num, depth, ctx.seed * 31 + i, constants=wire_consts(99, 99, 1), name=f"G{i}",
                              ops='IF RandomElement(1..40) > 1 /\\ \\E o \\in Ops(st) : o.k \\notin {"eof","wbreak"} THEN LET ks == {o.k : o \\in Ops(st)} \\ {"eof","wbreak"} kk == RandomElement(ks) IN {o \\in Ops(st) : o.k = kk} ELSE Ops(st)')):
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 100000 + i * 50000 + j, "mode": ("link", "raw")[j % 2]})
  ctx.assumptions += ["bytes between frames do not contain the whole frame marker"]
  ctx.judge("Wire", "wire", scs, constants=wire_consts(99, 99, 1))


CHECKS = {"N08": N08}


def proto(ctx):
  cfg = ('SPECIFICATION Spec\nINVARIANT N09 N09b N10_count\nPROPERTY N10_again\nCHECK_DEADLOCK FALSE\n'
         'CONSTANTS Clients={%s} Rec="r" MaxLoss=%d MaxStops=%d Tries=%d\n' % (('"a"',) + ctx.n((1, 1, 2), (2, 2, 2))))
  ctx.model(tlc_module(ctx.work, "ConnProto", cfg), "connection set-up, loss and reconnection")


def conn(ctx, only):
  proto(ctx)
  scs = []
  for i, (kind, num, depth) in enumerate([("unix", ctx.n(170, 1500), 22), ("tcp", ctx.n(12, 120), 14), ("ws", ctx.n(10, 100), 12)]):
    for j, s in enumerate(gen(ctx.work, "Conn", num, depth, ctx.seed * 7 + i, ops="GenOps(st)", name=f"G{i}")):
      ops = [o for o in s["ops"] if kind != "ws" or o["k"] not in ("raw", "fake", "halfconn")]
      scs.append({"cfg": s["cfg"], "ops": ops, "kind": kind, "seed": ctx.seed * 1000 + i * 300 + j})
  ctx.judge("Conn", "conn", scs, only=only, timeout=800)

def N09(ctx): conn(ctx, lambda c: c.startswith("N09"))
def N10(ctx): conn(ctx, lambda c: c.startswith("N10"))

CHECKS.update(N09=N09, N10=N10)
