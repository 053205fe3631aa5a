"""N01-N07: SwitchProto.tla model checked, its behaviours replayed on real switches, traces validated by Net.tla."""
from ..net import *

DATA = ["prov", "unprov", "sub", "unsub", "pub"]
BATCH = ["batch"]
ADDR = ["addr", "unaddr", "send"]
LINK = ["up", "down"]


def model(ctx, plan):
  for i, (names, multi, kinds, ops, topics) in enumerate(plan):
    r = mc(ctx.work, "SwitchProto", cfgs=cfgset(names, multi), constants=consts(ops, 2, topics, 1, kinds), name=f"MC{i}")
    ctx.model(r, f"{'+'.join(names)}{' multi' if multi else ''} ops<={ops} topics={topics} {','.join(kinds)}")


def run(ctx, plan, runs, only):
  model(ctx, plan)
  scs = []
  for i, (names, multi, kinds, num, depth, modes, remap, *kw) in enumerate(runs):
    s = scenarios(ctx.work, ctx.seed * 17 + i, num, names, kinds, multi, depth=depth, modes=modes, remap=remap, name=f"G{i}", **(kw[0] if kw else {}))
    scs += s
  ctx.assumptions += ["networks are trees of switches", "outside one switch the providers of an id sit on the same switch; an id moves between switches only after its withdrawal was heard",
                      "a topic is not subscribed by its own provider"]
  ctx.judge("Net", "net", scs, only=only)


SING = ["star3", "line2", "line2x", "line3", "hub4"]
MULT = ["star3", "star4", "line2x"]
GM = ("gate", "gateraw", "queue", "raw", "burst", "suspend")


def pre(*ps): return lambda c: c.startswith(ps)


def N01(ctx):
  k = DATA
  run(ctx, ctx.n([(["line2"], False, k, 5, 1), (["star3"], True, k, 4, 1), (["line2"], False, k + BATCH, 4, 2)],
                 [(["line2"], False, k, 6, 2), (["line3"], False, k, 6, 1), (["star3"], True, k, 6, 1), (["line2x"], True, k, 5, 1), (["line2"], False, k + BATCH, 5, 2)]),
      [(SING, False, k + BATCH, ctx.n(350, 6000), 90, GM, False), (MULT, True, k + BATCH, ctx.n(350, 6000), 90, GM, False)], pre("N01", "N07", "N08"))

def N02(ctx):
  k = ["prov", "unprov", "sub", "unsub"]
  run(ctx, ctx.n([(["line3"], False, k + LINK, 4, 1), (["star3"], True, k + LINK, 4, 1)],
                 [(["line3"], False, k + LINK, 6, 1), (["line2"], False, k + LINK, 6, 2), (["star3"], True, k + LINK, 6, 1), (["line2x"], True, k, 6, 1)]),
      [(SING, False, k + BATCH, ctx.n(250, 5000), 80, GM, False), (MULT, True, k + BATCH, ctx.n(400, 8000), 80, GM, False), (MULT, True, k + LINK, ctx.n(150, 3000), 80, GM, False),
       (["star4"], False, k, ctx.n(150, 2000), 60, GM, False, {"topics": 1})], pre("N02", "N07"))

def N03(ctx):
  k = ADDR
  run(ctx, ctx.n([(["line3"], False, k, 5, 1), (["star3"], True, k, 4, 1)],
                 [(["line3"], False, k + LINK, 5, 1), (["star4"], True, k, 5, 1), (["line2x"], True, k, 6, 1)]),
      [(SING, False, k, ctx.n(300, 5000), 80, GM, False), (MULT, True, k, ctx.n(300, 5000), 80, GM, False)], pre("N03", "N07", "N08"))

def N04(ctx):
  k = ["prov", "unprov", "addr", "unaddr"]
  run(ctx, ctx.n([(["line3"], False, k + LINK, 4, 1), (["star3"], True, k + LINK, 4, 1)],
                 [(["line3"], False, k + LINK, 5, 1), (["star4"], True, k, 6, 1), (["line2x"], True, k + LINK, 5, 1)]),
      [(SING, False, k + BATCH, ctx.n(200, 4000), 70, GM, False), (MULT, True, k + BATCH, ctx.n(350, 6000), 70, GM, False), (SING + MULT, True, k + LINK, ctx.n(200, 4000), 70, GM, False)], pre("N04", "N07"))

def N05(ctx):
  k = ["prov", "unprov", "sub", "unsub", "ctl"]
  run(ctx, ctx.n([(["line2"], False, k, 6, 1), (["line3"], False, k, 4, 1)],
                 [(["line2"], False, k + LINK, 6, 1), (["line3"], False, k + LINK, 5, 1), (["star3"], False, k, 6, 1)]),
      [(SING, False, k + BATCH, ctx.n(600, 10000), 80, GM, False), (SING, False, k + LINK, ctx.n(150, 3000), 80, GM, False)], pre("N05", "N07"))

def N06(ctx):
  k = DATA + ["ctl"] + ADDR
  run(ctx, ctx.n([(["line2"], False, DATA + ["ctl"], 4, 2)], [(["line2"], False, DATA + ["ctl"], 5, 2)]),
      [(SING, False, k + BATCH, ctx.n(400, 6000), 90, GM, True), (MULT, True, DATA + BATCH, ctx.n(200, 3000), 90, GM, True)], None)

def N07(ctx):
  k = DATA + ["ctl"] + ADDR + LINK
  run(ctx, ctx.n([(["line3"], False, DATA + LINK, 4, 1), (["star3"], True, DATA + LINK, 4, 1)],
                 [(["line3"], False, DATA + ["ctl"] + LINK, 5, 1), (["star3"], True, DATA + ADDR + LINK, 5, 1), (["hub4"], False, ["prov", "sub", "pub"] + LINK, 5, 1)]),
      [(SING, False, k, ctx.n(300, 6000), 80, GM, False), (MULT, True, DATA + ADDR + LINK, ctx.n(300, 6000), 80, GM + ("burst",), False)], None)


CHECKS = {"N01": N01, "N02": N02, "N03": N03, "N04": N04, "N05": N05, "N06": N06, "N07": N07}
