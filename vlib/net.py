"""Scenario generation for the network properties."""
import random
from .core import *

def topo(name):
  T = {
    "star2": (["s1"], [["a", "s1", 1], ["b", "s1", 2]]),
    "star3": (["s1"], [["a", "s1", 1], ["b", "s1", 2], ["c", "s1", 1]]),
    "star4": (["s1"], [["a", "s1", 1], ["b", "s1", 2], ["c", "s1", 1], ["d", "s1", 3]]),
    "line2": (["s1", "s2"], [["a", "s1", 1], ["b", "s2", 1], ["s1", "s2", 2]]),
    "line2x": (["s1", "s2"], [["a", "s1", 1], ["b", "s2", 1], ["c", "s1", 2], ["d", "s2", 1], ["s1", "s2", 2]]),
    "line3": (["s1", "s2", "s3"], [["a", "s1", 1], ["b", "s2", 1], ["c", "s3", 2], ["s1", "s2", 1], ["s2", "s3", 3]]),
    "hub4": (["s0", "s1", "s2", "s3"], [["a", "s1", 1], ["b", "s2", 1], ["c", "s3", 2], ["d", "s3", 1],
                                       ["s0", "s1", 1], ["s0", "s2", 2], ["s0", "s3", 1]])}
  return T[name]


def consts(maxops, maxsettles, topics, addrs, kinds):
  return ("CONSTANTS MaxOps=%d MaxSettles=%d Topics={%s} Addrs={%s} Kinds={%s}\n" %
          (maxops, maxsettles, ",".join(map(str, range(1, topics + 1))), ",".join(map(str, range(1, addrs + 1))), ",".join(jstr(k) for k in kinds)))


def cfgset(names, multi): return "{" + ", ".join('Cfg("%s",%s,<<>>)' % (n, "TRUE" if multi else "FALSE") for n in names) + "}"


def renum(o, f):
  o = dict(o)
  if "t" in o: o["t"] = f(o["t"])
  for k in ("add", "rem"):
    if k in o: o[k] = [f(t) for t in o[k]]
  return o


def scenarios(work, seed, num, names, kinds, multi=False, topics=2, addrs=2, depth=60, modes=("gate",), remap=False, name="G"):
  """Behaviours of SwitchProto (operations and delivery schedule)."""
  g = gen(work, "SwitchProto", num, depth, seed, cfgs=cfgset(names, multi), name=name, ops="GenOps(st)",
          constants=consts(999, 999, topics, addrs, kinds), timeout=400)
  rnd = random.Random(seed)
  out = []
  for i, s in enumerate(g):
    sw, links = topo(s["cfg"]["topo"])
    ops = s["ops"]
    rmap = []
    if remap:
      ids = list(range(1, topics + 1))
      ends = sorted({l[0] for l in links if l[0] not in sw})
      m = {}
      for e in ends:
        if rnd.random() < 0.75:
          # internal ids are a permutation of the external ones, or foreign ids
          pool = rnd.choice([ids, [x + 100 for x in ids], [x - 1 for x in ids], [0, 7, 2**30, 9][:len(ids)]])
          p = pool[:]; rnd.shuffle(p)
          m[e] = dict(zip(ids, p))   # external -> internal
          rmap += [[e, inn, ex] for ex, inn in m[e].items()]
      for e in m: ops = [renum(o, lambda t: m[e][t]) if o.get("e") == e else o for o in ops]
    if not remap and i % 3 == 0:   # ids are just numbers, 0 included
      z = rnd.choice([lambda t: t - 1, lambda t: t + 2**30])
      ops = [renum(o, z) for o in ops]
    out.append({"cfg": {"multi": multi, "rmap": rmap}, "sw": sw, "links": links, "ops": ops,
                "mode": modes[i % len(modes)], "abase": rnd.choice([0xA000, 0, -1, 2**40]), "seed": seed * 1000 + i, "topo": s["cfg"]["topo"]})
  return out
