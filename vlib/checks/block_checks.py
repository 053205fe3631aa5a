"""B01-B04: stream blocks."""
from ..core import *
def pre(*ps): return lambda c: c.startswith(ps)

def blocks(ctx, pid, fams, nt=2):
  K = f"CONSTANT NT = {nt}\n"
  for f, (qd, td), mcfg in fams:
    ctx.model(mc(ctx.work, "Blocks", constants=K, cfgs=mcfg or f, name="MC_" + f, constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(qd, td)}\n"), f)
  scs = []
  for fi, (f, _, _) in enumerate(fams):
    w = {"CfgsLogic": 1}.get(f, 1)
    for i, (num, depth) in enumerate([(ctx.n(500, 8000) // w, 30), (ctx.n(150, 3000) // w, 100)]):
      for j, s in enumerate(gen(ctx.work, "Blocks", num, depth, ctx.seed * 31 + i, ops="GenOps(st)", cfgs=f, constants=K, name=f"G{fi}{i}")):
        k = j % 4
        scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 10000 + fi * 2000 + i * 5000 + j, "base": 1_700_000_000_000 if k else 0, "scale": (1, 1000, 7, 1)[k],
                    "off": (0, 5000, -100, 1)[k], "raw": j % 3 == 0})
  ctx.judge("Blocks", "blocks", scs, only=pre(pid), constants=K)

def B01(ctx): blocks(ctx, "B01", [("CfgsGate", (3, 4), None)])
def B02(ctx): blocks(ctx, "B02", [("CfgsSwitch", (3, 4), None)], nt=6)
def B07(ctx): blocks(ctx, "B07", [("CfgsMSwitch", (3, 4), None)], nt=6)
def B03(ctx):
  blocks(ctx, "B03", [("CfgsLatch", (4, 5), None), ("CfgsConcat", (4, 5), None), ("CfgsMatch", (3, 3), None), ("CfgsFmt", (3, 4), None), ("CfgsCalc", (3, 3), None), ("CfgsConv", (3, 4), None)])
  buffers(ctx, "B03", [("CfgsDetect", 4), ("CfgsPulse", 5)])

def buffers(ctx, pid, fams):
  for f, lv in fams:
    ctx.model(mc(ctx.work, "Buffers", cfgs=f, name="MC_" + f, constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {lv + (0 if ctx.quick else 1)}\n"), f)
  scs = []
  for fi, (f, _) in enumerate(fams):
    for i, (num, depth) in enumerate([(ctx.n(300, 6000), 25), (ctx.n(80, 2000), 80)]):
      for j, s in enumerate(gen(ctx.work, "Buffers", num, depth, ctx.seed * 37 + i, ops="GenOps(st)", cfgs=f, name=f"GB{fi}{i}")):
        scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 10000 + fi * 2000 + i * 5000 + j, "off": (0, 5000, -3)[j % 3], "raw": j % 2 == 0, "float": j % 5 == 0})
  ctx.judge("Buffers", "buffers", scs, only=pre(pid), tag="-" + pid)

def B04(ctx): buffers(ctx, "B04", [("CfgsTime", 4), ("CfgsReplay", 4), ("CfgsRepeat", 4)])
CHECKS = {"B04": B04, "B01": B01, "B02": B02, "B03": B03, "B07": B07}

def B06(ctx):
  ctx.model(mc(ctx.work, "Named", name="MC_Named", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(5, 6)}\n"), "named topics")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(280, 4000), 20), (ctx.n(60, 1000), 50)]):
    for j, s in enumerate(gen(ctx.work, "Named", num, depth, ctx.seed * 89 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Named", "named", scs)
CHECKS["B06"] = B06

def B08(ctx):
  ctx.model(mc(ctx.work, "Mixer", cfgs="MCfgs", name="MC_Mixer", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(5, 6)}\n"), "audio mixer")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(480, 2500), 25), (ctx.n(96, 300), 80)]):
    for j, s in enumerate(gen(ctx.work, "Mixer", num, depth, ctx.seed * 97 + i, ops="GenOps(st)", name=f"G{i}")): scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j})
  ctx.judge("Mixer", "mixer", scs)
CHECKS["B08"] = B08

def B09(ctx):
  scs = []
  for fi, (f, (qd, td), num) in enumerate([("CfgsScale", (3, 4), 160), ("CfgsVolume", (4, 6), 80), ("CfgsActive", (4, 6), 60), ("CfgsLayout", (4, 5), 60)]):
    ctx.model(mc(ctx.work, "Media", cfgs=f, name="MC_" + f, constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(qd, td)}\n"), f)
    for i, (n, depth) in enumerate([(ctx.n(num, num * 8), 20), (ctx.n(num // 4, num * 2), 60)]):
      for j, s in enumerate(gen(ctx.work, "Media", n, depth, ctx.seed * 101 + i, ops="GenOps(st)", cfgs=f, name=f"G{fi}{i}")):
        scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + fi * 300 + j, "stop": j % 8 == 0})
  ctx.judge("Media", "media", scs)
CHECKS["B09"] = B09

def B10(ctx):
  import subprocess, os
  so = os.path.join(ctx.work.dir, "video_perf.so")
  inc = subprocess.run([PY, "-m", "pybind11", "--includes"], stdout=subprocess.PIPE, text=True).stdout.split()
  p = subprocess.run(["g++", "-O1", "-shared", "-fPIC", "-std=c++17", *inc, os.path.join(REPO, "streamtasks/media/video_perf_all.cpp"), "-o", so], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if p.returncode != 0: raise MachineryError("the extension does not compile:\n" + p.stdout[-2000:])
  ctx.model(mc(ctx.work, "Pictures", cfgs="MCfgs", name="MC_Pictures", constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(4, 5)}\n"), "video mixer")
  scs = []
  for i, (num, depth) in enumerate([(ctx.n(240, 2000), 20), (ctx.n(60, 500), 60)]):
    for j, s in enumerate(gen(ctx.work, "Pictures", num, depth, ctx.seed * 103 + i, ops="GenOps(st)", name=f"G{i}")):
      scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + j, "stop": j % 8 == 0})
  ctx.judge("Pictures", "pictures", scs, env={"VIDEO_PERF": so})
CHECKS["B10"] = B10

def B11(ctx):
  scs = []
  for fi, (f, num) in enumerate([("CfgsChain", 180), ("CfgsRate", 120)]):
    ctx.model(mc(ctx.work, "Codec", cfgs=f, name="MC_" + f, constraint="MCC", extra=f"MCC == TLCGet(\"level\") <= {ctx.n(4, 6)}\n"), f)
    for i, (n, depth) in enumerate([(ctx.n(num, num * 8), 20), (ctx.n(num // 4, num * 2), 60)]):
      for j, s in enumerate(gen(ctx.work, "Codec", n, depth, ctx.seed * 107 + i, ops="GenOps(st)", cfgs=f, name=f"G{fi}{i}")):
        scs.append({"cfg": s["cfg"], "ops": s["ops"], "seed": ctx.seed * 1000 + fi * 300 + j, "stop": j % 3 == 0})
  ctx.judge("Codec", "codec", scs)
CHECKS["B11"] = B11
