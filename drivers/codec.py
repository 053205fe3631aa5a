"""Encoders, decoders, resamplers and reformatters on clients whose other ends the driver holds (real time, real threads)."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import asyncio, time
from vlib.driver import main
from vlib.vloop import run
import numpy as np
from streamtasks.net import create_queue_connection
from streamtasks.client import Client
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

BAD = -88888
LENS = [4, 1, 7, 2, 12, 3]
late = [0]

def scenario(sc):
  rnd, cfg = random.Random(sc["seed"]), sc["cfg"]
  b = cfg["b"]
  base = rnd.choice([0, 1_700_000_000_000, 12345])
  ev, out, bad, paused, lost = [], [], [], [0], [0]
  video = b in ("raw", "rate")
  if video:
    w, h = rnd.choice([(2, 2), (4, 2), (3, 5), (16, 8)])
    fmt, px = rnd.choice([("rgb24", 3), ("bgra", 4), ("rgba", 4)])
    unit = w * h
    def data(v): return bytes((v * 40 + i * 7) % 256 for i in range(unit * px))
    sizes = [1, unit * px - 1, unit * px + 1, unit * (px - 1), unit * 2, unit]
  else:
    fmt, dt, codec = rnd.choice([("s16", np.int16, "pcm_s16le"), ("s32", np.int32, "pcm_s32le"), ("flt", np.float32, "pcm_f32le")])
    ch, u = rnd.choice([1, 2]), rnd.choice([1, 8])
    def data(v): return np.array([[(v * 10 + i // u) * (-1) ** c for c in range(ch)] for i in range(LENS[v - 1] * u)], dtype=dt).tobytes()
    sizes = [1, dt().itemsize - 1, dt().itemsize + 1, 5]
  table = {data(v): v for v in range(1, 7)}
  def payload(m):
    if m["k"] == "junk": return rnd.choice([{"n": 1}, ["junk"], "junk", {"data": b"\0" * 8}])
    ts = base + m["ts"]
    if m["v"] == BAD: return {"timestamp": ts, **rnd.choice([{}, {"data": None}, {"data": [1]}, {"data": b"\1" * rnd.choice(sizes)}])}
    return {"timestamp": ts, "data": data(m["v"])}
  def noise():
    pk = {"data": b"\1\2\3", "pts": 5, "rel_dts": 0, "is_keyframe": True}
    return rnd.choice([{"n": 1}, "junk", {"timestamp": base, "packet": None}, {"timestamp": base, "packet": {**pk, "pts": "x"}}, {"timestamp": base, "packet": {"data": b"abc"}}] + ([{"timestamp": base, "packet": pk}] if b == "raw" else []))
  def decode(d):
    try:
      if set(d) != {"timestamp", "data"}: raise ValueError("shape")
      out.append([d["timestamp"] - base, table[d["data"]]])
    except Exception as e: bad.append(f"{type(e).__name__}: {e} {d}"[:200])
  def make(c1, c2):
    if b == "pcm":
      from streamtasks.system.tasks.media.audioencoder import AudioEncoderTask, AudioEncoderConfig
      from streamtasks.system.tasks.media.audiodecoder import AudioDecoderTask, AudioDecoderConfig
      k = dict(rate=1000 * u, channels=ch, codec=codec, in_sample_format=fmt, out_sample_format=fmt)
      return [AudioEncoderTask(c1, AudioEncoderConfig(in_topic=1, out_topic=2, encoder=codec, **k)), AudioDecoderTask(c2, AudioDecoderConfig(in_topic=2, out_topic=3, decoder=codec, **k))]
    if b == "raw":
      from streamtasks.system.tasks.media.videoencoder import VideoEncoderTask, VideoEncoderConfig
      from streamtasks.system.tasks.media.videodecoder import VideoDecoderTask, VideoDecoderConfig
      k = dict(rate=cfg["from"], width=w, height=h, codec="rawvideo", in_pixel_format=fmt, out_pixel_format=fmt)
      return [VideoEncoderTask(c1, VideoEncoderConfig(in_topic=1, out_topic=2, encoder="rawvideo", **k)), VideoDecoderTask(c2, VideoDecoderConfig(in_topic=2, out_topic=3, decoder="rawvideo", **k))]
    if b == "resample":
      from streamtasks.system.tasks.media.audioresampler import AudioResamplerTask, AudioResamplerConfig
      return [AudioResamplerTask(c1, AudioResamplerConfig(in_topic=1, out_topic=3, **{d + n: v for d in ("in_", "out_") for n, v in (("sample_format", fmt), ("rate", 1000 * u), ("channels", ch))}))]
    from streamtasks.system.tasks.media.videoreformatter import VideoReformatterTask, VideoReformatterConfig
    return [VideoReformatterTask(c1, VideoReformatterConfig(in_topic=1, out_topic=3, in_rate=cfg["from"], out_rate=cfg["to"], **{d + n: v for d in ("in_", "out_") for n, v in (("pixel_format", fmt), ("width", w), ("height", h))}))]
  async def go():
    raw = rnd.random() < 0.4
    (a1, e1), (a2, e2) = create_queue_connection(raw=raw), create_queue_connection(raw=raw)
    tasks = make(Client(a1), Client(a2))
    async def net(e):
      while True:
        m = await e.recv()
        if isinstance(m, TopicDataMessage):
          if m.topic == 3: decode(m.data.data)
          elif m.topic == 2 and e is e1:
            lost[0] += 1
            if lost[0] > cfg["skip"]: await e2.send(m)
          else: bad.append(f"topic {m.topic}")
        elif isinstance(m, TopicControlMessage) and m.topic == 3: paused[0] = int(m.paused)
    for t in tasks: await t.setup()
    run_ = [asyncio.ensure_future(t.run()) for t in tasks]
    nets = [asyncio.ensure_future(net(e)) for e in (e1, e2)]
    for _ in range(20): await asyncio.sleep(0)
    try:
      for o in sc["ops"]:
        for m in o["ms"]:
          if m["k"] == "ctl": await e1.send(TopicControlMessage(1, bool(m["v"])))
          elif m["k"] == "noise":
            if len(tasks) == 2: await e2.send(TopicDataMessage(2, RawData(noise())))
          else: await e1.send(TopicDataMessage(1, RawData(payload(m))))
          if rnd.random() < 0.3: await asyncio.sleep(0)
        for _ in range(40): await asyncio.sleep(0)
        end = time.monotonic() + (6 if late[0] < 2 else 0.5)
        while len(out) < o["need"] and not bad and not any(t.done() for t in run_) and time.monotonic() < end: await asyncio.sleep(0.001)
        miss = len(out) < o["need"]
        late[0] += miss
        for x, n in [*((t, "task") for t in run_), *((t, "net") for t in nets)]:
          if x.done(): ev.append({"k": "opfail", "op": o, "why": f"{n} ended {x.exception()!r}"[:300]}); return
        ev.append({**o, "obs": {"out": list(out), "bad": list(bad), "paused": paused[0]}})
        out.clear(); bad.clear()
        if miss: return
      if sc.get("stop"):      # in the middle of work
        t0 = max([m["nx"] for o in sc["ops"] for m in o["ms"]] + [0])
        for i in range(30): await e1.send(TopicDataMessage(1, RawData({"timestamp": base + t0 + i * 200, "data": data(rnd.randint(1, 6))})))
        for _ in range(rnd.randint(0, 60)): await asyncio.sleep(0)
        if rnd.random() < 0.5: await asyncio.sleep(rnd.random() * 0.01)
    finally:
      for t in run_: t.cancel()
    if sc.get("stop"):
      await asyncio.wait(run_, timeout=6)
      ev.append({"k": "stop", "obs": {"ends": int(all(t.done() for t in run_))}})
    else: await asyncio.sleep(0)
  _, err = run(go, wall=60, loop_cls=asyncio.SelectorEventLoop)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
