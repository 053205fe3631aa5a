"""The video mixer on a client whose other end the driver holds (real time, real thread, its extension built from the tree)."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import asyncio, time, importlib.util
from vlib.driver import main
from vlib.vloop import run
from streamtasks.net import create_queue_connection
from streamtasks.client import Client
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

BAD = -88888
FRAMES = [[(10, 20, 30, 255), (1, 2, 3, 0)], [(200, 100, 0, 128), (255, 255, 255, 255)], [(0, 0, 0, 0), (0, 0, 0, 0)], [(77, 0, 255, 51), (9, 90, 250, 1)], [(250, 251, 252, 255), (0, 255, 0, 254)]]
late = [0]
def extension():
  n = "streamtasks.media.video_perf"
  if n not in sys.modules:
    spec = importlib.util.spec_from_file_location(n, os.environ["VIDEO_PERF"])
    sys.modules[n] = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(sys.modules[n])

def scenario(sc):
  rnd, cfg = random.Random(sc["seed"]), sc["cfg"]
  extension()
  base, scale = rnd.choice([0, 1_700_000_000_000, 12345]), rnd.choice([1, 2, 1000])
  fmt, size = rnd.choice(["rgba", "bgra", "abgr", "argb"]), rnd.choice([(2, 1), (1, 2), (2, 3), (4, 2)])
  k = size[0] * size[1] // 2
  T, O = {t: 10 + t * 3 for t in range(1, 4)}, 500
  ev, out, bad = [], [], []
  order = ["rgba".index(c) for c in fmt]
  def frame(v): return bytes(p[c] for p in FRAMES[v - 1] * k for c in order)
  def payload(m):
    if m["k"] == "junk": return rnd.choice([{"n": 1}, ["junk"], "junk", {"data": b"\0" * 8}])
    ts = base + m["ts"] * scale
    if m["v"] == BAD: return {"timestamp": ts, **rnd.choice([{}, {"data": None}, {"data": [1]}, {"data": b"\1" * (k * 8 - rnd.randint(1, 4))}, {"data": b"\1" * (k * 8 + rnd.randint(1, 8))}, {"data": b""}])}
    return {"timestamp": ts, "data": frame(m["v"])}
  def decode(d):
    try:
      if set(d) != {"timestamp", "data"}: raise ValueError("shape")
      if (d["timestamp"] - base) % scale: raise ValueError("time")
      a = d["data"]
      if len(a) != k * 8: raise ValueError("size")
      px = [[a[i + order.index(c)] for c in range(4)] for i in range(0, len(a), 4)]
      if any(p[3] != 255 for p in px) or any(px[i] != px[i % 2] for i in range(2 * k)): raise ValueError("pixels")
      out.append([(d["timestamp"] - base) // scale, px[0][:3] + px[1][:3]])
    except Exception as e: bad.append(f"{type(e).__name__}: {e} {d}"[:200])
  async def go():
    from streamtasks.system.tasks.media.videomixer import VideoMixerTask, VideoMixerConfig
    a, e = create_queue_connection(raw=rnd.random() < 0.4)
    col = "#" + "".join(f"{c:02x}" for c in cfg["bg"])
    task = VideoMixerTask(Client(a), VideoMixerConfig(video_tracks=[{"in_topic": T[t]} for t in range(1, cfg["nt"] + 1)], out_topic=O, width=size[0], height=size[1], pixel_format=fmt, rate=rnd.choice([5, 30, 100]),
                                                      bgcolor_hex=col.upper() if rnd.random() < 0.5 else col, synchronized=cfg["sync"]))
    async def net():
      while True:
        m = await e.recv()
        if isinstance(m, TopicDataMessage):
          if m.topic == O: decode(m.data.data)
          else: bad.append(f"topic {m.topic}")
    nt = asyncio.ensure_future(net())
    await task.setup()
    rt = asyncio.ensure_future(task.run())
    for _ in range(20): await asyncio.sleep(0)
    try:
      for o in sc["ops"]:
        for x in o["ms"]:
          m, t = x["m"], x["t"]
          if m["k"] == "ctl": await e.send(TopicControlMessage(T[t], bool(m["v"])))
          else: await e.send(TopicDataMessage(T[t], RawData(payload(m))))
          if rnd.random() < 0.3: await asyncio.sleep(0)
        for _ in range(40): await asyncio.sleep(0)
        end = time.monotonic() + (6 if late[0] < 2 else 0.5)
        while len(out) < o["need"] and not bad and not rt.done() and time.monotonic() < end: await asyncio.sleep(0.001)
        miss = len(out) < o["need"]
        late[0] += miss
        for x, w in ((rt, "task"), (nt, "net")):
          if x.done(): ev.append({"k": "opfail", "op": o, "why": f"{w} ended {x.exception()!r}"[:300]}); return
        ev.append({**o, "obs": {"out": list(out), "bad": list(bad)}})
        out.clear(); bad.clear()
        if miss: return
    finally: rt.cancel()
    if sc.get("stop"):
      await asyncio.wait([rt], timeout=6)
      ev.append({"k": "stop", "obs": {"ends": int(rt.done())}})
    else: await asyncio.sleep(0)
  _, err = run(go, wall=60, loop_cls=asyncio.SelectorEventLoop)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
