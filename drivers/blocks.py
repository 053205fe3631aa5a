"""Stream blocks: real tasks on a client whose link the driver holds."""
import os, sys, random, asyncio, math, copy, time
os.environ["TZ"] = "UTC"; time.tzset()
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from datetime import datetime, timezone
from streamtasks.net import Link, create_queue_connection
from streamtasks.client import Client
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData

BAD, NAN = -88888, -99999
CH = {1: "a", 2: "b", 3: "A", 4: "B", 5: "."}
TEXTS = [[1, 2], [1], [2, 1], [3, 4], [], [1, 5, 2], [2, 2, 1, 2], [2, 3, 5], [5]]
FORMULAS = ["a + b*2", "a-b-1", "a & b", "a | b", "a ^ b", "!a", "(a>b) ? a : b", "(a>=b) & (b!=2)", "max(a,b,1)", "a % b", "min(a, b)", "(a<b) | (a!=2)",
            "-a + abs(b)", "(a+1)**2", "a + 0/b", "a + 0*sqrt(a)"]


class HeldLink(Link):
  """sends wait while held"""
  def __init__(self, inner):
    super().__init__()
    self.inner, self.go = inner, asyncio.Event()
    self.go.set()
  async def _send(self, m):
    await self.go.wait()
    await self.inner.send(m)
  async def _recv(self): return await self.inner.recv()


def text(i): return "" if i == 0 else f"t{i};"
def untext(s): return 0 if s == "" else int(s[1:-1]) if s[:1] == "t" and s[-1:] == ";" else -1


def scenario(sc):
  rnd = random.Random(sc["seed"])
  cfg, b = sc["cfg"], sc["cfg"]["b"]
  base, scale, off = sc["base"], sc["scale"], sc["off"]
  ev = []
  T, O = {t: off + t * 3 for t in range(1, 7)}, off + 500
  stamp = lambda ts: base + ts * scale
  unstamp = lambda x: -5555 if not isinstance(x, int) or (x - base) % scale else (x - base) // scale
  now = lambda: int(time.time() * 1000)

  def make(client):
    from streamtasks.system.tasks import gate, switch, srlatch, stringconcatenator, stringmatcher, textformatter, calculator, numbertotext, timetotext, timestampupdater
    if b == "gate": return gate.GateTask(client, gate.GateConfig(fail_mode=cfg["fail"], synchronized=cfg["sync"], initial_control=bool(cfg["init"]), in_topic=T[1], control_topic=T[2], out_topic=O))
    if b == "switch": return switch.SwitchTask(client, switch.SwitchConfig(pairs=[{"input": T[i], "control": T[i + 1]} for i in range(1, cfg["nt"], 2)], output=O))
    if b == "mswitch":
      from streamtasks.system.tasks.media import mediaswitch
      return mediaswitch.MediaSwitchTask(client, switch.SwitchConfig(pairs=[{"input": T[i], "control": T[i + 1]} for i in range(1, cfg["nt"], 2)], output=O))
    if b == "latch": return srlatch.SRLatchTask(client, srlatch.SRLatchConfig(default_value=bool(cfg["init"]), synchronized=cfg["sync"], set_topic=T[1], reset_topic=T[2], out_topic=O))
    if b == "concat": return stringconcatenator.StringConcatenatorTask(client, stringconcatenator.StringConcatenatorConfig(synchronized=cfg["sync"], in_topic=T[1], control_topic=T[2], out_topic=O))
    if b == "match": return stringmatcher.StringMatcherTask(client, stringmatcher.StringMatcherConfig(pattern="".join(CH[c] for c in cfg["pat"]), flags="i" if cfg["ci"] else "", is_regex=cfg["re"], in_topic=T[1], out_topic=O))
    if b == "format":
      V = textformatter.TextFormatterVariableConfig
      return textformatter.TextFormatterTask(client, textformatter.TextFormatterConfig(template="{{" + "-".join(["", "{a}", "{b_2}"][i] for i in cfg["tpl"]) + "}}", synchronized=cfg["sync"], out_topic=O,
        variable_tracks=[V(name="a", default_text=text(cfg["init"]), in_topic=T[1]), V(name="b_2", default_text="", in_topic=T[2])]))
    if b == "calc":
      V = calculator.CalculatorVariableConfig
      return calculator.CalculatorTask(client, calculator.CalculatorConfig(formula=FORMULAS[cfg["f"] - 1], synchronized=cfg["sync"], out_topic=O,
        variable_tracks=[V(name="a", default_value=cfg["init"], in_topic=T[1]), V(name="b", default_value=1, in_topic=T[2])]))
    if b == "numtext": return numbertotext.NumberToTextTask(client, numbertotext.NumberToTextConfig(in_topic=T[1], out_topic=O))
    if b == "timetext": return timetotext.TimeToTextTask(client, timetotext.TimeToTextConfig(date_format="%Y-%m-%dT%H:%M:%S.%f", in_topic=T[1], out_topic=O))
    return timestampupdater.TimestampUpdaterTask(client, timestampupdater.TimestampUpdaterConfig(time_reference="clock" if cfg["f"] else "message", time_offset=cfg["off"] * scale, fail_closed=cfg["fail"] == "closed", in_topic=T[1], out_topic=O))

  def number(v, unit):
    if v == NAN: return math.nan
    x = v / unit
    c = [x, str(x)]
    if x == int(x): c.append(int(x))
    if x == 1: c.append(True)
    return rnd.choice(c)
  def payload(t, m):
    n, v = m["n"], m["v"]
    if m["k"] == "junk": return rnd.choice([{"n": n}, ["junk", n], f"junk {n}", 10_000 + n, {"n": n, "value": 1.0}])
    d = {"n": n, "timestamp": stamp(m["ts"]), "x": None, "u": [1, {"y": 2}]}
    if b == "mswitch" and t % 2 == 1:
      k = {"data": rnd.choice([b"", b"\0\1frame", b"x" * 2000]), "pts": n * 40, "rel_dts": rnd.choice([0, 3])}
      if v == BAD: return {**d, **rnd.choice([{}, {"packet": None}, {"packet": {"is_keyframe": True}}, {"packet": {**k, "is_keyframe": None}}])}
      return {**d, "packet": {**k, "is_keyframe": bool(v)}}
    textual = b in ("match", "format") or b == "concat" and t == 1
    if v == BAD: return {**d, **rnd.choice([{}, {"value": None}, {"value": [1]}, {"value": 5 if textual else "abc"}])}
    if b == "match": d["value"] = "".join(CH[c] for c in TEXTS[v - 1])
    elif textual: d["value"] = text(v)
    elif b == "switch" and t % 2 == 1 or b in ("gate", "stamp") and t == 1: d["value"] = v
    else: d["value"] = number(v, 1 if b == "calc" else 100)
    return d

  def same(x, y): return repr(x) == repr(y)
  sent = {}
  def decode(d):
    if b in ("gate", "switch", "mswitch", "stamp"):
      for n, (_, p) in sent.items():
        if same(d, p) and not (b == "stamp" and isinstance(p, dict) and "timestamp" in p): return ["d", n, 0, []]
        if b == "stamp" and isinstance(d, dict) and isinstance(p, dict) and "timestamp" in d and "timestamp" in p and same({**d, "timestamp": 0}, {**p, "timestamp": 0}):
          ts = d["timestamp"]
          return ["d", n, unstamp(ts) if not cfg["f"] else (ts - now()) // scale if isinstance(ts, int) and (ts - now()) % scale == 0 else -5555, []]
      return ["?", -1, 0, []]
    if not isinstance(d, dict) or set(d) != {"timestamp", "value"}: return ["?", -2, 0, []]
    v = d["value"]
    try:
      if b == "format": vs = [untext(x) for x in v[1:-1].split("-")] if v[:1] == "{" and v[-1:] == "}" else [-1]
      elif b == "concat": vs = [int(x[1:]) for x in v.split(";")[:-1]]
      elif b == "numtext": vs = [int(round(float(v) * 100))]
      elif b == "timetext": vs = [unstamp(round(datetime.strptime(v, "%Y-%m-%dT%H:%M:%S.%f").replace(tzinfo=timezone.utc).timestamp() * 1000))]
      else: vs = [int(v) if isinstance(v, float) and v == int(v) else -7777]
    except Exception: vs = [-6666]
    return ["g", 0, unstamp(d["timestamp"]), vs]

  async def go():
    a, e = create_queue_connection(raw=sc["raw"])
    link = HeldLink(a)
    client = Client(link)
    task = make(client)
    out, st = [], {"paused": 0}
    async def net():
      while True:
        m = await e.recv()
        if isinstance(m, TopicDataMessage): out.append(decode(m.data.data) if m.topic == O else ["?", -3, 0, []])
        elif isinstance(m, TopicControlMessage): st["paused"] = int(m.paused)
    nt = asyncio.ensure_future(net())
    await task.setup()
    rt = asyncio.ensure_future(task.run())
    await idle(2)
    for o in sc["ops"]:
      try:
        if o["k"] == "hold": link.go.clear()
        elif o["k"] == "free": link.go.set()
        else:
          for m in o["ms"]:
            if m["k"] == "ctl": await e.send(TopicControlMessage(T[o["t"]], bool(m["v"])))
            else:
              p = payload(o["t"], m)
              r = RawData(copy.deepcopy(p))
              sent[m["n"]] = (r, p)
              await e.send(TopicDataMessage(T[o["t"]], r))
      except Exception as x: ev.append({"k": "opfail", "op": o, "why": f"{type(x).__name__}: {x}"[:300]}); return
      await idle(3)
      for x, w in ((rt, "task"), (nt, "net")):
        if x.done(): ev.append({"k": "opfail", "op": o, "why": f"{w} ended {x.exception()!r}"[:300]}); return
      intact = int(all(same(r.data, p) for r, p in list(sent.values())[-40:]))
      ev.append({**o, "obs": {"out": list(out), "paused": st["paused"], "intact": intact}})
      out.clear()
  _, err = run(go, wall=20, patch_time=True)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
