"""Replays network scenarios (operations + delivery schedule) on real switches and records what the end points see."""
import os, sys, random, asyncio
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import Link, Switch, TopicRemappingLink, create_queue_connection, ConnectionClosedError
from streamtasks.net.messages import (TopicDataMessage, TopicControlMessage, AddressedMessage, AddressesChangedMessage,
  InTopicsChangedMessage, OutTopicsChangedMessage, OutTopicsChangedRecvMessage, AddressesChangedRecvMessage, PricedId)
from streamtasks.net.serialization import RawData, serialize_message, deserialize_message


class GateLink(Link):
  """A link whose messages wait in a FIFO until the schedule delivers them."""
  def __init__(self, cost, suspend, raw):
    super().__init__(cost)
    self.chan, self.inbox, self.suspend, self.raw = [], asyncio.Queue(), suspend, raw
  async def _send(self, message):
    if self.suspend: await asyncio.sleep(0)
    self.chan.append(serialize_message(message) if self.raw else message)
    if self.suspend: await asyncio.sleep(0)
  async def _recv(self):
    m = await self.inbox.get()
    return deserialize_message(m) if self.raw else m


def payload(n):
  kinds = [ {"n": n, "s": "x" * (n % 7), "f": n / 4}, {"n": n, "l": [1, "a", None, {"k": b"\x00\xff"}]}, {"n": n, "b": bytes(range(n % 256))},
            {"n": n, "neg": -n, "big": 2**40 + n, "t": True} ]
  return kinds[n % len(kinds)]

class World:
  def __init__(self, sc):
    self.sc = sc
    self.rnd = random.Random(sc.get("seed", 0))
    self.mode = sc.get("mode", "gate")
    self.abase = sc.get("abase", 0xA000)
    self.ev = []
    self.sws = {s: Switch() for s in sc["sw"]}
    for s in sc["sw"]: self.log(k="sw", x=s)
    self.links = {}     # frozenset -> {node: link}
    self.known, self.kaddr, self.req = {}, {}, {}
    self.eps = {}       # e -> link used by the end point
    self.tasks = []
    self.errors = []
    self.rmap = {}
    for e, i, x in sc["cfg"]["rmap"]: self.rmap.setdefault(e, {})[i] = x

  def log(self, **k): self.ev.append(k)

  async def recv_loop(self, e, link):
    known, kaddr, req = self.known[e], self.kaddr[e], self.req[e]
    try:
      while True:
        m = await link.recv()
        if isinstance(m, TopicDataMessage):
          d = m.data.data
          n = d.get("n", -1) if isinstance(d, dict) else -1
          self.log(k="rdata", e=e, t=m.topic, n=n, intact=d == payload(n))
        elif isinstance(m, TopicControlMessage): self.log(k="rctl", e=e, t=m.topic, v=1 if m.paused is True else 0 if m.paused is False else 9)
        elif isinstance(m, AddressedMessage):
          d = m.data.data
          n = d.get("n", -1) if isinstance(d, dict) else -1
          self.log(k="raddr", e=e, a=m.address - self.abase, n=n, port=m.port, intact=d == payload(n))
        elif isinstance(m, InTopicsChangedMessage):
          for t in m.add: req.add(t)
          for t in m.remove: req.discard(t)
        elif isinstance(m, OutTopicsChangedRecvMessage):
          for p in m.remove: known.pop(p.id, None)
          for p in m.add: known[p.id] = p.cost
        elif isinstance(m, AddressesChangedRecvMessage):
          for p in m.remove: kaddr.pop(p.id, None)
          for p in m.add: kaddr[p.id] = p.cost
    except (asyncio.CancelledError, ConnectionClosedError): pass
    except Exception as ex: self.errors.append(f"end point {e} receive: {type(ex).__name__} {ex}")

  def pair(self, cost):
    if self.mode in ("gate", "gateraw", "suspend", "burst"):
      a, b = GateLink(cost, self.mode in ("suspend", "burst"), self.mode == "gateraw"), GateLink(cost, self.mode in ("suspend", "burst"), self.mode == "gateraw")
      a.on_closed.append(b.close)
      b.on_closed.append(a.close)
      return a, b, cost
    a, b = create_queue_connection(raw=self.mode == "raw")
    return a, b, 1

  async def up(self, x, y, c):
    a, b, c = self.pair(c)
    self.log(k="up", x=x, y=y, c=c)
    self.links[frozenset((x, y))] = {x: a, y: b}
    for n, l in ((x, a), (y, b)):
      if n in self.sws: await self.sws[n].add_link(l)
      else:
        if n in self.rmap: l = TopicRemappingLink(l, self.rmap[n])
        self.known[n], self.kaddr[n], self.req[n] = {}, {}, set()
        self.eps[n] = l
        self.tasks.append(asyncio.create_task(self.recv_loop(n, l)))

  def down(self, x, y):
    self.log(k="down", x=x, y=y)
    ls = self.links.pop(frozenset((x, y)))
    # which side closes first varies
    first = self.eps.get(x) or self.eps.get(y)
    if first is None or self.rnd.random() < 0.5: first = ls[x if self.rnd.random() < 0.5 else y]
    first.close()
    for n in (x, y):
      if n in self.eps:
        self.eps.pop(n); self.known.pop(n); self.kaddr.pop(n); self.req.pop(n)

  async def deliver(self, x, y):
    ls = self.links.get(frozenset((x, y)))
    if ls is None or not isinstance(ls[x], GateLink) or not ls[x].chan: return False
    m = ls[x].chan.pop(0)
    if not ls[y].closed: ls[y].inbox.put_nowait(m)
    if self.mode == "burst":    # handlers of different links overlap
      for _ in range(self.rnd.randrange(4)): await asyncio.sleep(0)
    else: await idle()
    return True

  async def drain(self):
    await idle()
    for i in range(4000):
      dirs = [(x, y) for p, ls in self.links.items() for x in ls for y in ls if x != y and isinstance(ls[x], GateLink) and ls[x].chan]
      if not dirs:
        await idle()
        if not any(l.chan for ls in self.links.values() for l in ls.values() if isinstance(l, GateLink)): return True
        continue
      dirs.sort()
      await self.deliver(*self.rnd.choice(dirs))
    return False

  async def settle(self):
    if not await self.drain(): return self.log(k="opfail", why="messages circulate for ever")
    opens = []
    for p, ls in self.links.items():
      if not any(l.closed for l in ls.values()): opens.append(sorted(p))
    self.log(k="settle", known=[[e, t, c] for e in sorted(self.known) for t, c in sorted(self.known[e].items())],
             kaddr=[[e, a - self.abase, c] for e in sorted(self.kaddr) for a, c in sorted(self.kaddr[e].items())],
             req=[[e, t] for e in sorted(self.req) for t in sorted(self.req[e])], open=sorted(opens), errors=list(self.errors))

  async def op(self, o):
    k = o["k"]
    if k == "deliver": return await self.deliver(o["x"], o["y"])
    if k == "settle": return await self.settle()
    if k == "up": return await self.up(o["x"], o["y"], o["c"])
    if k == "down": return self.down(o["x"], o["y"])
    if k == "yield": return await idle()
    self.log(**o)
    link = self.eps[o["e"]]
    msg = {"prov": lambda: OutTopicsChangedMessage({PricedId(o["t"], 0)}, set()),
           "unprov": lambda: OutTopicsChangedMessage(set(), {o["t"]}),
           "resub": lambda: InTopicsChangedMessage(set(o["add"]), set(o["rem"])),
           "reprov": lambda: OutTopicsChangedMessage({PricedId(t, 0) for t in o["add"]}, set(o["rem"])),
           "sub": lambda: InTopicsChangedMessage({o["t"]}, set()),
           "unsub": lambda: InTopicsChangedMessage(set(), {o["t"]}),
           "addr": lambda: AddressesChangedMessage({PricedId(o["a"] + self.abase, 0)}, set()),
           "unaddr": lambda: AddressesChangedMessage(set(), {o["a"] + self.abase}),
           "pub": lambda: TopicDataMessage(o["t"], RawData(payload(o["n"]))),
           "ctl": lambda: TopicControlMessage(o["t"], bool(o["v"])),
           "send": lambda: AddressedMessage(o["a"] + self.abase, o["port"], RawData(payload(o["n"])))}[k]()
    await link.send(msg)

  async def go(self):
    for l in self.sc["links"]: await self.up(*l)
    await self.settle()
    for o in self.sc["ops"]:
      try: await self.op(o)
      except Exception as ex:
        self.log(k="opfail", op=o["k"], why=f"{type(ex).__name__}: {ex}")
        return
    await self.settle()
    for l in [l for ls in self.links.values() for l in ls.values()]: l.close()
    await idle()


def scenario(sc):
  w = {}
  async def go():
    w["w"] = World(sc)
    await w["w"].go()
  _, err = run(go, wall=20)
  ev = w["w"].ev if "w" in w else []
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
