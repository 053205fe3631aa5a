"""Replays Wire scenarios on RawConnectionLink/RawStreamConnection over a fed stream reader and a recording writer."""
import os, sys, random, asyncio, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import ConnectionClosedError
from streamtasks.connection import RawStreamConnection, RawConnectionLink
from streamtasks.net.messages import (TopicDataMessage, TopicControlMessage, AddressedMessage, AddressesChangedMessage,
  InTopicsChangedMessage, OutTopicsChangedMessage, PricedId)
from streamtasks.net.serialization import RawData, serialize_message, deserialize_message
import msgpack

MARK = b"\xb8\x23\xa0\x6f"


class Writer:
  def __init__(self): self.buf, self.gate, self.broken, self.closed = bytearray(), asyncio.Event(), False, False; self.gate.set()
  def write(self, data): self.buf += bytes(data)
  def writelines(self, ds):
    for d in ds: self.write(d)
  async def drain(self):
    if self.broken: raise ConnectionResetError("Connection lost")
    await self.gate.wait()
    if self.broken: raise ConnectionResetError("Connection lost")
  def close(self): self.closed = True
  def is_closing(self): return self.closed
  async def wait_closed(self): pass
  def get_extra_info(self, *_): return None
  def can_write_eof(self): return True
  def write_eof(self): pass
  @property
  def transport(self): return self


def value(rnd, depth=0):
  k = rnd.randrange(12 if depth < 3 else 8)
  if k == 0: return rnd.choice([0, 1, -1, 127, 128, 255, 256, -32, -33, 2**31, 2**32 - 1, 2**32, -2**31 - 1, 2**63, 2**64 - 1, -2**63])
  if k == 1: return rnd.choice(["", "a", "ä€😀", "x" * 31, "x" * 32, "y" * 300, "\x00", "b8 23"])
  if k == 2: return rnd.choice([b"", MARK, MARK + b"\x04\x00\x00\x00abcd", b"\xb8", b"\xb8\x23\xa0", b"\x00" * 300, bytes(range(256)), b"z" * 70000])
  if k == 3: return rnd.choice([0.0, -1.5, 1e300, 3.25])
  if k == 4: return rnd.choice([True, False])
  if k == 5: return None
  if k == 6: return rnd.choice(["t", "timestamp", "value"])
  if k == 7: return rnd.randrange(-100000, 100000)
  if k in (8, 9): return [value(rnd, depth + 1) for _ in range(rnd.choice([0, 1, 2, 3, 16, 20]) if depth < 1 else rnd.randrange(4))]
  return {rnd.choice(["a", "b", "c", "key", "ä", ""]): value(rnd, depth + 1) for _ in range(rnd.choice([0, 1, 3, 17]) if depth < 1 else rnd.randrange(3))}


IDS = [0, 1, 2, 127, 128, 255, 256, 1007, 65535, 65536, 2**32 - 1, 2**31]

def make(rnd, n):
  ids = lambda: set(rnd.sample(IDS, rnd.choice([0, 1, 2, 5])))
  priced = lambda: {PricedId(i, rnd.choice([0, 1, 5, 300, 70000])) for i in ids()}
  i = rnd.choice(IDS)
  k = rnd.randrange(7)
  if k <= 1: c = value(rnd); m = TopicDataMessage(i, RawData({"v": c} if c is None or isinstance(c, bytes) else c))
  elif k == 2: c = value(rnd); m = AddressedMessage(i, rnd.choice([0, 1, 65535, 80]), RawData({"n": n, "c": c}))
  elif k == 3: c = msgpack.packb({"raw": value(rnd)}); m = TopicDataMessage(i, RawData(rnd.choice([bytes, bytearray, memoryview])(c)))
  elif k == 4: m = TopicControlMessage(i, rnd.random() < 0.5)
  elif k == 5: m = InTopicsChangedMessage(ids(), ids())
  else: m = rnd.choice([OutTopicsChangedMessage, AddressesChangedMessage])(priced(), ids())
  return m


def canon(m):
  f = {k: v for k, v in m.__dict__.items()}
  if "data" in f: f["data"] = (typed(f["data"].data), bytes(f["data"].serialize()))
  for k in ("add", "remove"):
    if k in f: f[k] = sorted((p.id, p.cost) if isinstance(p, PricedId) else p for p in f[k])
  return (type(m).__name__, sorted(f.items()))

def typed(v):
  if isinstance(v, (list, tuple)): return [typed(x) for x in v]
  if isinstance(v, dict): return {k: typed(x) for k, x in v.items()}
  if isinstance(v, (bytes, bytearray, memoryview)): return ("bytes", bytes(v))
  return (type(v).__name__, v)


def scenario(sc):
  ev = []
  async def go():
    rnd = random.Random(sc["seed"])
    reader, writer = asyncio.StreamReader(), Writer()
    mode = sc.get("mode", "link")
    out_conn = RawStreamConnection(asyncio.StreamReader(), writer)
    in_conn = RawStreamConnection(reader, Writer())
    if mode == "link":
      out, inn = RawConnectionLink(out_conn, 1), RawConnectionLink(in_conn, 1)
      dec = lambda m: m
      # the link itself filters (un)announcements; one raw receive compares what was on the wire
      do_send, do_recv = (lambda m: out._send(m)), (lambda: inn._recv())
    else:
      do_send, do_recv = (lambda m: out_conn.send(serialize_message(m))), in_conn.recv
      dec = deserialize_message
    sent, sends = {}, {}
    wire = []          # units: bytes
    rt = None          # outstanding receive
    def frame_units(raw):
      assert raw[:4] == MARK
      ln, = struct.unpack("<L", raw[4:8]); body = raw[8:]
      h = rnd.choice([0, ln // 2, max(0, ln - 1), min(1, ln)])
      return [raw[i:i + 1] for i in range(4)] + [raw[4:6], raw[6:8], body[:h], body[h:]]
    def take_written():
      """the frames written since the last call"""
      b = bytes(writer.buf); writer.buf.clear()
      res = []
      while b:
        if b[:4] != MARK or len(b) < 8: raise ValueError("torn frame on the wire")
        ln, = struct.unpack("<L", b[4:8])
        if len(b) < 8 + ln: raise ValueError("torn frame on the wire")
        res.append(b[:8 + ln]); b = b[8 + ln:]
      return res
    def ident(raw, cands):
      c = canon(deserialize_message(raw[8:]))
      return next((n for n in cands if sent[n] == c), 0)
    async def quiet():
      await idle(2)
      o = {"r": "none", "n": 0, "same": True, "s": "", "wrote": [], "left": 0}
      nonlocal rt
      if rt is not None and rt.done():
        if rt.cancelled(): o["r"] = "cancelled"
        elif rt.exception() is not None: o["r"] = "closed" if isinstance(rt.exception(), ConnectionClosedError) else "err " + type(rt.exception()).__name__
        else:
          m = dec(rt.result())
          # content is compared with what was sent as the next message
          nxt = order[len(got)] if len(got) < len(order) else 0
          c = canon(m)
          o.update(r="msg", n=nxt, same=nxt in sent and sent[nxt] == c)
          if not o["same"]: o["n"] = next((n for n in sent if sent[n] == c), nxt)
          got.append(nxt)
        rt = None
      return o
    order, got = [], []
    for op in sc["ops"]:
      k = op["k"]; e = dict(op)
      # the generator did not know which cancelled sends made it to the wire
      if k == "recv" and rt is not None or k == "rcancel" and rt is None or k == "feed" and not wire: continue
      if k == "send":
        n = op["n"]
        m = make(rnd, n); sent[n] = canon(m)
        sends[n] = asyncio.ensure_future(do_send(m))
        o = await quiet()
        t = sends[n]
        o["s"] = "pending" if not t.done() else "cancelled" if t.cancelled() else "ok" if t.exception() is None else "closed" if isinstance(t.exception(), ConnectionClosedError) else "err " + type(t.exception()).__name__
        if writer.broken: writer.buf.clear()
        elif writer.gate.is_set():
          for raw in take_written(): wire += frame_units(raw); order.append(n)
      elif k == "noise":
        wire += [bytes([{0: rnd.choice([0, 1, 0x6f, 0x61, 0xff]) if p != 0 else rnd.choice([0, 0x61, 0xff, 0x22]), 1: 0xb8, 2: 0x23, 3: 0xa0, 4: 0x6f}[p]]) for p in op["p"]]
        o = await quiet()
      elif k in ("feed", "eof"):
        u = e["u"] = min(op["u"], len(wire))
        part, wire = wire[:u], wire[u:]
        if op["k"] == "feed" and sc["seed"] % 3 == 0:      # several wake-ups for one chunk
          for x in part:
            if x: reader.feed_data(x)
            if rnd.random() < 0.4: await asyncio.sleep(0)
        else:
          b = b"".join(part)
          if b: reader.feed_data(b)
        if k == "eof": reader.feed_eof(); wire = []
        o = await quiet()
      elif k == "recv":
        rt = asyncio.ensure_future(do_recv())
        o = await quiet()
      elif k == "rcancel":
        if rt is not None: rt.cancel()
        o = await quiet()
        if o["r"] == "cancelled": o["r"] = "none"
        rt = None
      elif k == "block": writer.gate.clear(); o = await quiet()
      elif k == "unblock":
        pend = [n for n in sorted(sends) if not sends[n].done() or n in cancelled]
        writer.gate.set()
        o = await quiet()
        raws = take_written()
        for raw in raws:
          n = ident(raw, [x for x in pend if x not in o["wrote"]]); o["wrote"].append(n); order.append(n)
          wire += frame_units(raw)
        e["dropped"] = [n for n in cancelled if n not in o["wrote"]]
        o["left"] = sum(1 for n in pend if not sends[n].done())
        cancelled.clear()
      elif k == "scancel":
        sends[op["n"]].cancel(); cancelled.append(op["n"])
        o = await quiet()
      elif k == "wbreak": writer.broken = True; o = await quiet()
      e["obs"] = o
      ev.append(e)
  cancelled = []
  _, err = run(go, wall=15)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
