"""Shared producers and their consumers (streamtasks/utils.py)."""
import os, sys, asyncio, queue, threading, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib import vloop
from vlib.vloop import run, idle
from streamtasks.utils import AsyncProducer, AsyncMPProducer, AsyncConsumer

class Boom(Exception): pass

class Base:
  def setup(self, slow):
    self.slow, self.active, self.most = slow, 0, 0
  def begin(self): self.active += 1; self.most = max(self.most, self.active)
  def end(self): self.active -= 1
  def do(self, cmd):
    k, items = cmd
    for i in items: self.send_message(i)
    if k == "eof": raise EOFError()
    if k == "fail": raise Boom("producer failed")

class Plain(Base, AsyncProducer):
  def __init__(self, slow):
    AsyncProducer.__init__(self); self.setup(slow); self.cmds = asyncio.Queue(); self.rel = asyncio.Event()
  async def run(self):
    self.begin()
    try:
      while True: self.do(await self.cmds.get())
    except asyncio.CancelledError:
      while self.slow and not self.rel.is_set():
        try: await self.rel.wait()
        except asyncio.CancelledError: pass
      self.rel.clear()
      raise
    finally: self.end()
  def cmd(self, c): self.cmds.put_nowait(c)
  def release(self): self.rel.set()
  def busy(self): return False

class MP(Base, AsyncMPProducer):
  def __init__(self, slow):
    AsyncMPProducer.__init__(self); self.setup(slow); self.cmds = queue.Queue(); self.rel = threading.Event(); self.jobs = 0; self.working = False
  def run_sync(self):
    self.begin(); self.poke()
    try:
      while not self.stop_event.is_set():
        try: c = self.cmds.get(timeout=0.0005)
        except queue.Empty: continue
        self.do(c)
        self.working = False; self.poke()
      if self.slow: self.rel.wait(); self.rel.clear()
    finally: self.working = False; self.end()
  def poke(self): self._loop.call_soon_threadsafe(lambda: None)
  def cmd(self, c): self.working = True; self.cmds.put(c)
  def release(self): self.rel.set()
  def busy(self): return self.jobs > 0 and (self.working or self.active == 0 or self.stop_event.is_set() and (not self.slow or self.rel.is_set()))

class Loop(vloop.VLoop):
  prod = None
  @property
  def busy_jobs(self): return int(self.prod is not None and self.prod.busy())
  @busy_jobs.setter
  def busy_jobs(self, v): pass
  def run_in_executor(self, executor, func, *args):
    p = self.prod
    p.jobs += 1
    f = super().run_in_executor(executor, func, *args)
    def done(_): p.jobs -= 1
    f.add_done_callback(done)
    return f

class Cons(AsyncConsumer):
  def __init__(self, p, c): super().__init__(p); self.c = c
  def test_message(self, m): return self.c == 1 or m % 2 == (self.c == 2)

def scenario(sc):
  ev = []
  async def go():
    cfg = sc["cfg"]
    P = (MP if cfg["mp"] else Plain)(cfg["slow"])
    asyncio.get_running_loop().prod = P
    cons = {c: Cons(P, c) for c in (1, 2, 3)}
    gets, lag, n = {}, [], 0
    async def get(c):
      try: return ["item", await cons[c].get()]
      except (EOFError, Boom): return ["eof", 0]
    async def quiet(co):
      try: await co
      except (EOFError, Boom): pass
    for o in sc["ops"]:
      k, refused = o["k"], False
      P.most = P.active
      try:
        if k == "reg": cons[o["c"]].register()
        elif k == "unreg": cons[o["c"]].unregister()
        elif k == "get": gets[len(gets) + 1] = asyncio.ensure_future(get(o["c"]))
        elif k == "giveup": gets[o["g"]].cancel()
        elif k == "enter":
          t = asyncio.ensure_future(P.__aenter__())
          await idle()
          if not t.done(): lag.append(asyncio.ensure_future(quiet(t)))
          else:
            try: t.result()
            except EOFError: refused = True
        elif k == "exit": lag.append(asyncio.ensure_future(quiet(P.__aexit__(None, None, None))))
        elif k == "blip":
          async def blip():
            async with P:
              for _ in range(o["j"]): await asyncio.sleep(0)
          lag.append(asyncio.ensure_future(quiet(blip())))
        elif k == "peek":
          t = asyncio.ensure_future(get(o["c"]))
          for _ in range(o["j"]): await asyncio.sleep(0)
          t.cancel()
        elif k == "swap":
          a, b = quiet(P.__aexit__(None, None, None)), quiet(P.__aenter__())
          lag.append(asyncio.ensure_future(b if o["j"] % 2 else a))
          if o["j"] > 1: await asyncio.sleep(0)
          lag.append(asyncio.ensure_future(a if o["j"] % 2 else b))
        elif k == "emit" or k == "eof" or k == "fail":
          P.cmd((k, list(range(n + 1, n + 1 + o["m"])))); n += o["m"]
        elif k == "close": lag.append(asyncio.ensure_future(quiet(P.close())))
        elif k == "release": P.release()
        await idle(2)
        lag = [t for t in lag if not t.done() or t.result()]
        done = []
        for g, t in gets.items():
          if t is not None and t.done():
            gets[g] = None
            if t.cancelled(): continue
            done.append([g, *t.result()])
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      ev.append({**o, "obs": {"running": P.active > 0, "runs": P.most, "done": done, "refused": refused, "lag": len(lag)}})
    P.slow = False; P.release()
  _, err = run(go, wall=20, loop_cls=Loop)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
