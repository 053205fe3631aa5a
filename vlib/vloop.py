"""Virtual-time asyncio loop used by the drivers.

* timers never wait: when nothing is runnable the virtual clock jumps to the next timer
* `idle()` resolves when nothing is runnable *without* advancing the clock
* executor jobs (threads) are really waited for before the loop counts as idle
* a scenario that spins or blocks for real is ended by SIGALRM (raises Hang)
"""
import asyncio, selectors, signal, time, heapq


class Hang(KeyboardInterrupt): pass      # asyncio lets it through to run()


class VSelector:
  def __init__(self):
    self._sel = selectors.DefaultSelector()
    self.loop = None

  def select(self, timeout=None):
    if timeout is not None and timeout <= 0: return self._sel.select(0)
    ev = self._sel.select(0)
    if ev: return ev
    lp = self.loop
    while lp.busy_jobs > 0 or lp.real_io > 0 and lp.io_grace > 0:
      if lp.busy_jobs > 0: ev = self._sel.select(0.2)
      else:
        ev = self._sel.select(lp.io_grace)
        if not ev: break
      if ev: return ev
    if lp.idlers:
      f = lp.idlers.pop(0)
      if not f.done(): f.set_result(None)
      return []
    if timeout is None:
      # nothing can ever happen again unless a real fd fires
      if lp.real_io > 0: return self._sel.select(0.2)
      raise Hang("deadlock: nothing runnable")
    lp.vnow += timeout + 1e-9
    return []

  def __getattr__(self, n): return getattr(self._sel, n)


class VLoop(asyncio.SelectorEventLoop):
  def __init__(self):
    self.vnow = 1000.0
    self.idlers = []
    self.busy_jobs = 0
    self.real_io = 0       # >0: real sockets are in use
    self.io_grace = 0.0    # how long to wait for them before the loop counts as idle
    sel = VSelector()
    sel.loop = self
    super().__init__(sel)

  def time(self): return self.vnow

  def run_in_executor(self, executor, func, *args):
    self.busy_jobs += 1
    fut = super().run_in_executor(executor, func, *args)
    def done(_): self.busy_jobs -= 1
    fut.add_done_callback(done)
    return fut


def loop() -> VLoop: return asyncio.get_running_loop()


async def idle(rounds: int = 1):
  for _ in range(rounds):
    lp = asyncio.get_running_loop()
    f = lp.create_future()
    lp.idlers.append(f)
    await f


async def advance(dt: float):
  await asyncio.sleep(dt)
  await idle()


class Outcome:
  """Result of trying to run a coroutine to completion without advancing time."""
  def __init__(self, task): self.task = task
  @property
  def state(self):
    if not self.task.done(): return "pending"
    if self.task.cancelled(): return "cancelled"
    if self.task.exception() is not None: return "exc"
    return "ok"
  @property
  def value(self): return self.task.result() if self.state == "ok" else None
  @property
  def exc(self):
    if self.state == "exc":
      e = self.task.exception()
      return type(e).__name__ + ": " + str(e)[:200]
    return ""


async def attempt(coro) -> Outcome:
  t = asyncio.ensure_future(coro)
  await idle()
  return Outcome(t)


async def attempt_for(coro, limit: float) -> Outcome:
  """Run it, letting virtual time pass up to `limit` seconds."""
  t = asyncio.ensure_future(coro)
  await idle()
  if not t.done(): await asyncio.wait([t], timeout=limit)
  await idle()
  return Outcome(t)


def _alarm(*_): raise Hang("wall-clock limit")


def run(make_coro, wall: float = 15.0, patch_time: bool = False, loop_cls=None):
  """Run make_coro() in a fresh virtual loop. Returns (result, error_string)."""
  lp = (loop_cls or VLoop)()
  asyncio.set_event_loop(lp)
  errors = []
  lp.set_exception_handler(lambda l, c: errors.append(str(c.get("exception") or c.get("message"))))
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, wall, 2)
  saved = (time.time, time.time_ns)
  if patch_time:
    time.time = lambda: 1_000_000.0 + lp.vnow
    time.time_ns = lambda: int((1_000_000.0 + lp.vnow) * 1e9)
  try:
    main = lp.create_task(make_coro())
    try: return lp.run_until_complete(main), ""
    except Hang as e: return None, "hang: " + str(e)
    except BaseException as e:
      import traceback
      return None, "exc: " + type(e).__name__ + ": " + str(e)[:300] + " @ " + "".join(traceback.format_tb(e.__traceback__)[-2:])[-400:]
  finally:
    time.time, time.time_ns = saved
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)
    try:
      signal.signal(signal.SIGALRM, _alarm)
      signal.setitimer(signal.ITIMER_REAL, 5, 2)
      try: _cleanup(lp)
      except BaseException: pass
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0)
    asyncio.set_event_loop(None)


def _cleanup(lp):
  for _ in range(5):
    ts = [t for t in asyncio.all_tasks(lp) if not t.done()]
    if not ts: break
    for t in ts: t.cancel()
    async def w(): await asyncio.wait(ts, timeout=5)
    lp.run_until_complete(w())
  lp.run_until_complete(lp.shutdown_asyncgens())
  lp.close()
