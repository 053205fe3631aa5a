"""Groups of background tasks (AsyncTaskManager)."""
import os, sys, asyncio, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle, advance
from streamtasks.utils import AsyncTaskManager

def scenario(sc):
  ev = []
  async def go():
    m = AsyncTaskManager(**({"default_frozen": True} if sc["seed"] % 3 == 0 else {}))
    tasks, ends, got = {}, {}, []
    async def body(i, mode, p2):
      while True:
        try:
          if await asyncio.shield(ends[i]) == "fail": raise ValueError("task failed")
          return
        except asyncio.CancelledError:
          got.append(i)
          if mode == "hold": continue
          if mode in ("res1", "res2"): mode = {"res1": "end", "res2": "res1"}[mode]; continue
          if mode == "err": raise ValueError("error while being cancelled")
          if mode == "spawn" and len(tasks) < 8: create("end", p2, 0)
          raise
    def create(mode, p, p2):
      i = len(tasks) + 1
      ends[i] = asyncio.get_running_loop().create_future()
      tasks[i] = m.create(body(i, mode, p2), p) if p or sc["seed"] % 2 else m.create(body(i, mode, p2))
    ca = wt = None
    for o in sc["ops"]:
      k = o["k"]; got.clear()
      try:
        if k == "create": create(o["m"], o["p"], o["p2"])
        elif k in ("finish", "fail"): ends[o["i"]].set_result(k)
        elif k == "cancel": ca = asyncio.ensure_future(m.cancel_all(timeout=1) if sc["seed"] % 2 else m.cancel_all("bye", 1))
        elif k == "wait": wt = asyncio.ensure_future(m.wait())
        elif k == "giveup": wt.cancel(); ca, wt = wt, None
        elif k == "tick": await advance(1.000001)
        await idle(2)
        if ca is not None and ca.done(): ca.result(); ca = None
        if wt is not None and wt.done(): wt.result(); wt = None
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      ev.append({**o, "obs": {"over": [i for i, t in tasks.items() if t.done()], "got": list(dict.fromkeys(got)), "busy": ca is not None, "waiting": wt is not None}})
    for f in ends.values():
      if not f.done(): f.set_result("finish")
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
