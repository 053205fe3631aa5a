"""The discovery service through real clients."""
import os, sys, random, asyncio
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.net import Switch, create_queue_connection
from streamtasks.client import Client
from streamtasks.client.receiver import Receiver, TopicsReceiver
from streamtasks.client.fetch import FetchError
from streamtasks.client.discovery import *
from streamtasks.client.discovery import address_name_context, wait_for_address_name
from streamtasks.net.messages import AddressedMessage
from streamtasks.net.serialization import RawData
from streamtasks.services.discovery import DiscoveryWorker


class Catch(Receiver):
  def __init__(self, client, sink, a): super().__init__(client); self.sink, self.a = sink, a
  def on_message(self, m):
    if isinstance(m, AddressedMessage) and m.port == 55: self.sink.append(self.a)


def scenario(sc):
  rnd = random.Random(sc["seed"])
  ev = []
  async def go():
    disc = DiscoveryWorker()
    dt = asyncio.ensure_future(disc.run())
    await idle(2)
    sw2 = Switch()
    x, y = create_queue_connection(raw=rnd.random() < 0.5)
    await disc.switch.add_link(x); await sw2.add_link(y)
    async def client(addr):
      a, b = create_queue_connection(raw=rnd.random() < 0.4)
      await rnd.choice([disc.switch, sw2]).add_link(a)
      c = Client(b); c.start()
      if addr is not None: await c.set_address(addr)
      if rnd.random() < 0.5: await TopicsReceiver(c, []).start_recv()
      return c
    C = {1: await client(501), 2: await client(502), 3: await client(None), 4: await client(None)}
    hits = []
    A = {1: 901, 2: 902 if any(o["k"] == "send" for o in sc["ops"]) else 0, 3: 903}
    for a in A.values():
      if a:
        c = await client(a)
        await Catch(c, hits, a).start_recv()
    inv = {v: k for k, v in A.items()}
    names = rnd.choice([{1: "alpha", 2: "beta"}, {1: "a", 2: "a/b"}, {1: "ü", 2: "x" * 300}])
    bad = ["1abc", "a:b", ":", "9"]
    await idle(3)
    waits, ctxs, sids = {}, {}, []
    async def ids(r, obs):
      c = C[r["c"]]
      try:
        if r["kind"] == "t": res = await c.request_topic_ids(r["n"], apply=rnd.random() < 0.3)
        elif r["kind"] == "own": res = [await c.request_address()]
        else: res = await request_addresses(c, r["n"])
        obs["got"].append([r["id"], list(res)])
      except Exception as e: obs["err"].append([r["id"], str(e)[:100]])
    async def code(coro, obs):
      try:
        r = await coro
        obs["code"] = "ok"
        return r
      except FetchError as e: obs["code"] = e.status_code.value if e.status_code else "?"
    for o in sc["ops"]:
      k = o["k"]
      obs = {"got": [], "err": [], "addr": 0, "done": [], "sid": 0, "map": [], "tid": 0, "code": ""}
      try:
        c = C.get(o.get("c"))
        if k == "ids":
          ts = [asyncio.ensure_future(ids(r, obs)) for r in o["rs"]]
          if any(r["n"] < 0 for r in o["rs"]) and rnd.random() < 0.5:
            # not through the client's own validation
            ts[0].cancel(); r = o["rs"][0]
            async def raw(r=r):
              try: await C[1].fetch(0, "request_topics" if r["kind"] == "t" else "request_addresses", {"count": r["n"]})
              except FetchError: obs["err"].append([r["id"], "refused"])
            ts[0] = asyncio.ensure_future(raw())
          await idle(3)
          for t in ts:
            if t.done() and t.exception(): raise t.exception()
        elif k == "reg":
          n = names[o["n"]] if o["ok"] else rnd.choice(bad)
          t = asyncio.ensure_future(code(c.fetch(0, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, {"address_name": n, "address": A[o["a"]]}), obs))
        elif k == "enter":
          ctxs[o["id"]] = address_name_context(c, names[o["n"]], A[o["a"]])
          t = asyncio.ensure_future(ctxs[o["id"]].__aenter__())
          await idle(3); t.result()
        elif k == "exit": await ctxs[o["id"]].__aexit__(None, None, None)
        elif k == "resolve":
          t = asyncio.ensure_future(c.resolve_address_name(names[o["n"]]))
          await idle(3); r = t.result()
          obs["addr"] = 0 if r is None else inv.get(r, -1)
        elif k == "send":
          t = asyncio.ensure_future(c.send_to((names[o["n"]], 55), RawData("x")))
          await idle(3); t.result()
          obs["addr"] = 0 if not hits else inv[hits[0]] if len(hits) == 1 else -1
          hits.clear()
        elif k == "wait": waits[o["id"]] = asyncio.ensure_future(wait_for_address_name(c, names[o["n"]]))
        elif k == "create":
          t = asyncio.ensure_future(register_topic_space(c, set(o["ts"])))
          await idle(3); sid, m = t.result()
          sids.append(sid); obs["sid"] = sid; obs["map"] = [[a, b] for a, b in m.items()]
        elif k in ("space", "trans", "delete"):
          sid = sids[o["s"] - 1] if o["s"] <= len(sids) else rnd.choice([0, 10 ** 6, -1])
          t = asyncio.ensure_future(code(get_topic_space(c, sid) if k == "space" else delete_topic_space(c, sid) if k == "delete" else get_topic_space_translation(c, sid, o["t"]), obs))
          await idle(3); r = t.result()
          if obs["code"] == "ok" and k == "space": obs["map"] = [[a, b] for a, b in r.items()]
          if obs["code"] == "ok" and k == "trans": obs["tid"] = r
      except BaseException as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      await idle(3)
      for w in [w for w, t in waits.items() if t.done()]: obs["done"].append([w, inv.get(waits.pop(w).result(), -1)])
      ev.append({**o, "obs": obs})
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
