"""Routing of web requests."""
import os, sys, random, asyncio, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.asgiserver import ASGIServer, ASGIRouter, HTTPContext, http_context_handler, transport_context_handler, websocket_context_handler, path_rewrite_handler, WebsocketContext
from streamtasks.asgi import asgi_default_http_error_handler

class Boom(Exception): pass

def scenario(sc):
  rnd = random.Random(sc["seed"])
  ev = []
  async def go():
    app = ASGIServer()
    if sc["cfg"]["err"]: app.add_handler(asgi_default_http_error_handler)
    R = [ASGIRouter(), ASGIRouter(), ASGIRouter()]
    app.add_handler(R[0])
    n = 0
    def make(hid, beh):
      async def body(ctx):
        log = ctx.scope["extensions"]["log"]
        log.append({"hid": hid, "params": [[k, list(v)] for k, v in ctx.params.items()], "path": list(ctx.path)})
        for _ in range(rnd.choice([0, 1, 3])): await asyncio.sleep(0)
        if log[-1]["params"] != [[k, list(v)] for k, v in ctx.params.items()]: log.append({"hid": -1, "params": [], "path": []})
        if beh == "value": raise ValueError("bad")
        if beh == "key": raise KeyError("missing")
        if beh == "boom": raise Boom("boom")
        if beh == "next": return await ctx.next()
        if isinstance(ctx, HTTPContext):
          c = rnd.random()
          if c < 0.3: await ctx.respond_json({"hid": hid})
          elif c < 0.6:
            w = await ctx.respond(200, headers=[(b"content-length", b"4")])
            w.write(b"ab"); await w.flush(); w.write(b"cd"); await w.close()
          else: await ctx.respond_text("käse", status=200)
        else:
          await ctx.accept()
          await ctx.send_message("hello")
          await ctx.close()
      h = transport_context_handler(body)
      if beh == "rewrite": h = path_rewrite_handler("/r/{z*}")(h)
      return h
    async def request(q):
      log, out = [], []
      scope = {"type": "http" if q["type"] == "http" else "websocket", "method": q["m"], "path": "".join(q["path"]), "raw_path": "".join(q["path"]).encode(), "query_string": b"",
               "headers": [(b"host", b"x")], "extensions": {"log": log}, "scheme": "http", "root_path": "", "http_version": "1.1"}
      if q["type"] == "ws": del scope["method"]; scope["subprotocols"] = []
      if rnd.random() < 0.4: scope["state"] = {}
      evs = [{"type": "http.request", "body": b"", "more_body": False}] if q["type"] == "http" else [{"type": "websocket.connect"}]
      async def receive():
        if evs: return evs.pop(0)
        return await asyncio.Future()
      async def send(e): out.append(e)
      t = asyncio.ensure_future(app(scope, receive, send))
      await idle(2)
      if not t.done(): t.cancel(); return {"status": -1, "hid": 0, "params": [], "path": [], "wf": False}
      t.result()
      if q["type"] == "http":
        wf = len(out) >= 2 and out[0]["type"] == "http.response.start" and all(e["type"] == "http.response.body" and e.get("more_body", False) == (i < len(out) - 2) for i, e in enumerate(out[1:]))
        if wf:
          cl = [v for k, v in out[0]["headers"] if k == b"content-length"]
          wf = cl == [str(sum(len(e["body"]) for e in out[1:])).encode()]
        status = out[0].get("status", -1) if out else -1
      else:
        ts = [e["type"] for e in out]
        acc = ts == ["websocket.accept", "websocket.send", "websocket.close"]
        wf = acc or ts == ["websocket.close"]
        status = 200 if acc else 500 if wf and out[-1]["code"] == 1011 else 404 if wf else -1
      if len(log) > 1: return {"status": status, "hid": -1, "params": [], "path": [], "wf": wf}
      return {"status": status, "hid": 0, "params": [], "path": [], "wf": wf, **(log[0] if log else {})}
    for o in sc["ops"]:
      k, obs = o["k"], []
      try:
        if k == "nest": R[0].add_handler(R[1])
        elif k == "mount": R[0].add_transport_route(path_rewrite_handler("/{z*}")(R[2]), "".join(o["pat"]))
        elif k == "add":
          n += 1
          r, pat, h = R[o["r"]], "".join(o["pat"]), make(n, o["beh"])
          if o["kind"] == "ws": r.websocket_route(pat)(h)
          elif o["kind"] == "any": r.transport_route(pat)(h)
          elif len(o["ms"]) == 1 and rnd.random() < 0.5: getattr(r, o["ms"][0].lower())(pat)(h)
          else: r.add_http_route(h, pat, [rnd.choice([m, m.lower()]) for m in o["ms"]])
        else: obs = list(await asyncio.gather(*(request(q) for q in o["qs"])))
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      ev.append({**o, "obs": obs})
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  return ev

if __name__ == "__main__": main(scenario)
