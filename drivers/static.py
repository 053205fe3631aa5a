"""Static files: a published directory in a scratch directory; requests only read."""
import os, sys, random, asyncio, tempfile, shutil, pathlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.driver import main
from vlib.vloop import run, idle
from streamtasks.asgiserver import ASGIServer, ASGIRouter, static_files_handler

DIRS = {0: ".", 1: "pub", 2: "pub/sub", 3: "pub/sub/deep", 4: "pubx", 5: "pub/d.html"}

def scenario(sc):
  rnd = random.Random(sc["seed"])
  ev, size = [], {}
  top = os.path.realpath(tempfile.mkdtemp(prefix="vstatic", dir=os.getcwd()))
  def content(v): return (f"<{v}>" * (1 + v % 5)).encode()
  def put(path, v):
    if os.path.islink(path): os.unlink(path)
    with open(path, "wb") as f: f.write(content(v))
  async def go():
    for d in (1, 4, 2, 3, 5): os.mkdir(os.path.join(top, DIRS[d]))
    put(os.path.join(top, "secret.txt"), 1); put(os.path.join(top, "pub/a.txt"), 2)
    app = ASGIServer()
    pub = os.path.join(top, "pub")
    if sc["seed"] % 3 == 0: pub = os.path.join(top, "pub", "sub", "..")
    if sc["seed"] % 3 == 1: pub = pathlib.Path(pub)
    h = static_files_handler(pub, ["index.html", "index.txt"], **({"response_buffer_size": rnd.choice([1, 4, 7])} if sc["seed"] % 2 else {}))
    if sc["seed"] % 4 < 2: app.add_handler(h)
    else:
      r = ASGIRouter(); r.add_handler(h); app.add_handler(r)
    n = 2
    for o in sc["ops"]:
      k, obs = o["k"], 0
      try:
        name = lambda d, s: os.path.join(top, DIRS[d], s)
        if k == "put":
          n += 1; put(name(o["d"], o["s"]), n)
        elif k == "link":
          p = name(o["d"], o["s"])
          if os.path.lexists(p): os.unlink(p)
          t = name(o["to"], o["ts"]) if o["ts"] else os.path.join(top, DIRS[o["to"]])
          os.symlink(t if rnd.random() < 0.5 else os.path.relpath(t, os.path.dirname(p)), p)
        elif k == "del": os.unlink(name(o["d"], o["s"]))
        elif k == "get":
          path = rnd.choice(["/", "//", "/", "\\", ""]) + "/".join({"long": "x" * 300, "nul": "nul\0"}.get(s, s) for s in o["p"])
          out = []
          async def receive(): return {"type": "http.request", "body": b"", "more_body": False}
          async def send(e): out.append(e)
          scope = {"type": "http", "method": "GET", "path": path, "raw_path": b"", "query_string": b"", "headers": [], "scheme": "http", "root_path": "", "http_version": "1.1"}
          t = asyncio.ensure_future(app(scope, receive, send))
          await idle(2)
          t.result()
          st = out[0]["status"]
          body = b"".join(e["body"] for e in out[1:])
          cl = [v for a, v in out[0]["headers"] if a == b"content-length"]
          wf = cl == [str(len(body)).encode()] and all(e["type"] == "http.response.body" and e.get("more_body", False) == (i < len(out) - 2) for i, e in enumerate(out[1:])) and len(out) > 1
          v = 0 if st == 404 else next((x for x in range(1, n + 1) if content(x) == body), -1) if st == 200 else -st
          obs = {"v": v, "wf": wf}
      except Exception as e:
        ev.append({"k": "opfail", "op": o, "why": f"{type(e).__name__}: {e}"[:300]}); return
      ev.append({**o, "obs": obs})
  _, err = run(go, wall=20)
  if err: ev.append({"k": "opfail", "why": err})
  shutil.rmtree(top, ignore_errors=True)
  return ev

if __name__ == "__main__": main(scenario)
