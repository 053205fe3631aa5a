"""TLC runners, driver runner, verdicts, evidence."""
import json, os, re, subprocess, sys, tempfile, time, shutil, random
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.environ.get("SUT_REPO", "/repo")
CPUS = min(8, os.cpu_count() or 2)


class MachineryError(Exception): pass


def jstr(s): return json.dumps(s)


class Work:
  def __enter__(self):
    self.dir = tempfile.mkdtemp(prefix="verif-")
    return self
  def __exit__(self, *_): shutil.rmtree(self.dir, ignore_errors=True)
  def path(self, *p): return os.path.join(self.dir, *p)


def run_tlc(work: Work, name: str, module_text: str, cfg_text: str, args=(), env=None, workers=4, heap="3g", timeout=800):
  d = work.path(name)
  os.makedirs(d, exist_ok=True)
  for f in os.listdir(SPEC):
    if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
  with open(os.path.join(d, name + ".tla"), "w") as f: f.write(module_text)
  with open(os.path.join(d, name + ".cfg"), "w") as f: f.write(cfg_text)
  cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
         "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-config", name + ".cfg", "-noGenerateSpecTE", *args, name + ".tla"]
  e = dict(os.environ); e.update(env or {})
  try:
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
  except subprocess.TimeoutExpired as ex:
    raise MachineryError(f"TLC {name} timed out after {timeout}s")
  return p.returncode, p.stdout


def _counts(out):
  m = None
  for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out): pass
  if m is None: return 0, 0
  return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def _unq(line, tag):
  # PrintT of a string prints it quoted with escapes
  s = line.strip()
  if s.startswith('"') and s.endswith('"'):
    s = s[1:-1].replace('\\"', '"').replace("\\\\", "\\")
  return s[len(tag):] if s.startswith(tag) else None


MC = """---- MODULE {name} ----
EXTENDS {area}, Json
VARIABLE st
MCInit == \\E c \\in {cfgs} : st = Init0(c)
MCNext == \\E op \\in Ops(st) : st' = Apply(st, op) {edge}
MCSpec == MCInit /\\ [][MCNext]_st
MCInv == Inv(st)
MCStep == [][\\A op \\in {{}} : TRUE]_st
{extra}
====
"""


def mc(work, area, cfgs="Cfgs", constants="", constraint="", extra="", invs=("MCInv",), props=(), edges=False, name=None, workers=CPUS, timeout=800):
  """Exhaustive run of Init0/Ops/Apply with Inv. Returns dict(states, transitions, edges)."""
  name = name or ("MC_" + area)
  edge = '/\\ PrintT("EDGE " \\o ToJson(<<st, op, st\'>>))' if edges else ""
  mod = MC.format(name=name, area=area, cfgs=cfgs, edge=edge, extra=extra)
  cfg = "SPECIFICATION MCSpec\n" + "".join(f"INVARIANT {i}\n" for i in invs) + "".join(f"PROPERTY {p}\n" for p in props)
  if constraint: cfg += f"CONSTRAINT {constraint}\n"
  cfg += "CHECK_DEADLOCK FALSE\n" + constants
  rc, out = run_tlc(work, name, mod, cfg, workers=1 if edges else workers, timeout=timeout)
  if "Model checking completed. No error has been found" not in out:
    raise MachineryError(f"model checking of {area} failed:\n" + out[-int(os.environ.get("TLCTAIL","4000")):])
  gen, dist = _counts(out)
  res = {"states": dist, "transitions": gen}
  if edges:
    es = []
    for line in out.splitlines():
      s = _unq(line, "EDGE ")
      if s is not None: es.append(json.loads(s))
    res["edges"] = es
  return res


def tlc_module(work, name, cfg_text, constants="", workers=CPUS, timeout=800, args=(), env=None, module_text=None):
  """Exhaustive run of a stand-alone module in spec/ (already has its own Spec)."""
  text = module_text or open(os.path.join(SPEC, name + ".tla")).read()
  rc, out = run_tlc(work, name, text, cfg_text, workers=workers, timeout=timeout, args=args, env=env)
  if "Model checking completed. No error has been found" not in out:
    raise MachineryError(f"model checking of {name} failed:\n" + out[-6000:])
  gen, dist = _counts(out)
  return {"states": dist, "transitions": gen, "out": out}


GEN = """---- MODULE {name} ----
EXTENDS {area}, Json
VARIABLES st, hist, cfg0
GInit == \\E c \\in {cfgs} : st = Init0(c) /\\ hist = <<>> /\\ cfg0 = c
GNext == \\E op \\in {ops} : st' = Apply(st, op) /\\ hist' = Append(hist, op) /\\ UNCHANGED cfg0
GSpec == GInit /\\ [][GNext]_<<st, hist, cfg0>>
GInv == Inv(st)
GPrint == (Len(hist) = {depth}) => PrintT("SCN " \\o ToJson([cfg |-> cfg0, ops |-> hist]))
{extra}
====
"""


def gen(work, area, num, depth, seed, cfgs="Cfgs", ops="Ops(st)", constants="", extra="", name=None, timeout=300, again=3):
  """Random behaviours of the spec, as op sequences (TLC -simulate)."""
  name = name or ("G_" + area)
  mod = GEN.format(name=name, area=area, cfgs=cfgs, ops=ops, depth=depth, extra=extra)
  cfg = "SPECIFICATION GSpec\nINVARIANT GInv\nINVARIANT GPrint\nCHECK_DEADLOCK FALSE\n" + constants
  rc, out = run_tlc(work, name, mod, cfg, args=["-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(seed)], workers=1, timeout=timeout)
  if "Error:" in out: raise MachineryError(f"generation from {area} failed:\n" + out[-int(os.environ.get("TLCTAIL","4000")):])
  scs = []
  for line in out.splitlines():
    s = _unq(line, "SCN ")
    if s is not None: scs.append(json.loads(s))
  # TLC also prints the alternatives of the last step: one per behaviour
  last = {}
  for s in scs: last[json.dumps([s["cfg"], s["ops"][:-1]], sort_keys=True)] = s
  scs = list(last.values())
  if not scs: raise MachineryError(f"no scenarios from {area}:\n" + out[-3000:])
  # for a few seeds all random choices of TLC repeat
  if again and len(scs) < num / 2 and depth > 5: return gen(work, area, num, depth, seed + 7919, cfgs, ops, constants, extra, name + "_", timeout, again - 1)
  return scs


def walks(edges, seed, maxlen=60, cap=None):
  """Cover every edge of an explored state graph by walks from the initial states."""
  rnd = random.Random(seed)
  key = lambda s: json.dumps(s, sort_keys=True)
  adj, targets = {}, set()
  inits = []
  for s, op, t in edges:
    ks, kt = key(s), key(t)
    adj.setdefault(ks, []).append([op, kt, False])
    targets.add(kt)
  first = key(edges[0][0])
  srcs = [k for k in adj if k not in targets] or [first]
  if first not in srcs: srcs.insert(0, first)
  # bfs tree helper: nearest state with an uncovered edge
  left = sum(len(v) for v in adj.values())
  out = []
  def nearest(frm):
    from collections import deque
    q = deque([frm]); par = {frm: None}
    while q:
      u = q.popleft()
      if any(not e[2] for e in adj.get(u, [])):
        path = []
        while par[u] is not None:
          p, op = par[u]; path.append((op, u)); u = p
        return list(reversed(path))
      for e in adj.get(u, []):
        if e[1] not in par: par[e[1]] = (u, e[0]); q.append(e[1])
    return None
  for src in srcs:
    while left > 0:
      cur, ops = src, []
      while len(ops) < maxlen:
        un = [e for e in adj.get(cur, []) if not e[2]]
        if un:
          e = rnd.choice(un); e[2] = True; left -= 1
          ops.append(e[0]); cur = e[1]; continue
        path = nearest(cur)
        if path is None or len(ops) + len(path) + 1 > maxlen and ops: break
        for op, to in path: ops.append(op); cur = to
      if not ops: break
      out.append((json.loads(src), ops))
      if cap and len(out) >= cap: return out
  return out


TRACE = """---- MODULE {name} ----
EXTENDS {area}, Json, IOUtils
TrLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, st
TInit == \\E i \\in 1..Len(TrLog) : tr = i /\\ l = 1 /\\ st = Init0(TrLog[i].cfg)
TNext == /\\ l <= Len(TrLog[tr].ev)
         /\\ LET e == TrLog[tr].ev[l]
                bad == IF e.k = "crash" THEN {{"crash"}} ELSE Check(st, e)
            IN IF bad = {{}}
               THEN /\\ st' = Apply(st, e) /\\ l' = l + 1 /\\ UNCHANGED tr
                    /\\ (l = Len(TrLog[tr].ev)) => PrintT("ACC " \\o ToString(tr))
               ELSE /\\ PrintT("REJ " \\o ToJson(<<tr, l, bad>>)) /\\ l' = Len(TrLog[tr].ev) + 1 /\\ UNCHANGED <<tr, st>>
TSpec == TInit /\\ [][TNext]_<<tr, l, st>>
{extra}
====
"""


def validate(work, area, trace_file, constants="", extra="", name=None, workers=CPUS, timeout=800):
  """Check every recorded trace against the spec. Returns (n, accepted, [rejections])."""
  name = name or ("T_" + area)
  n = sum(1 for _ in open(trace_file))
  mod = TRACE.format(name=name, area=area, extra=extra)
  cfg = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n" + constants
  rc, out = run_tlc(work, name, mod, cfg, env={"TRACE": trace_file}, workers=workers, timeout=timeout)
  acc, rej = set(), {}
  for line in out.splitlines():
    s = line.strip()
    a = _unq(s, "ACC ")
    if a is not None: acc.add(int(a)); continue
    r = _unq(s, "REJ ")
    if r is not None:
      tr, l, bad = json.loads(r)
      rej[tr] = (l, bad)
  if "Model checking completed. No error has been found" not in out or len(acc) + len(rej) != n:
    raise MachineryError(f"trace validation {area}: {len(acc)} accepted + {len(rej)} rejected of {n}\n" + out[-5000:])
  gen_, dist = _counts(out)
  return {"n": n, "accepted": len(acc), "rejected": rej, "states": dist, "transitions": gen_}


def drive(work, driver, scenarios, parts=CPUS, timeout=600, env=None, tag=""):
  """Run the scenarios on the real code; returns path of the merged trace file."""
  scs = []
  for i, s in enumerate(scenarios):
    s = dict(s); s["id"] = i + 1; scs.append(s)
  parts = max(1, min(parts, len(scs)))
  chunks = [scs[i::parts] for i in range(parts)]
  e = dict(os.environ)
  e.update({"PYTHONPATH": REPO + ":" + ROOT, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "SUT_REPO": REPO})
  e.update(env or {})
  def one(i):
    src, dst = work.path(f"{driver}{tag}.{i}.in"), work.path(f"{driver}{tag}.{i}.out")
    with open(src, "w") as f:
      for s in chunks[i]: f.write(json.dumps(s) + "\n")
    try:
      p = subprocess.run([PY, os.path.join(ROOT, "drivers", driver + ".py"), src, dst], env=e, cwd=work.dir,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
      tail = p.stdout[-1500:]
    except subprocess.TimeoutExpired as ex: tail = "driver timed out"
    got = {}
    if os.path.exists(dst):
      for line in open(dst):
        try: t = json.loads(line); got[t["id"]] = t
        except ValueError: pass
    missing = [s for s in chunks[i] if s["id"] not in got]
    if missing:
      # the process died (hard hang, import failure, segfault): the scenario it died in is a crash of the code under test
      for s in missing[:1]: got[s["id"]] = {"id": s["id"], "cfg": s.get("cfg", 0), "ev": [{"k": "crash", "why": "driver process ended: " + tail}]}
    return got
  with ThreadPoolExecutor(parts) as ex: res = list(ex.map(one, range(parts)))
  allt = {}
  for g in res: allt.update(g)
  path = work.path(f"{driver}{tag}.trace")
  with open(path, "w") as f:
    for i in sorted(allt): f.write(json.dumps(allt[i]) + "\n")
  return path


class Ctx:
  def __init__(self, pid, tier, seed):
    self.pid, self.tier, self.seed = pid, tier, seed
    self.quick = tier == "quick"
    self.t0 = time.time()
    self.states = self.transitions = self.validated = 0
    self.samples, self.notes, self.violations, self.known_hits = [], {}, [], []
    self.assumptions = []
    self.exhaustive = None
    self.level = "model_checking"
    self.work = Work().__enter__()

  def n(self, quick, thorough): return quick if self.quick else thorough

  def model(self, res, label):
    self.states += res["states"]; self.transitions += res["transitions"]
    self.notes["model:" + label] = {"distinct_states": res["states"], "transitions": res["transitions"]}
    return res

  def judge(self, area, driver, scenarios, only=None, constants="", extra="", tag="", env=None, parts=CPUS, timeout=600):
    """drive + validate; only = predicate on the clause name (None: every clause)."""
    if not scenarios: raise MachineryError("no scenarios")
    tf = drive(self.work, driver, scenarios, tag=tag, env=env, parts=parts, timeout=timeout)
    res = validate(self.work, area, tf, constants=constants, extra=extra, name=f"T_{area}{tag}".replace("-", "_"))
    self.validated += res["n"]
    kinds = {}
    lines = open(tf).read().splitlines()
    for ln in lines:
      for e in json.loads(ln)["ev"]: kinds[e["k"]] = kinds.get(e["k"], 0) + 1
    if not kinds: raise MachineryError(f"{driver}: the recorded traces contain no event")
    self.notes[f"traces:{area}{tag}"] = {"scenarios": res["n"], "accepted": res["accepted"], "events": kinds}
    if len(self.samples) < 2 and lines:
      t = json.loads(lines[len(lines) // 2]); t["ev"] = t["ev"][:25]; t["area"] = area
      self.samples.append(t)
    for tr, (l, bad) in sorted(res["rejected"].items()):
      hit = [b for b in bad if only is None or b == "crash" or only(b)]
      t = json.loads(lines[tr - 1])
      rec = {"property": self.pid, "area": area, "driver": driver, "constants": constants, "clauses": bad, "at": l,
             "event": t["ev"][l - 1], "scenario": scenarios[t["id"] - 1], "trace": t}
      if not hit: self.notes.setdefault("other_property_rejections", []).append({"clauses": bad, "at": l}); continue
      k = self.known(rec)
      if k: self.known_hits.append(k)
      else: self.violations.append(rec)
    return res

  def known(self, rec):
    for k in known_findings():
      if k.get("property") == self.pid and k.get("kind") == "finding" and finding_matches(k, rec): return k
    return None

  def finish(self):
    self.work.__exit__()
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.validated,
           "samples": self.samples or [{"note": "none"}], **self.notes}
    if self.exhaustive is not None: cov["exhaustive"] = self.exhaustive
    ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
          "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations), "assumptions": self.assumptions}
    with open(os.path.join(edir, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    seen = set()
    for k in self.known_hits:
      if k["id"] in seen: continue
      seen.add(k["id"]); print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
    if self.violations:
      shown = set()
      for i, v in enumerate(self.violations):
        sig = (tuple(sorted(v["clauses"])), v["event"].get("k"))
        if sig in shown or len(shown) >= 5: continue
        shown.add(sig)
        p = os.path.join(edir, "replay", f"{self.pid}-{len(shown)}.json")
        with open(p, "w") as f: json.dump(v, f, indent=1)
        print(f"clause {','.join(v['clauses'])} fails at event {v['at']}: {json.dumps(v['event'])[:600]}")
        print(f"VIOLATION property={self.pid} replay={p}")
      return 1
    print(f"OK property={self.pid} tier={self.tier} states={self.states} transitions={self.transitions} traces={self.validated} wall={ev['wall_s']}s")
    return 0


def known_findings():
  p = os.path.join(ROOT, "known_findings.json")
  return json.load(open(p)) if os.path.exists(p) else []


def finding_matches(k, rec):
  m = k.get("match", {})
  if "clauses" in m and not set(rec["clauses"]) <= set(m["clauses"]): return False
  if "event" in m:
    for kk, vv in m["event"].items():
      if rec["event"].get(kk) != vv: return False
  if "scenario" in m:
    for kk, vv in m["scenario"].items():
      if rec["scenario"].get(kk) != vv: return False
  return bool(m)
