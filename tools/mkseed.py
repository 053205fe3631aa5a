"""Authoring of planted bugs:  python3 tools/mkseed.py [--check] [--notests] ID...   (definitions in tools/seeds/*.py)
Builds seeded/<id>/ from its definition, verifies it in a scratch copy: applies, touches lines of the original repository,
passes the tests, demo 0 without and nonzero with it; --check also runs the property's check against the scratch copy."""
import os, sys, json, subprocess, shutil, glob, runpy, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "913c04a"
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo): SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


def sh(cmd, cwd=None, env=None, timeout=600):
  e = dict(os.environ); e.update(env or {})
  try: p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
  except subprocess.TimeoutExpired: return 124, "timeout"
  return p.returncode, p.stdout


def load():
  for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))): runpy.run_path(f, {"seed": seed})


def build(id):
  s = SEEDS[id]
  tmp = f"/tmp/sc-{id}"
  shutil.rmtree(tmp, ignore_errors=True)
  sh(f"cp -a {os.environ.get('SEED_SRC', '/repo')} {tmp}")
  d = os.path.join(ROOT, "seeded", id)
  os.makedirs(d, exist_ok=True)
  with open(os.path.join(d, "demo.py"), "w") as f: f.write(textwrap.dedent(s["demo"]).lstrip())
  with open(os.path.join(d, "demo.sh"), "w") as f: f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
  os.chmod(os.path.join(d, "demo.sh"), 0o755)
  rc0, out0 = sh(f"bash {d}/demo.sh", cwd=tmp)
  for file, old, new in s["edits"]:
    p = os.path.join(tmp, file); t = open(p).read()
    assert t.count(old) == 1, f"{id}: {t.count(old)} occurrences of {old!r} in {file}"
    base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{file}"], stdout=subprocess.PIPE, text=True).stdout
    open(p, "w").write(t.replace(old, new))
  if any(f.endswith(".cpp") for f, _, _ in s["edits"]): print(*sh("/opt/venv/bin/python setup.py -q build_ext --inplace --force", cwd=tmp))
  diff = subprocess.run(["git", "diff"], cwd=tmp, stdout=subprocess.PIPE, text=True).stdout
  removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
  orig = all(any(l in subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], stdout=subprocess.PIPE, text=True).stdout.splitlines() for f, _, _ in s["edits"]) for l in removed if l.strip())
  with open(os.path.join(d, "patch.diff"), "w") as f: f.write(diff)
  with open(os.path.join(d, "meta.json"), "w") as f: json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
  rc1, out1 = sh(f"bash {d}/demo.sh", cwd=tmp)
  res = {"demo0": rc0, "demo1": rc1, "original_lines": orig}
  if rc0 != 0: print(out0[-1500:])
  if rc1 == 0: print("demo passes with the bug", out1[-500:])
  if "--notests" not in sys.argv:
    rc, out = sh("FULL=1 DEBUG_SER=1 PYTHONPATH=$PWD TMPDIR=$(mktemp -d) /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=100 --ignore=tests/media/test_containers.py tests 2>&1 | tail -8", cwd=tmp)
    res["tests"] = out.strip().splitlines()[-1] if out.strip() else ""
    if "failed" in res["tests"]: print(out[-1500:])
  if "--check" in sys.argv:
    rc, out = sh(f"python3 check.py {s['prop']} quick", cwd=ROOT, env={"SUT_REPO": tmp}, timeout=900)
    res["check"] = {0: "MISSED", 1: "caught"}.get(rc, f"rc {rc}")
    res["clauses"] = [l[7:60] for l in out.splitlines() if l.startswith("clause")]
    if rc not in (0, 1): print(out[-1000:])
  shutil.rmtree(tmp)
  ok = rc0 == 0 and rc1 not in (0,) and orig and ("tests" not in res or "63 passed" in res["tests"] and "failed" not in res["tests"])
  print(id, "OK" if ok else "BAD", json.dumps(res))
  sys.stdout.flush()


if __name__ == "__main__":
  load()
  ids = [a for a in sys.argv[1:] if not a.startswith("--")] or list(SEEDS)
  for i in ids:
    for k in [k for k in SEEDS if k == i or k.startswith(i + "-")]: build(k)
