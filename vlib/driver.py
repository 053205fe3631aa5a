"""Common main() of the drivers: scenarios (json lines) in, traces (json lines) out."""
import sys, json, os, logging, traceback
sys.path.insert(0, os.environ.get("SUT_REPO", "/repo"))
os.environ.setdefault("DEBUG_SER", "0")
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)


def main(run_scenario):
  src, dst = sys.argv[1], sys.argv[2]
  hangs = 0
  with open(src) as f, open(dst, "w") as out:
    for line in f:
      if hangs >= 2: break      # enough
      sc = json.loads(line)
      try: ev = run_scenario(sc)
      except BaseException as e:   # the driver itself is at fault, or the import of the code under test broke
        ev = [{"k": "crash", "why": (type(e).__name__ + ": " + str(e) + " " + traceback.format_exc()[-800:])}]
      out.write(json.dumps({"id": sc["id"], "cfg": sc.get("cfg", 0), "ev": ev}) + "\n")
      out.flush()
      hangs += any("hang: wall" in str(e.get("why", "")) for e in ev[-1:])
  sys.stdout.flush(); sys.stderr.flush()
  os._exit(0)      # threads left behind by the code under test do not keep the driver alive
