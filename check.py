#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def registry():
  import importlib, pkgutil, vlib.checks
  reg = {}
  for m in pkgutil.iter_modules(vlib.checks.__path__):
    reg.update(importlib.import_module("vlib.checks." + m.name).CHECKS)
  return reg


def main():
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  ctx = core.Ctx(pid, tier, seed)
  try:
    registry()[pid](ctx)
    rc = ctx.finish()
  except core.MachineryError as e:
    ctx.work.__exit__()
    print(f"check error: {e}", file=sys.stderr)
    rc = 2
  sys.stdout.flush()
  sys.exit(rc)

if __name__ == "__main__": main()
