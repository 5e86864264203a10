"""build a property's harness for debugging: hb.py S13 OUTDIR [extra flags]"""
import importlib
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "specs")]
import driver
spec = importlib.import_module(sys.argv[1].lower())
out = sys.argv[2]
os.makedirs(out, exist_ok=True)
spec.HARNESS["flags"] = spec.HARNESS.get("flags", []) + sys.argv[3:]
exe, why = driver.build_harness(spec, driver.gen_headers(out) or out, out)
print(exe, why[-800:])
