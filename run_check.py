"""python3 run_check.py <property id>: analyse /repo's working tree and
report whether the property's rules hold."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import report          # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks.%s" % pid.lower())
    sys.exit(report.run(pid, mod))
