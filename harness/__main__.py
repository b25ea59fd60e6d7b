import os, sys, traceback
from harness.core import main, HarnessError

try:
    rc = main(sys.argv[1:])
except HarnessError as e:
    print("HARNESS ERROR: %s" % e, file=sys.stderr); rc = 2
except Exception:
    traceback.print_exc(); rc = 2
sys.stdout.flush()
sys.stderr.flush()
os._exit(rc)
