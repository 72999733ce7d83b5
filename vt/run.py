import sys, importlib
from . import flow

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("vt.props." + pid.lower())
    sys.exit(flow.main(mod.CHECK, sys.argv[1:]))
