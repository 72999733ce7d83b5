"""Warms the compiler cache: builds every driver once."""
import glob, importlib, os, sys, time
from . import build as B

if __name__ == "__main__":
    t = time.time()
    for f in sorted(glob.glob(os.path.join(B.VERIF, "vt", "props", "c*.py"))):
        m = importlib.import_module("vt.props." + os.path.basename(f)[:-3])
        c = m.CHECK
        try:
            B.build(c.driver, c.libs, c.flags, c.link, c.variant, c.skip)
            for v, fl, k in c.extra_builds:
                B.build(c.driver, c.libs, fl, k, v, c.skip)
            print("built", c.driver, "%.0f s" % (time.time() - t), flush=True)
        except B.BuildError as e:
            print("setup: %s" % e)
            sys.exit(1)
