"""Builds /repo's current sources (all packages a driver needs) and the drivers, through ccache.

ccache decides by content, never by time stamp, so a build always reflects /repo's working tree.
"""
import os, subprocess, glob, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PKGS = ["core", "io", "projection", "traffic_rules", "routing", "matching", "validation"]
DEPS = {
    "core": ["core"],
    "projection": ["projection", "core"],
    "io": ["io", "core"],
    "traffic_rules": ["traffic_rules", "core"],
    "routing": ["routing", "traffic_rules", "core"],
    "matching": ["matching", "traffic_rules", "core"],
    "validation": ["validation", "routing", "traffic_rules", "io", "projection", "core"],
}
CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-I/usr/include/eigen3"]


class BuildError(Exception):
    pass


def includes():
    r = []
    for p in PKGS:
        r += [f"-I{REPO}/lanelet2_{p}/include", f"-I{REPO}/lanelet2_{p}/include/lanelet2_{p}"]
    return r


def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_COMPILERCHECK"] = "content"
    e.pop("CCACHE_DISABLE", None)
    return e


def pkg_sources(pkg):
    d = f"{REPO}/lanelet2_{pkg}/src"
    s = sorted(glob.glob(d + "/**/*.cpp", recursive=True))
    return [x for x in s if os.path.basename(x) != "main.cpp" and "/tools/" not in x]


def _compile(job):
    src, obj, extra = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ["ccache", CXX] + FLAGS + extra + includes() + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stderr[-6000:]))
    return obj


def build(driver, libs, extra_flags=(), link=(), variant="std", skip=(), driver_srcs=None):
    """Compile packages `libs` (closure of DEPS) plus harness/<driver>.cpp; returns the executable path.
    `skip`: base names of repo sources that the driver compiles itself (e.g. through a shim)."""
    pk = []
    for l in libs:
        for d in DEPS[l]:
            if d not in pk:
                pk.append(d)
    extra = list(extra_flags)
    jobs = []
    for p in pk:
        for s in pkg_sources(p):
            if os.path.basename(s) in skip:
                continue
            rel = os.path.relpath(s, REPO).replace("/", "__")
            jobs.append((s, f"{BUILD}/obj/{variant}/{rel}.o", extra))
    for s in (driver_srcs or [f"{VERIF}/harness/{driver}.cpp"]):
        jobs.append((s, f"{BUILD}/obj/{variant}/drv_{driver}_{os.path.basename(s)}.o", extra + [f"-I{VERIF}/harness"]))
    # longest first: the drivers
    jobs.reverse()
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(_compile, jobs))
    exe = f"{BUILD}/bin/{variant}/{driver}"
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    libflags = ["-lpthread"]
    if "io" in pk:
        libflags += ["-lpugixml", "-lboost_serialization"]
    if "projection" in pk:
        libflags += ["-lGeographicLib"] if not os.path.exists("/usr/lib/x86_64-linux-gnu/libGeographic.so") else ["-lGeographic"]
    if "validation" in pk:
        libflags += ["-lboost_program_options"]
    libflags += ["-lboost_filesystem", "-lboost_system"]
    p = subprocess.run([CXX] + extra + ["-o", exe] + objs + list(link) + libflags, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (driver, p.stderr[-6000:]))
    return exe
