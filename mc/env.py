"""Building ufunclab from /repo's working tree: the release build the product ships, and
instrumented variants in a scratch directory that is removed when the check ends."""

import atexit
import fcntl
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD_SH = "/opt/vp/build.sh"
SITE = "/repo/build/install/site"

_scratch = []


def clean_env():
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD")}
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.update(CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PIP_NO_INDEX="1",
               HOME=env.get("HOME", "/root"))
    return env


class BuildError(Exception):
    pass


def build_release():
    """Incremental build of /repo with the project's own script; returns the site directory."""
    with open("/tmp/.mc-build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["bash", BUILD_SH], env=clean_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(p.stdout[-4000:])
    return SITE


def build_variant(name, meson_args=(), cflags=""):
    """A copy of the working tree built with other flags.  Returns its site directory."""
    top = tempfile.mkdtemp(prefix=f"mc-{name}-")
    _scratch.append((os.getpid(), top))
    src = os.path.join(top, "r")
    shutil.copytree(REPO, src, symlinks=True,
                    ignore=lambda d, n: [x for x in n if (d == REPO and x in ("build", ".git"))
                                         or x == "__pycache__"])
    bld = os.path.join(src, "build")
    site = os.path.join(bld, "install", "site")
    env = clean_env()
    if cflags:
        env["CFLAGS"] = env["CXXFLAGS"] = cflags
    cmd = ["meson", "setup", "build", "--prefix", os.path.join(bld, "install"),
           "--buildtype=release", "-Db_ndebug=if-release", "--wrap-mode=nodownload",
           f"-Dpython.purelibdir={site}", f"-Dpython.platlibdir={site}",
           "-Dpython.bytecompile=-1", *meson_args]
    for c in (cmd, ["ninja", "-C", "build"], ["meson", "install", "-C", "build", "--no-rebuild", "--quiet"]):
        p = subprocess.run(c, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise BuildError(p.stdout[-4000:])
    return site


@atexit.register
def _cleanup():
    for pid, d in _scratch:
        if pid == os.getpid() and os.path.basename(d).startswith("mc-"):
            shutil.rmtree(d, ignore_errors=True)


def scratch_dir(name="tmp"):
    d = tempfile.mkdtemp(prefix=f"mc-{name}-")
    _scratch.append((os.getpid(), d))
    return d
