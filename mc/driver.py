"""Runs one check: build, host process, forked shards, verdict.

    run.py C10                 quick (or VERIF_TIER)
    run.py C10 --tier thorough
    run.py --replay FILE
"""

import argparse
import base64
import glob
import importlib
import json
import mmap
import os
import pickle
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import env as E
from . import report as R

HANG_S = 450         # a call in which nothing happens for so long hangs,
HANG_CPU = 150       # or one that computes for so long (a machine under load makes no alarm)
MAXV = 8


class CallFailed(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, crumb=None, tracefile=None):
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.res = R.Result()
        self._crumb, self._n = crumb, 0
        self._trace = tracefile
        self.part = "all"
        self.known = R.known_findings(prop)

    # ---- bookkeeping -------------------------------------------------------------
    def tick(self, label=None):
        self._n += 1
        if self._crumb is not None:
            self._crumb[0:8] = struct.pack("<q", self._n)
            if label is not None:
                b = label.encode()[:400]
                self._crumb[8:10] = struct.pack("<h", len(b))
                self._crumb[10:10 + len(b)] = b

    def count(self, n, nontrivial=None, part=None):
        n = int(n)
        self.res.evaluations += n
        self.res.nontrivial += int(n if nontrivial is None else nontrivial)
        p = part or self.part
        self.res.parts[p] = self.res.parts.get(p, 0) + n

    def graph(self, states=0, transitions=0, traces=0):
        self.res.states += int(states)
        self.res.transitions += int(transitions)
        self.res.traces += int(traces)

    def sample(self, s):
        if len(self.res.samples) < 3:
            self.res.samples.append(s)

    def note(self, s):
        self.res.notes.append(s)

    # ---- calls into the implementation ---------------------------------------------
    def call(self, f, *args, **kw):
        """Call the implementation; an exception it raises is a violation."""
        self.res.calls += 1
        self._pre(f, args, kw)
        try:
            return f(*args, **kw)
        except Exception as e:
            self.violation(f"{fname(f)} raised {type(e).__name__}: {e}", f=f, args=args, kw=kw)
            raise CallFailed from e

    def attempt(self, f, *args, **kw):
        """Call the implementation where an exception may be the right answer."""
        self.res.calls += 1
        self._pre(f, args, kw)
        try:
            return f(*args, **kw), None
        except Exception as e:
            return None, e

    def _pre(self, f, args, kw):
        self._n += 1
        if self._crumb is not None:
            self._crumb[0:8] = struct.pack("<q", self._n)
        if self._trace is not None:
            try:
                b = pickle.dumps((fname(f), args, kw))
            except Exception:
                b = pickle.dumps((fname(f), repr(args)[:2000], repr(kw)[:2000]))
            self._trace.seek(0)
            self._trace.write(struct.pack("<q", len(b)) + b)
            self._trace.flush()

    def violation(self, msg, f=None, args=(), kw=None, got=None, exp=None, key=None, repro=None):
        if key is not None and key in self.known:
            self.res.notes.append(f"KNOWN {key}")
            return
        self.res.nviol += 1
        if len(self.res.violations) >= MAXV:
            return
        v = dict(message=msg, part=self.part)
        if f is not None:
            v["function"] = fname(f)
            try:
                v["pickled_args"] = base64.b64encode(pickle.dumps((args, kw or {}))).decode()
            except Exception:
                pass
            v["args"] = [describe(a) for a in args]
            v["kwargs"] = {k: describe(a) for k, a in (kw or {}).items()}
        if got is not None:
            v["got"] = describe(got)
        if exp is not None:
            v["expected"] = describe(exp)
        if repro:
            v["repro"] = repro
        if key is not None:
            v["key"] = key
        self.res.violations.append(v)

    @property
    def full(self):
        """Enough violations recorded: a check may stop enumerating."""
        return self.res.nviol >= MAXV


def fname(f):
    if isinstance(f, str):
        return f
    n = getattr(f, "__name__", None) or repr(f)
    m = getattr(f, "mc_name", None)
    return m or n


def describe(a):
    try:
        import numpy as np
        if isinstance(a, np.ndarray):
            s = np.array2string(a, threshold=60, precision=21) if a.dtype != object else repr(a.tolist())[:1500]
            return f"array({s}, dtype={a.dtype.str!r}, shape={a.shape}, strides={a.strides})"
    except Exception:
        pass
    return repr(a)[:2000]


# -------------------------------------------------------------------------------------
def load_check(prop):
    hits = glob.glob(os.path.join(E.VERIF, "checks", f"{prop.lower()}_*.py"))
    if len(hits) != 1:
        raise SystemExit(f"no check for {prop}: {hits}")
    return importlib.import_module("checks." + os.path.basename(hits[0])[:-3])


NDENSE = 3


def all_shards(mod, tier):
    """The shards of a check; those of long sequences of the commonest types once more, over many more lengths."""
    r = list(mod.shards(tier))
    for s in r[:]:
        if not isinstance(s, str) and str(s[0]).startswith("long_") and len(s) > 1 and s[1] in getattr(mod, "DENSE_TYPES", "dlD"):
            r += [[f"dense{k}_{s[0][5:]}"] + list(s[1:]) for k in range(NDENSE)]
    return r


def run_shard(mod, prop, tier, shard, crumb, out, tracefile):
    ctx = Ctx(prop, tier, crumb, tracefile)
    ctx.part = str(shard if isinstance(shard, str) else shard[0])
    status = "ok"
    try:
        if not isinstance(shard, str) and str(shard[0]).startswith("dense"):
            # the shard of long sequences, over many more lengths (mc/seq.py: sizes, positions)
            from mc import seq
            k, name = str(shard[0])[5:].split("_", 1)
            seq.DENSE = (int(k), NDENSE)
            shard = ["long_" + name] + list(shard[1:])
        mod.run(shard, ctx)
    except CallFailed:
        pass
    except (OSError, MemoryError):
        status = "error: " + traceback.format_exc()
    except Exception:
        ctx.violation("the implementation's answer could not be processed:\n" + traceback.format_exc()[-3000:])
    with open(out, "w") as f:
        json.dump(dict(status=status, res=ctx.res.to_json()), f, default=str)


def cpu(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def host(prop, tier, outdir, maxpar):
    """In the process that has the built package on its path: fork one child per shard."""
    import numpy as np
    np.seterr(all="ignore")
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(10000)
    mod = load_check(prop)
    if getattr(mod, "IMPORT", True):
        try:
            import ufunclab  # noqa: F401
            for n in dir(ufunclab):
                getattr(ufunclab, n)
        except Exception:
            with open(os.path.join(outdir, "import.txt"), "w") as f:
                f.write(traceback.format_exc())
            return 0
    prep = getattr(mod, "prepare", None)
    if prep:
        prep(tier)
    shards = all_shards(mod, tier)
    todo = [(i, s, False) for i, s in enumerate(shards)]
    running = {}
    stop, left, ran = False, set(), []
    hang_s = getattr(mod, "HANG_S", HANG_S * (1 if tier == "quick" else 3))
    hang_cpu = max(hang_s - HANG_S, 0) + HANG_CPU
    while todo or running:
        while todo and len(running) < maxpar:
            i, s, trace = todo.pop(0)
            ran += [] if trace else [i]
            mm = mmap.mmap(-1, 512)
            sfx = ".t" if trace else ""
            out = os.path.join(outdir, f"s{i}{sfx}.json")
            err = os.path.join(outdir, f"s{i}{sfx}.log")
            tr = os.path.join(outdir, f"s{i}.trace")
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    tf = open(tr, "wb") if trace else None
                    run_shard(mod, prop, tier, s, mm, out, tf)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                    code = 3
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            running[pid] = dict(i=i, s=s, mm=mm, trace=trace, out=out, last=-1, t=time.time(), t0=time.time(), err=err, hung=False, cpu=None, gap=0)
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.01)
            now = time.time()
            for p, d in running.items():
                n = struct.unpack("<q", d["mm"][0:8])[0]
                if n != d["last"]:
                    d["gap"] = max(d["gap"], now - d["t"])
                    d["last"], d["t"], d["cpu"] = n, now, None
                elif now - d["t"] > 5 and d["cpu"] is None:
                    d["cpu"] = cpu(p)
                elif now - d["t"] > hang_cpu and not stop and (now - d["t"] > hang_s or cpu(p) - d["cpu"] > hang_cpu):
                    # one hang is enough: the other shards are not worth waiting for
                    d["hung"] = stop = True
                    todo.clear()
                    for q in running:
                        try:
                            os.killpg(q, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
            continue
        d = running.pop(pid, None)
        if d is None:
            continue
        if os.environ.get("MC_TIMES"):
            with open(os.environ["MC_TIMES"], "a") as f:
                f.write(f"{time.time() - d['t0']:8.1f} {max(d['gap'], time.time() - d['t']):8.1f} {prop} {d['s']}\n")
        if stop and not d["hung"] and (st != 0 or not os.path.exists(d["out"])):
            left.add(d["i"])
            continue
        if st != 0 or not os.path.exists(d["out"]):
            n = struct.unpack("<q", d["mm"][0:8])[0]
            ln = struct.unpack("<h", d["mm"][8:10])[0]
            label = d["mm"][10:10 + ln].decode(errors="replace")
            why = "hang" if d["hung"] else (f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st)
                                            else f"exit {os.WEXITSTATUS(st)}")
            rec = dict(crash=why, shard=str(d["s"]), label=label, calls=n,
                       log=open(d["err"], errors="replace").read()[-6000:])
            if d["trace"]:
                tr = os.path.join(outdir, f"s{d['i']}.trace")
                try:
                    b = open(tr, "rb").read()
                    ln = struct.unpack("<q", b[:8])[0]
                    nm, a, k = pickle.loads(b[8:8 + ln])
                    rec.update(function=nm,
                               pickled_args=base64.b64encode(pickle.dumps((a, k))).decode(),
                               args=[describe(x) for x in a] if isinstance(a, tuple) else a,
                               kwargs={q: describe(x) for q, x in k.items()} if isinstance(k, dict) else k)
                except Exception:
                    rec["trace_error"] = traceback.format_exc()[-500:]
            elif not d["hung"] and not stop:
                todo.insert(0, (d["i"], d["s"], True))
            with open(os.path.join(outdir, f"s{d['i']}.crash" + ("2" if d["trace"] else "1")), "w") as f:
                json.dump(rec, f, default=str)
    with open(os.path.join(outdir, "done"), "w") as f:
        json.dump([i for i in ran if i not in left], f)
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--host", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--nobuild", action="store_true", help="development only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--setup", action="store_true", help="build the package once")
    a = ap.parse_args(argv)
    if a.setup:
        print(E.build_release())
        return 0
    if a.replay:
        return replay(a.replay)
    if a.host:
        return host(a.prop, a.tier, a.host, a.j)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    prop = a.prop
    t0 = time.time()
    os.chdir(E.VERIF)
    sys.path.insert(0, E.VERIF)
    meta = load_meta(prop)
    try:
        if os.environ.get("MC_SITE"):
            site = os.environ["MC_SITE"]
        else:
            site = E.SITE if a.nobuild else E.build_release()
        envx = {}
        if hasattr(meta, "variant"):
            site, envx = meta.variant(site)
    except E.BuildError as e:
        print(f"build failed:\n{e}")
        return 2
    outdir = tempfile.mkdtemp(prefix="mc-out-")
    try:
        env = E.clean_env()
        env.update(PYTHONPATH=site + ":" + E.VERIF, MC_SITE_USED=site, MC_RELEASE_SITE=E.SITE, **envx)
        if envx:
            # is it the machinery (the sanitizer's runtime, say) that cannot start here?
            q = subprocess.run([sys.executable, "-c", "import numpy"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode:
                print(f"the interpreter does not start with {envx}: {q.stdout[-1500:]}")
                return 2
        log = open(os.path.join(outdir, "host.log"), "w")
        p = subprocess.run([sys.executable, os.path.join(E.VERIF, "run.py"), prop, "--tier", tier,
                            "--host", outdir, "-j", str(a.j)], env=env, stdout=log, stderr=subprocess.STDOUT,
                           cwd=outdir)
        return verdict(meta, prop, tier, outdir, p.returncode, t0)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def load_meta(prop):
    """The check module, imported in the driver (which has no ufunclab)."""
    return load_check(prop)


def verdict(mod, prop, tier, outdir, rc, t0):
    res = R.Result()
    errors = []
    hostlog = open(os.path.join(outdir, "host.log"), errors="replace").read()
    if os.path.exists(os.path.join(outdir, "import.txt")):
        txt = open(os.path.join(outdir, "import.txt")).read()
        res.violations.append(dict(message="importing ufunclab failed", log=txt))
        res.nviol += 1
    elif rc != 0 or not os.path.exists(os.path.join(outdir, "done")):
        if rc < 0:
            res.violations.append(dict(message=f"importing ufunclab crashed the interpreter (signal {-rc})",
                                       log=hostlog[-4000:]))
            res.nviol += 1
        else:
            errors.append(f"host exit {rc}: {hostlog[-4000:]}")
    else:
        shards = json.load(open(os.path.join(outdir, "done")))
        for i in shards:
            p = os.path.join(outdir, f"s{i}.json")
            c1, c2 = (os.path.join(outdir, f"s{i}.crash{k}") for k in "12")
            if os.path.exists(c1):
                rec = json.load(open(c1))
                if os.path.exists(c2):
                    rec = json.load(open(c2))
                rec["message"] = f"the interpreter did not survive: {rec['crash']}"
                if "MemoryError" in rec["log"] and "exit" in rec["crash"]:
                    errors.append(str(rec))
                else:
                    res.violations.append(rec)
                    res.nviol += 1
                if not os.path.exists(p):
                    continue
            d = json.load(open(p))
            if d["status"] != "ok":
                errors.append(d["status"])
            res.merge(R.Result.from_json(d["res"]))
    post = getattr(mod, "post", None)
    extra = post(res) if post else None
    known = R.known_findings(prop)
    seen = {n[6:] for n in res.notes if n.startswith("KNOWN ")}
    res.notes = [n for n in res.notes if not n.startswith("KNOWN ")]
    if len(res.samples) > 12:   # spread the samples over the shards
        step = len(res.samples) / 12
        res.samples = [res.samples[int(i * step)] for i in range(12)]
    wall = time.time() - t0
    R.write_evidence(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1), mod.LEVEL, res, mod.RULE, wall,
                     getattr(mod, "EXHAUSTIVE", True) and not errors, getattr(mod, "ASSUMPTIONS", []), extra)
    print(f"{prop} {tier}: evaluations={res.evaluations} nontrivial={res.nontrivial} states={res.states} "
          f"transitions={res.transitions} traces={res.traces} calls={res.calls} "
          f"violations={res.nviol} wall={wall:.1f}s")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {known[k]}"
              + ("" if k in seen else " (listed; not reached by this tier)"))
    if res.nviol:
        d = os.path.join(E.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, violations=res.violations[:40]), f, indent=1, default=str)
        for v in res.violations[:3]:
            print("  " + str(v.get("message", ""))[:600])
            for k in ("function", "args", "kwargs", "got", "expected", "repro", "label"):
                if v.get(k):
                    print(f"    {k}: {str(v[k])[:700]}")
            if v.get("log"):
                print("    log: " + v["log"][-1500:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors)[:6000])
        return 2
    return 0


def replay(path):
    """Re-run the calls recorded in a replay file against the current build."""
    site = E.build_release()
    code = r'''
import json, sys, pickle, base64, traceback
import numpy as np, ufunclab
for v in json.load(open(sys.argv[1]))["violations"]:
    print("-", v.get("message"))
    for k in ("args", "kwargs", "expected", "got", "repro"):
        if v.get(k): print("   ", k, ":", v[k])
    if "pickled_args" in v:
        f = ufunclab
        try:
            for part in v["function"].split("."):
                f = getattr(f, part)
            a, k = pickle.loads(base64.b64decode(v["pickled_args"]))
            print("    now :", repr(f(*a, **k)))
        except Exception:
            traceback.print_exc()
'''
    env = E.clean_env()
    env["PYTHONPATH"] = site
    return subprocess.run([sys.executable, "-c", code, path], env=env).returncode
