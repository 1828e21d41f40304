"""Development only: runs changes of /repo through build, tests and checks, each in a private mount namespace.

    lab.py MUTANTS.json OUT.jsonl [-w WORKERS]

MUTANTS.json: list of dict(id, edits=[[file, old, new], ...] or patch=path, checks=[...], demo=path or absent).
Scratch copies live in /var/tmp/lab and are removed at the end.
"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys

LAB = "/var/tmp/lab" + os.environ.get("LABN", "")


def sh(cmd, timeout, limit=True, **kw):
    p = subprocess.Popen(("ulimit -v 14000000; " if limit else "") + cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def worker(args):
    n, todo, out = args
    import ctypes
    libc = ctypes.CDLL(None, use_errno=True)
    d = f"{LAB}/{n}"
    os.makedirs(d + "/tmp", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif", d + "/verif"], check=True)
    if libc.unshare(0x00020000):
        raise OSError(ctypes.get_errno(), "unshare")
    subprocess.run(["mount", "--make-rprivate", "/"], check=True)
    for a, b in ((d + "/repo", "/repo"), (d + "/verif", "/verif"), (d + "/tmp", "/tmp")):
        subprocess.run(["mount", "--bind", a, b], check=True)
    stable = set(baseline_ids())
    while True:
        try:
            m = todo.get_nowait()
        except Exception:
            break
        r = dict(id=m["id"])
        try:
            sh("git -C /repo update-index -q --refresh; git -C /repo checkout -q -- .", 60)
            ok = True
            if "patch" in m:
                rc, o = sh(f"git -C /repo apply {m['patch']}", 60)
                ok = rc == 0
                if not ok:
                    r["status"] = "noapply"
            else:
                for f, a, b in m["edits"]:
                    p = "/repo/" + f
                    s = open(p).read()
                    if s.count(a) < 1:
                        r["status"] = f"noapply {f}: {s.count(a)} matches"
                        ok = False
                        break
                    open(p, "w").write(s.replace(a, b, 1))
            if ok:
                rc, o = sh("bash /opt/vp/build.sh", 600)
                if rc:
                    r["status"] = "nobuild"
                    r["log"] = o[-600:]
                    ok = False
            if ok:
                rc, o = sh("rm -f /tmp/o.json; bash /opt/vp/test.sh /tmp/o.json", 45)
                failed = failures("/tmp/o.json", stable)
                if failed:
                    r["status"] = "killed by tests"
                    r["failed"] = failed[:4]
                    ok = m.get("force", False)
                else:
                    r["status"] = "survives tests"
            if ok:
                if m.get("demo"):
                    rc, o = sh(f"cd /repo && bash {m['demo']}", 300)
                    r["demo"] = rc
                    if rc == 0:
                        r["demolog"] = o[-500:]
                r["diff"] = sh("git -C /repo diff", 60)[1]
                r["checks"] = {}
                for c in m["checks"]:
                    rc, o = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run.py {c} --nobuild -j {8 if c == "C09" else 3}", 900 if c == "C09" else 400, c not in ("C03", "C05", "C09"))
                    r["checks"][c] = rc
                    if rc not in (0, 1) or m.get("verbose"):
                        r["log_" + c] = o[-1500:]
                    if rc == 1 and m.get("stop", True):
                        r["line"] = [l for l in o.split("\n") if l.startswith("  ")][:2]
                        break
        except Exception as e:
            r["status"] = "error " + repr(e)
        with open(out, "a") as f:
            f.write(json.dumps(r) + "\n")


def baseline_ids():
    b = baseline()
    for k in ("stable", "passed", "tests", "stable_pass"):
        if k in b:
            return b[k] if not isinstance(b[k], dict) else list(b[k])
    raise SystemExit(str(list(b)))


def failures(p, stable):
    try:
        d = json.load(open(p))
    except Exception:
        return ["no results"]
    passed = set()
    for k, v in d.items():
        if k in ("passed", "pass"):
            passed = set(v)
    return sorted(stable - passed)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mutants")
    ap.add_argument("out")
    ap.add_argument("-w", type=int, default=6)
    a = ap.parse_args()
    ms = json.load(open(a.mutants))
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["id"] for l in open(a.out)}
    ms = [m for m in ms if m["id"] not in done]
    shutil.rmtree(LAB, ignore_errors=True)
    q = mp.Queue()
    for m in ms:
        q.put(m)
    ps = [mp.Process(target=worker, args=((i, q, os.path.abspath(a.out)),)) for i in range(min(a.w, len(ms)))]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    shutil.rmtree(LAB, ignore_errors=True)


main()
