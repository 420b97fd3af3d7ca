#!/usr/bin/env python3
"""Planted bugs: seed.py confirm ID... (does it count?), seed.py run ID... [--props C01,C02] (which checks catch it?)
Every run is in a mount namespace of its own, in which a scratch copy is what /repo (and /verif) is."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
BASE = "/tmp/seedbase"


def ns(repo, cmd, verif=None, timeout=900, env=None):
    s = f"mount --bind {repo} /repo; "
    if verif:
        s += f"mount --bind {verif} /verif; "
    s += "cd /repo; " + cmd
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", dst], check=True)


def patched(bid, dst):
    copy(dst)
    p = os.path.join(SEED, bid, "patch.diff")
    r = subprocess.run(["git", "apply", p], cwd=dst, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return r.stdout
    # newer than every build product
    for f in subprocess.run(["git", "diff", "--name-only"], cwd=dst, stdout=subprocess.PIPE, text=True).stdout.split():
        os.utime(os.path.join(dst, f))
    return None


def confirm(bid):
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo, demo, clean = d + "/repo", d + "/demo", d + "/clean"
        err = patched(bid, repo)
        if err:
            return f"{bid}: does not apply: {err}"
        files = subprocess.run(["git", "diff", "--name-only"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.split()
        if any(not f.startswith("src/") or f == "src/test.rs" for f in files):
            return f"{bid}: touches {files}"
        # the lines taken away are original ones
        orig = changed = 0
        for f in files:
            bl = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.split("\n")
            df = subprocess.run(["git", "diff", "-U0", "--", f], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", df, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for i in range(a - 1, a - 1 + n):
                    changed += 1
                    orig += bl[i].startswith("^")
        rc, out = ns(repo, "bash /opt/vp/build.sh")
        if rc:
            return f"{bid}: does not build: {out[-1500:]}"
        rc, out = ns(repo, f"bash /opt/vp/test.sh {d}/out.json")
        res = json.load(open(d + "/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base if isinstance(base, list) else base.get("tests") or base.get("stable") or base.get("passed") or list(base)
        if isinstance(want, dict):
            want = list(want)
        got = set(res.get("passed", [])) if isinstance(res, dict) else set(res)
        miss = [t for t in want if t not in got]
        shutil.copytree(os.path.join(SEED, bid), demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        rc1, out1 = ns(repo, f"bash {demo}/demo.sh", timeout=300)
        copy(clean)
        rc0, out0 = ns(clean, f"bash {demo}/demo.sh", timeout=300)
        ok = rc0 == 0 and rc1 not in (0, -1) and not miss and orig > 0
        return (f"{bid}: {'COUNTS' if ok else 'DOES NOT COUNT'} original lines {orig}/{changed} tests missing {miss[:3]} demo clean {rc0} patched {rc1}\n"
                + ("" if ok else f"--- clean\n{out0[-600:]}\n") + f"    patched says: {out1.strip()[-200:]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(bid, props, tier="quick"):
    d = tempfile.mkdtemp(prefix="seedrun-", dir="/tmp")
    try:
        repo, verif = d + "/repo", d + "/verif"
        err = patched(bid, repo)
        if err:
            return f"{bid}: does not apply: {err}"
        os.mkdir(verif)
        subprocess.run(["rsync", "-a", "--exclude", "/work", "--exclude", "/seeded", V + "/", verif + "/"], check=True)
        own = json.load(open(os.path.join(SEED, bid, "meta.json")))["property"]
        res = []
        for p in props or [own]:
            rc, out = ns(repo, f"cd /verif && timeout -k 5 900 python3 bin/check.py {p} --tier {tier}", verif=verif, env={"VERIF_SEED": "1", "VERIF_TIER": tier}, timeout=1000)
            hit = rc == 1 and f"VIOLATION property={p}" in out
            first = next((l for l in out.split("\n") if "VIOLATION" in l), "")
            res.append(f"  {bid} / {p}: {'CAUGHT' if hit else 'quiet' if rc == 0 else f'exit {rc}'} {first[:200]}"
                       + ("" if rc in (0, 1) else out[-800:]))
        return "\n".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("what"); ap.add_argument("ids", nargs="*"); ap.add_argument("--props"); ap.add_argument("--tier", default="quick")
    ap.add_argument("-j", type=int, default=2)
    a = ap.parse_intermixed_args()
    ids = a.ids or sorted(os.listdir(SEED))
    f = confirm if a.what == "confirm" else lambda i: run(i, a.props.split(",") if a.props else None, a.tier)
    with ThreadPoolExecutor(a.j) as ex:
        for r in ex.map(f, ids):
            print(r, flush=True)
