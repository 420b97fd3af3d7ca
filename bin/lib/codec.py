"""The codec: bytes computed by the Quint specification in spec/quint, and comparisons with the real code."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from vf import ROOT, ToolError

sys.set_int_max_str_digits(0)
QSPEC = os.path.join(ROOT, "spec", "quint")


def num(x):
    return int(x["#bigint"]) if isinstance(x, dict) else x


def parts(ps):
    return b"".join(num(p["v"]).to_bytes(num(p["n"]), "big") for p in ps)


def quint(c, module, args, jobs=None, timeout=800):
    """Runs `quint run` on a copy of the specification; returns the states of the traces."""
    c.ntlc += 1
    d = os.path.join(c.work, f"q{c.ntlc}")
    os.makedirs(d)
    for f in os.listdir(QSPEC):
        if f.endswith(".qnt"):
            shutil.copy(os.path.join(QSPEC, f), d)
    if jobs is not None:
        open(os.path.join(d, "jobs.qnt"), "w").write(jobs)
    env = dict(os.environ, HOME=os.environ.get("HOME", "/root"))
    itf = os.path.join(d, "out_{seq}.itf.json")
    cmd = ["quint", "run", *args, "--out-itf", itf, os.path.join(d, module + ".qnt")]
    try:
        r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"quint timed out on {module}")
    outs = sorted(f for f in os.listdir(d) if f.endswith(".itf.json"))
    if r.returncode != 0 or not outs:
        sys.stderr.write(r.stdout[-3000:])
        raise ToolError(f"quint fails on {module} (exit {r.returncode})")
    tr = [json.load(open(os.path.join(d, f)))["states"] for f in outs]
    shutil.rmtree(d, ignore_errors=True)
    return tr


def jobs_module(chunks):
    rows = []
    for f, v, e, size, pts in chunks:
        l = ", ".join("0x" + pts[k:k + size][::-1].hex() for k in range(0, len(pts), size))
        rows.append(f"    {{ fmt: {f}, ver: {v}, eb: {e}, pts: [{l}] }}")
    return ("module jobs {\n  pure val jobs: List[{ fmt: int, ver: int, eb: int, pts: List[int] }] = [\n" + ",\n".join(rows) + "\n  ]\n}\n")


def cost(ch):
    f, v, e, size, pts = ch
    return len(pts) // size * (12 + e + (25 if f >= 6 else 10) + (15 if f in (4, 5, 9, 10) else 0)) + 20


def spec_chunks(c, chunks, procs=8):
    """The bytes the specification gives for chunks (fmt, ver, eb, point size, points)."""
    res = [None] * len(chunks)
    bins = [[] for _ in range(procs)]
    load = [0] * procs
    for i in sorted(range(len(chunks)), key=lambda i: -cost(chunks[i])):
        b = load.index(min(load))
        bins[b].append(i)
        load[b] += cost(chunks[i])

    def one(ids):
        if not ids:
            return
        t = quint(c, "chunktrace", ["--max-samples", "1", "--max-steps", str(len(ids))], jobs_module([chunks[i] for i in ids]))
        for i, s in zip(ids, t[0]):
            res[i] = parts(s["out"])
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, bins))
    if any(r is None for r in res):
        raise ToolError("the specification gave no bytes for some chunk")
    return res


# ------------------------------------------------------------------ sequences of coding operations
SYMS = [2, 3, 8, 16, 17, 33, 64, 256, 515, 1500]
INTS = [[8, 3, 8, 0], [16, 3, 8, 0], [32, 3, 8, 0], [1, 3, 8, 0], [5, 3, 8, 0], [13, 3, 8, 0], [31, 3, 8, 0], [24, 3, 4, 0],
        [16, 3, 8, 1000], [16, 3, 8, 3], [16, 3, 8, 65537], [16, 3, 8, 256], [32, 3, 11, 0]]
KINDS = ["s", "b", "r", "w1", "w8", "w16", "w32", "w64"]


def call(c):
    k, m, v = num(c["k"]), num(c["m"]), num(c["v"])
    if k == 8:
        return ["i", m, num(c["c"]), num(c["p"]), v]
    return [KINDS[k], m, v] if k < 3 else [KINDS[k], v]


def behaviours(c, traces, steps, seed, action="step", procs=8, timeout=800):
    """Behaviours of codergen: for each trace the calls of each batch and the bytes after it."""
    def one(i):
        t = quint(c, "codergen", ["--max-samples", str(max(1, traces // procs)), "--n-traces", str(max(1, traces // procs)), "--max-steps", str(steps), "--step", action,
                                  "--invariant", "Inv", "--seed", str(seed * 1000 + i)], timeout=timeout)
        return [[([call(x) for x in s["gen"]["calls"]], parts(s["out"])) for s in tr] for tr in t]
    with ThreadPoolExecutor(procs) as ex:
        return [t for ts in ex.map(one, range(procs)) for t in ts]


def point_size(fmt, eb):
    return [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67][fmt] + eb


def golden():
    return [json.loads(l) for l in open(os.path.join(QSPEC, "golden.jsonl"))]


def las_points(path):
    d = open(path, "rb").read()
    import struct
    at = struct.unpack_from("<I", d, 96)[0]
    fmt, size = struct.unpack_from("<BH", d, 104)
    n = struct.unpack_from("<I", d, 107)[0]
    return fmt & 0x3F, size, n, d, at


def reference_files(c, n):
    """The start of the chunks of the files LASzip has written, against the specification: this is about the specification alone,
    not about the code under test."""
    from vf import REPO
    d = os.path.join(REPO, "tests", "data")
    chunks, want = [], []
    for name, ver in [("point10", 2), ("point-time", 2), ("point-color", 2), ("point-time-color", 2), ("extra-bytes", 2), ("point-version-1-point-wise", 1)]:
        fmt, size, count, las, at = las_points(os.path.join(d, name + ".las"))
        _, _, _, laz, zat = las_points(os.path.join(d, name + ".laz"))
        chunks.append((fmt, ver, size - point_size(fmt, 0), size, las[at:at + n * size]))
        want.append(laz[zat + (0 if ver == 1 else 8):])
    for ch, w, s in zip(chunks, want, spec_chunks(c, chunks)):
        # the last bytes depend on what follows
        if s[:-5] != w[:len(s) - 5]:
            raise ToolError(f"the specification does not give what LASzip has written, point format {ch[0]} version {ch[1]}")
    c.notes.append(f"the specification was compared with the first {n} points of the 6 files of tests/data written by LASzip (all items of version 2, "
                   "version 1 of the points; complete chunks when it was written)")
