#!/usr/bin/env python3
"""Computes spec/quint/golden.jsonl: digests of the bytes the Quint specification gives for many chunks.

Run offline; it takes long. The points come from the harness' generators (which do not use the code under test), or,
profile "dec", are written out: they were once what random bytes decode to. The checks only compare with the file.
"""
import json, os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin", "lib"))
import vf, codec


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = (h ^ x) * 0x100000001b3 & (1 << 64) - 1
    return f"{h:016x}"


def main():
    vf.build()
    c = vf.Check("GOLDEN", "thorough", 1)
    r = random.Random(20261119)
    lays = [(f, v, e) for f in range(11) for v in ((1, 2) if f < 6 else (3, 4)) for e in (0, 1, 3)]
    reqs = []
    for f, v, e in lays:
        plan = [("mix", 300)] * 4 + [("walk", 300), ("rand", 150), ("slow", 1500 if e == 0 else 300), ("layers:40", 300)]
        plan += [("dec", 60)] * (4 if e else 6)
        for prof, n in plan:
            reqs.append(dict(op="chunk", fmt=f, ver=v, eb=e, n=n, prof=prof, seed=r.randrange(1 << 40)))
    for f, v, e in [(0, 1, 40), (3, 2, 27), (6, 3, 20), (7, 4, 20), (1, 2, 300)]:
        for prof, n in [("mix", 60), ("rand", 20), ("walk", 60)]:
            reqs.append(dict(op="chunk", fmt=f, ver=v, eb=e, n=n, prof=prof, seed=r.randrange(1 << 40)))
    r.shuffle(reqs)
    out = os.path.join(codec.QSPEC, "golden.jsonl")
    rows = []
    t = time.time()
    for k in range(0, len(reqs), 64):
        b = reqs[k:k + 64]
        got = c.run_harness("codec", b)
        ch = []
        for q, g in zip(b, got):
            p = bytes.fromhex(g["pts"])
            ch.append((q["fmt"], q["ver"], q["eb"], codec.point_size(q["fmt"], q["eb"]), p))
        sp = codec.spec_chunks(c, ch)
        for q, g, x, s in zip(b, got, ch, sp):
            row = {k: q[k] for k in ("fmt", "ver", "eb", "prof", "seed")}
            row.update(n=len(x[4]) // x[3], points=fnv(x[4]), chunk=fnv(s), len=len(s))
            if q["prof"] == "dec":
                row["pts"] = g["pts"]
            rows.append(row)
            if g.get("chunk") != s.hex():
                print("differs:", row)
        print(k, len(reqs), round(time.time() - t), flush=True)
    with open(out, "w") as f:
        for row in sorted(rows, key=lambda w: (w["fmt"], w["ver"], w["eb"], w["prof"], w["seed"])):
            f.write(json.dumps(row, separators=(",", ":")) + "\n")


main()
