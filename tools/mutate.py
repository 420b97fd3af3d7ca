#!/usr/bin/env python3
"""Many small changes to the code, to find what no check sees: mutate.py N [--seed S] [--files re] [-j J] [--out FILE]
A change is a single edit of one line.  Those that do not build or that the existing tests see are set aside; the checks that
go with the file are run on the others, one after the other, until one of them raises an alarm."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import ns, copy, V

CODEC = ["C02", "C01", "C18", "C11", "C13", "C15"]
CHECKS = [(r"las/file\.rs", ["C19", "C17", "C13"]), (r"las/selective", ["C11"]), (r"las/|models|packers", CODEC), (r"encoders|decoders|compressors", ["C18", "C02", "C01", "C15", "C13"]),
          (r"record\.rs", ["C02", "C01", "C11", "C15", "C17", "C14"]),
          (r"chunk_table", ["C09", "C03", "C08", "C06", "C16", "C14", "C15"]), (r"vlr\.rs", ["C12", "C13", "C07", "C19", "C03"]), (r"details", ["C13", "C17", "C12"]),
          (r"parallel/appender|sequential/appender", ["C10", "C14", "C15", "C16"]), (r"parallel/compression", ["C04", "C08", "C10", "C15", "C16", "C14"]),
          (r"parallel/decompression", ["C05", "C07", "C11", "C15", "C16", "C14", "C13"]), (r"sequential/compression", ["C03", "C08", "C10", "C15", "C16", "C14"]),
          (r"sequential/decompression", ["C06", "C17", "C11", "C15", "C16", "C14"]), (r"byteslice", ["C05", "C01"]), (r"lib\.rs|errors|mod\.rs", ["C01", "C13"])]

OPS = [(r"(?<=[\w\)\]]) < (?=[\w\(-])", " <= "), (r" <= ", " < "), (r"(?<=[\w\)\]]) > (?=[\w\(-])", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r" << ", " >> "), (r" >> ", " << "),
       (r" & ", " | "), (r" \| ", " & "), (r" \^= ", " |= "), (r"\.min\(", ".max("), (r"\bif ", "if !"), (r"\bif ", "if true || "), (r"\bif ", "if false && "),
       (r"\bbreak;", "continue;"), (r"SeekFrom::Start", "SeekFrom::Current"), (r" as u32\b", " as u8 as u32"), (r" as u64\b", " as u32 as u64"), (r" as usize\b", " as u16 as usize"),
       (r" as i64\b", " as i32 as i64"), (r" as u16\b", " as u8 as u16"), (r"\breal_\w+", "0")]


def mutants(repo, files):
    out = []
    for base, _, fs in os.walk(repo + "/src"):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(base, f), repo)
            if not f.endswith(".rs") or f == "test.rs" or not re.search(files, p):
                continue
            blame = subprocess.run(["git", "blame", "-s", "HEAD", "--", p], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.split("\n")
            lines = open(os.path.join(repo, p)).read().split("\n")
            skip = None
            comment = False
            for i, l in enumerate(lines):
                ind = len(l) - len(l.lstrip())
                t = l.strip()
                if '/*' in l or comment:
                    comment = '*/' not in l
                    continue
                if t.startswith("#[cfg(test)]"):
                    skip = ind
                if skip is not None:
                    if l.rstrip() == " " * skip + "}":
                        skip = None
                    continue
                if not t or t.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "debug_assert", "assert")) or not blame[i].startswith("^"):
                    continue
                code = re.sub(r"//.*$", "", l)
                if p.endswith("utils.rs") and t.startswith("["):   # a row of a table
                    if i % 7:
                        continue
                if '"' in code or "debug_assert" in code or "fn " in code and "{" not in code:
                    continue
                for pat, new in OPS:
                    for m in re.finditer(pat, code):
                        if "if " in pat and "if let" in code:
                            continue
                        out.append((p, i, code[:m.start()] + new + code[m.end():]))
                for m in re.finditer(r"(?<![\w\.#])(\d+)(?![\w\.])", code):
                    if not re.match(r"\s*(pub |impl|fn )", code):
                        out.append((p, i, code[:m.start()] + str(int(m[1]) + 1) + code[m.end():]))
                        if int(m[1]) > 0:
                            out.append((p, i, code[:m.start()] + str(int(m[1]) - 1) + code[m.end():]))
                for m in re.finditer(r"0b([01_]+)|0x([0-9A-Fa-f_]+)", code):
                    v = int(m[0].replace("_", ""), 0)
                    out.append((p, i, code[:m.start()] + hex(v ^ 1) + code[m.end():]))
                    out.append((p, i, code[:m.start()] + hex(v >> 1) + code[m.end():]))
                if re.match(r"^[\w\.\[\]\(\)&\* ]+( [-+|&^]?= .*|\(.*\)\??);$", t) and not t.startswith(("let ", "return", "type ")):
                    out.append((p, i, " " * ind + "{}"))
    return out


tl = threading.local()
lock = threading.Lock()
workers = []


def one(m, a):
    if not hasattr(tl, "d"):
        with lock:
            tl.d = f"/tmp/mut/w{len(workers)}"
            workers.append(tl.d)
        shutil.rmtree(tl.d, ignore_errors=True)
        os.makedirs(tl.d + "/verif")
        copy(tl.d + "/repo")
        subprocess.run(["rsync", "-a", "--exclude", "/work", "--exclude", "/seeded", V + "/", tl.d + "/verif/"], check=True)
    p, i, new = m
    full = os.path.join(tl.d, "repo", p)
    lines = open(full).read().split("\n")
    old = lines[i]
    lines[i] = new
    open(full, "w").write("\n".join(lines))
    res = {"file": p, "line": i + 1, "old": old.strip(), "new": new.strip()}
    try:
        env = dict(os.environ, CARGO_TARGET_DIR=tl.d + "/target", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", HOME="/root")
        try:
            for feat in (["--features", "parallel"],):
                r = subprocess.run(["cargo", "test", "--offline", "-q", *feat], cwd=tl.d + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
                if r.returncode:
                    res["res"] = "does not build" if "could not compile" in r.stdout else "seen by the tests"
                    return res
        except subprocess.TimeoutExpired:
            res["res"] = "seen by the tests"
            return res
        finally:
            subprocess.run(["pkill", "-f", tl.d + "/target/debug"], stdout=subprocess.DEVNULL)
        ps = next(c for k, c in CHECKS if re.search(k, p))
        for q in ps:
            rc, out = ns(tl.d + "/repo", f"cd /verif && timeout -k 5 900 python3 bin/check.py {q} --tier quick", verif=tl.d + "/verif", env={"VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=1000)
            if rc == 1 and "VIOLATION" in out:
                res["res"] = "caught by " + q
                return res
            if rc != 0:
                res["res"] = f"{q} exits {rc}: " + out[-600:]
                return res
        res["res"] = "NOT CAUGHT by " + " ".join(ps)
        return res
    finally:
        lines[i] = old
        open(full, "w").write("\n".join(lines))


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("n", type=int); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--files", default="."); ap.add_argument("-j", type=int, default=2)
    ap.add_argument("--out", default="/tmp/mutants.jsonl"); ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    ms = mutants("/repo", a.files)
    print(len(ms), "mutants", file=sys.stderr)
    ms = random.Random(a.seed).sample(ms, min(a.n, len(ms)))
    if a.list:
        for m in ms:
            print(m)
        sys.exit()
    with ThreadPoolExecutor(a.j) as ex, open(a.out, "a") as f:
        for r in ex.map(lambda m: one(m, a), ms):
            f.write(json.dumps(r) + "\n")
            f.flush()
    shutil.rmtree("/tmp/mut", ignore_errors=True)
