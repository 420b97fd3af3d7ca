"""The checks, one per property: which models TLC explores, which behaviours are replayed on the real code."""
import hashlib, json, random
import codec
from vf import ToolError, REPO

PW = [(f, v, e) for f in range(6) for v in (1, 2) for e in (0, 1, 3, 7)]
LAY = [(f, v, e) for f in range(6, 11) for v in (3, 4) for e in (0, 1, 3, 7)]
ALL32 = 0xFFFFFFFF


def rng_of(c, salt):
    return random.Random(f"{c.seed}-{c.prop}-{salt}")


class Layouts:
    """Cycles through every layout so that each is used about equally often."""

    def __init__(self, r, pw=None, lay=None):
        self.q = {False: list(pw or PW), True: list(lay or LAY)}
        for v in self.q.values():
            r.shuffle(v)
        self.i = {False: 0, True: 0}

    def next(self, lay):
        q = self.q[lay]
        self.i[lay] += 1
        return q[self.i[lay] % len(q)]


def session(r, lays, lay, var, cs, n, ops, **kw):
    f, v, e = lays.next(lay)
    s = dict(fmt=f, ver=v, eb=e, var=var, cs=cs, n=max(n, 1), prof="mix", seed=r.randrange(1 << 30), ops=ops)
    s.update(kw)
    return s


def cfg(consts, props=(), invs=(), view=None, extra=""):
    t = "SPECIFICATION Spec\nCONSTANTS\n"
    for k, v in consts.items():
        t += f"  {k} {v}\n"
    if view:
        t += f"VIEW {view}\n"
    if props:
        t += "PROPERTY " + " ".join(props) + "\n"
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    return t + "CHECK_DEADLOCK FALSE\n" + extra


# ------------------------------------------------------------------ models
def reader_scripts(c, par, full=None):
    full = c.thorough if full is None else full
    m = "MCParReader" if par else "MCSeqReader"
    txt = c.tlc(m, cfg({"Configs": "<- FullConfigs" if full else "<- QuickConfigs", "Emit": "= TRUE", "Walk": "= 0"}, ["Refines"], view="View"))
    return c.scripts(txt)


def reader_walks(c, par, count, depth=16):
    """Random walks of the reader models (TLC's simulation), over somewhat larger streams than the cover."""
    m = "MCParReader" if par else "MCSeqReader"
    txt = c.tlc(m, cfg({"Configs": "<- WalkConfigs", "Emit": "= FALSE", "Walk": f"= {depth}"}, ["Refines"], ["SayWalk"]),
                extra=("-simulate", f"num={count}", "-depth", str(depth), "-seed", str(c.seed)))
    # it prints every way to end a walk: one of them is enough
    one = {}
    for s in c.scripts(txt):
        one.setdefault(json.dumps([s["cfg"], s["ops"][:-1]]), []).append(s)
    r = rng_of(c, "walk")
    return [r.choice(x) for x in one.values()]


def writer_scripts(c, configs, kinds="AllKinds", calls=3, acalls=2, apps=0, groups="Grps"):
    txt = c.tlc("MCWriters", cfg({"Configs": "<- " + configs, "Kinds": "<- " + kinds, "MaxCalls": f"= {calls}",
                                  "MaxACalls": f"= {acalls}", "MaxAppends": f"= {apps}", "Groups": "<- " + groups,
                                  "Emit": "= TRUE", "Walk": "= FALSE"}, ["Refines"], ["StreamOK", "NothingLost"]))
    return c.scripts(txt)


def writer_walks(c, configs, kinds, count, calls=8, acalls=4, apps=0):
    """Random walks of Writers (TLC's simulation): longer histories, calls around what is missing to a full chunk."""
    txt = c.tlc("MCWriters", cfg({"Configs": "<- " + configs, "Kinds": "<- " + kinds, "MaxCalls": f"= {calls}",
                                  "MaxACalls": f"= {acalls}", "MaxAppends": f"= {apps}", "Groups": "<- WalkGrps",
                                  "Emit": "= FALSE", "Walk": "= TRUE"}, ["Refines"], ["StreamOK", "NothingLost", "SayWalk"]),
                extra=("-simulate", f"num={count}", "-depth", "100", "-seed", str(c.seed)))
    return c.scripts(txt)


def sample(r, l, k):
    return l if len(l) <= k else r.sample(l, k)


# ------------------------------------------------------------------ readers
def expand_reader(c, r, scripts, lays, par, **kw):
    out = []
    for s in scripts:
        g = s["cfg"]
        n = sum(g["sizes"])
        ops = [dict(o) for o in s["ops"]]
        for o in ops:
            if o["o"] == "ropen":
                o["k"] = "par" if par else "seq"
                if par:
                    o["th"] = r.choice([1, 2, 3, 8])
                if g["lay"] and r.random() < kw.get("selp", 0.0):
                    o["sel"] = r.choice([r.randrange(1 << 12), 1 << r.randrange(12), 0xFFF ^ (1 << r.randrange(12)), 0])
            if o["o"] == "r" and o.get("m") == "one" and r.random() < 0.3:
                o["m"] = "trait"
        st = r.choice([0, 0, 0, 1, 227, 1000]) if kw.get("starts") else 0
        tail = r.choice([0, 0, 1, 60, 500]) if kw.get("tails") else 0
        out.append(session(r, lays, g["lay"], g["var"], g["cs"], n, ops, start=st, tail=tail))
    return out


def big_readers(c, r, lays, par, count, **kw):
    """Random histories of reads and seeks over streams with many and large chunks."""
    out = []
    for i in range(count):
        lay = bool(i % 2)
        var = r.random() < 0.5
        big = i % 10 == 0
        cs = r.choice([1, 2, 7, 50, 100, 333]) if not big else r.choice([2000, 5000])
        n = r.randrange(1, 600) if not big else r.randrange(3000, 12000)
        if var:
            sizes = []
            while sum(sizes) < n:
                sizes.append(min(r.choice([1, 1, 2, 3, 10, 40, 200, 900 if not big else 4000]), n - sum(sizes)))
            wops = [{"o": "wopen"}, {"o": "chunks", "s": sizes}, {"o": "done"}]
        else:
            sizes = [cs] * (n // cs) + ([n % cs] if n % cs else [])
            wops = [{"o": "wopen"}, {"o": "w", "n": n}, {"o": "done"}]
        op = {"o": "ropen", "k": "par" if par else "seq", "th": r.choice([1, 2, 4, 8])}
        if lay and r.random() < kw.get("selp", 0.3):
            op["sel"] = r.randrange(1 << 12)
        tail = r.choice([0, 0, 1, 77, 3000])
        if not tail and r.random() < 0.2:
            wops.append({"o": "trailoff"})
        ops = wops + [op]
        edges = [0]
        for z in sizes:
            edges.append(edges[-1] + z)
        cur = 0
        for _ in range(r.randrange(3, 12)):
            if r.random() < kw.get("seekp", 0.5):
                b = r.choice(edges)
                i_ = max(0, r.choice([b - 1, b, b + 1, r.randrange(n), n - 1, n, n + r.randrange(1, 10000)] +
                                     ([cur + r.choice([-2, -1, 0, 1, 2, r.randrange(-20, 20), r.randrange(-200, 200)]) for _ in range(5)] if cur is not None else [])))
                ops.append({"o": "seek", "i": i_})
                cur = i_ if i_ < n else None
            else:
                left = n - cur if cur is not None else 3
                k = r.choice([1, 2, r.choice(sizes), r.randrange(1, n + 1), left, left + 1, min(left, sizes[0] + 1), r.randrange(1, 1 + min(n, max(sizes)))])
                if not par and r.random() < 0.8 or par and r.random() < 0.9:
                    k = min(k, max(left, 1))
                k = max(1, k) if r.random() < 0.95 else 0
                ops.append({"o": "r", "n": k, "m": r.choice(["many", "many", "one", "trait"]) if k < 500 else "many"})
                if cur is not None:
                    cur += k
                    if cur > n:
                        cur = None
        out.append(session(r, lays, lay, var, cs, n, ops, start=r.choice([0, 0, 5, 375]), tail=tail,
                           prof=r.choice(["mix", "mix", "slow", "walk", "rand"])))
    return out


def many_chunks_read(c, r, lays, par, seeks):
    """Streams of very many chunks (more than 8 and 16 bits can count)."""
    out = []
    for k in ([257, 300, 513, 1030, 2100] if c.thorough else [257, 700]) + [66000]:
        for var in (False, True):
            if k > 60000 and var and not (c.thorough or seeks):
                continue
            cs = 1 if var else r.choice([1, 2, 3]) if k < 60000 else 1
            lay = r.random() < 0.5 if k < 60000 else False
            sizes = [r.choice([1, 1, 2, 5] if k < 60000 else [1, 1, 2]) for _ in range(k)] if var else [cs] * k
            n = sum(sizes)
            wops = [{"o": "wopen", "k": "par", "th": 8}, {"o": "chunks", "s": sizes} if var else {"o": "w", "n": n, "m": "many"}, {"o": "done"}]
            ops = wops + [{"o": "ropen", "k": "par" if par else "seq", "th": r.choice([1, 2, 8])}, {"o": "r", "n": n}, {"o": "r", "n": 1}, {"o": "close"},
                          {"o": "ropen", "k": "par" if par else "seq", "th": r.choice([1, 2, 8])}]
            a = r.choice([1, n // 3, n - 1])
            ops += [{"o": "r", "n": a}, {"o": "r", "n": min(n - a, 1 + r.randrange(n))}]
            for _ in range(6 if seeks else 0):
                i = r.choice([0, r.randrange(n), n - 1, sum(sizes[:255]), sum(sizes[:256]), min(n - 1, 65535), min(n - 1, 65536), sum(sizes[:256]) + 1])
                ops += [{"o": "seek", "i": i}, {"o": "r", "n": r.choice([1, min(n - i, 5), min(n - i, 300), n - i])}]
            if seeks:
                for i in (n - 1, r.randrange(n // 2, n)):
                    ops += [{"o": "seek", "i": i}, {"o": "r", "n": n - i}, {"o": "r", "n": 1, "m": "many"}]
            out.append(session(r, lays, lay, var, cs, n, ops, prof="slow" if k > 60000 else "mix"))
            if k > 60000:
                out[-1].update(fmt=0, ver=1, eb=0)   # codecs of other layouts take long to start
    return out


def c06(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = reader_scripts(c, False)
    c.sessions(expand_reader(c, r, sample(r, sc, 40000), lays, False, starts=True, tails=True), "transition cover of SeqReader")
    c.sessions(expand_reader(c, r, reader_walks(c, False, 4000 if c.thorough else 400) * 2, lays, False, starts=True, tails=True), "random walks of SeqReader")
    c.sessions(big_readers(c, r, lays, False, 3000 if c.thorough else 500), "random histories, large streams")
    c.sessions(many_chunks_read(c, r, lays, False, True), "streams of very many chunks")
    c.sessions(wide_read(c, r, lays, False, True), "streams of very large chunks")
    return c.finish("model_checking", "every transition (read/seek) of the SeqReader model from every reachable state, "
                    "each over a rotating layout; plus random seek/read histories over larger streams; a trace is "
                    "non-trivial if its recorded events differ from all others")



def c07(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = [s for s in reader_scripts(c, True) if any(o["o"] == "seek" for o in s["ops"])]
    c.sessions(expand_reader(c, r, sample(r, sc, 40000), lays, True, starts=True, tails=True, selp=0.3), "transition cover of ParReader (seeks)")
    c.sessions(expand_reader(c, r, reader_walks(c, True, 4000 if c.thorough else 400) * 2, lays, True, starts=True, tails=True, selp=0.3), "random walks of ParReader")
    c.sessions(big_readers(c, r, lays, True, 3000 if c.thorough else 500), "random histories, large streams")
    c.sessions(many_chunks_read(c, r, lays, True, True), "streams of very many chunks")
    c.sessions(wide_read(c, r, lays, True, True), "streams of very large chunks")
    return c.finish("model_checking", "every transition of the ParReader model from every reachable state whose shortest "
                    "history has a seek, each over a rotating layout, thread count and selection; plus random histories "
                    "over larger streams; a trace is non-trivial if its recorded events differ from all others")


# ------------------------------------------------------------------ damage
HURTS = ("chunk", "chunk", "chunk", "first", "sizes", "n")


def hurt_op(r, k, soft=False):
    return {"o": "hurt", "at": "layer" if soft else r.choice(HURTS), "k": k, "f": r.randrange(100), "v": r.randrange(1 << 30)}


def damage_scripts(c, r, lays, par):
    """Histories of the reader models over streams with damaged chunks."""
    m = "MCParReader" if par else "MCSeqReader"
    txt = c.tlc(m, cfg({"Configs": "<- HurtFull" if c.thorough else "<- HurtQuick", "Emit": "= TRUE", "Walk": "= 0"}, ["Refines"], view="View"))
    seen, out = set(), []
    for s in c.scripts(txt):
        g = s["cfg"]
        key = json.dumps([g["sizes"], g["cs"], g["var"], g["lay"], g["bad"], g["soft"], s["ops"]])
        if key in seen:
            continue   # the fate of damaged chunks is not ours to choose
        seen.add(key)
        n = sum(g["sizes"])
        ops = []
        for o in s["ops"]:
            o = dict(o)
            if o["o"] == "ropen":
                ops += [hurt_op(r, k, g["soft"]) for k in sorted(g["bad"])]
                o["k"] = "par" if par else "seq"
                if par:
                    o["th"] = r.choice([1, 2, 3, 8])
                if g["lay"] and r.random() < 0.3:
                    o["sel"] = r.choice([r.randrange(1 << 12), 0xFFF ^ (1 << r.randrange(12))])
            if o["o"] == "r" and o.get("m") == "one" and r.random() < 0.3:
                o["m"] = "trait"
            ops.append(o)
        # whatever happened, calls do not panic, and the first chunk that is whole can be sought
        ops.append({"o": "r", "n": r.choice([1, 2, n]), "m": r.choice(["one", "many"])})
        good = [k for k in range(len(g["sizes"])) if k not in g["bad"]]
        if good:
            k = r.choice(good)
            ops += [{"o": "seek", "i": sum(g["sizes"][:k]) + r.randrange(g["sizes"][k])}, {"o": "r", "n": 1, "m": r.choice(["one", "many"])}]
        out.append(session(r, lays, g["lay"], g["var"], g["cs"], n, ops))
    return out


def damaged(c, r, lays, count):
    """Larger streams, damaged in chunks, layers, table, offset or anywhere, by every reader, helper and appender."""
    out = []
    for i in range(count):
        lay = r.random() < 0.6
        var = r.random() < 0.5
        cs = r.choice([1, 2, 5, 30, 200])
        k = r.randrange(1, 7)
        sizes = [r.choice([1, 2, 5, 40, 300]) if var else cs for _ in range(k)]
        if not var and r.random() < 0.5:
            sizes[-1] = r.randrange(1, cs + 1)
        n = sum(sizes)
        ops = [{"o": "wopen", "k": r.choice(["seq", "par"])}, {"o": "chunks", "s": sizes} if var else {"o": "w", "n": n}, {"o": "done"}]
        kind = r.random()
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if kind < 0.35:
                ops.append(hurt_op(r, r.randrange(k)))
            elif kind < 0.65:
                ops.append(hurt_op(r, r.randrange(k), lay))
            else:
                ops.append({"o": "hurt", "at": r.choice(["table", "table", "count", "offset", "any", "chunk"]), "k": r.randrange(k), "v": r.randrange(1 << 30)})
        if kind >= 0.65:
            ops.append({"o": "table"})
        edges = [0]
        for z in sizes:
            edges.append(edges[-1] + z)
        for rk in ("seq", "par"):
            op = {"o": "ropen", "k": rk, "th": r.choice([1, 2, 4, 8])}
            if lay and r.random() < 0.4:
                op["sel"] = r.randrange(1 << 12)
            ops.append(op)
            for _ in range(r.randrange(4, 12)):
                b = r.choice(edges)
                at = min(n - 1, max(0, r.choice([b, b, b - 1, b + 1, r.randrange(n)])))
                if r.random() < 0.7:
                    ops.append({"o": "seek", "i": at if r.random() < 0.9 else n + r.randrange(3)})
                m = r.choice(["one", "many", "trait"])
                ops.append({"o": "r", "n": r.choice([1, 2, sizes[0], r.choice(sizes), n - at, n, r.randrange(1, n + 2)]), "m": m})
            ops.append({"o": "close"})
            ops.append({"o": "dbuf", "k": rk, "n": r.choice([n, n, r.randrange(n + 1)]), "th": r.choice([1, 3, 8])})
        ops.append({"o": "dbuf", "k": "chunk", "n": n, "th": 3})
        if lay and r.random() < 0.5:
            ops[-1]["sel"] = r.randrange(1 << 12)
        if r.random() < 0.5:
            ops.append({"o": "aopen", "k": r.choice(["seq", "par"]), "pc": r.choice([0, n, r.randrange(n + 1)])})
            ops += [{"o": "chunks", "s": [1]} if var else {"o": "w", "n": 1}, {"o": "done"}]
        start = r.choice([0, 0, 9])
        if start:
            ops = [o for o in ops if o["o"] != "dbuf"]   # the helpers take a stream that starts at 0
        out.append(session(r, lays, lay, var, cs, n + 1, ops, start=start, tail=r.choice([0, 0, 33]),
                           prof=r.choice(["mix", "slow", "walk", "rand", "const"])))
    return out


def c20(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    for par in (False, True):
        sc = damage_scripts(c, r, lays, par)
        c.sessions(sample(r, sc, 60000 if c.thorough else 9000), f"histories of {'ParReader' if par else 'SeqReader'} over damaged streams")
    c.sessions(damaged(c, r, lays, 20000 if c.thorough else 2500), "larger streams, damaged anywhere")
    return c.finish("model_checking", "transition cover of both reader models over streams with every set of damaged chunks "
                    "(or layers), each on a rotating layout with random damage; random histories over larger streams with damaged "
                    "chunks, layers, chunk tables, offsets; a trace is non-trivial if its recorded events differ from all others")


def c05(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = [s for s in reader_scripts(c, True) if not any(o["o"] == "seek" for o in s["ops"])]
    c.sessions(expand_reader(c, r, sc * (4 if c.thorough else 2), lays, True, starts=True, tails=True), "transition cover of ParReader (reads)")
    c.sessions(big_readers(c, r, lays, True, 2500 if c.thorough else 400, seekp=0.0), "random histories, large streams")
    c.sessions(many_chunks_read(c, r, lays, True, False), "streams of very many chunks")
    c.sessions(wide_read(c, r, lays, True, False), "streams of very large chunks")
    c.sessions(buffer_helpers(c, r, lays), "buffer helpers")
    return c.finish("model_checking", "every read history of the ParReader model (transition cover), random read histories "
                    "over larger streams and thread counts 1..8, the buffer helpers over every point count up to past "
                    "the end; a trace is non-trivial if its recorded events differ from all others")


def buffer_helpers(c, r, lays):
    """par_decompress_buffer, par_decompress, par_decompress_selective, decompress_buffer."""
    out = []
    for lay in (False, True):
        for var in (False, True):
            for sizes, cs in [([], 3), ([1], 3), ([3], 3), ([3, 3, 2], 3), ([1, 1, 1], 1), ([5, 1, 4, 2], 6), ([40] * 6 + [7], 40)]:
                if not var:
                    t = sum(sizes)
                    sizes = [cs] * (t // cs) + ([t % cs] if t % cs else [])
                t = sum(sizes)
                w = [{"o": "wopen"}] + ([{"o": "chunks", "s": sizes}] if var else [{"o": "w", "n": t}]) + [{"o": "done"}]
                ns = sorted({0, 1, 2, t - 1, t, t + 1, t + cs, t // 2} & set(range(0, t + 2 * cs + 1)))
                for k in ("seq", "par", "chunk"):
                    ops = list(w)
                    for n in ns:
                        for th in ([1] if k == "seq" else [1, 2, 8]):
                            op = {"o": "dbuf", "k": k, "n": n, "th": th}
                            if k == "chunk" and lay and r.random() < 0.5:
                                op["sel"] = r.randrange(1 << 12)
                            ops.append(op)
                    for _ in range(2 if not c.thorough else 8):
                        out.append(session(r, lays, lay, var, cs, t, ops))
    return out


# ------------------------------------------------------------------ writers
def after_done(ops, extra):
    out = []
    for o in ops:
        out.append(o)
        if o["o"] == "done":
            out += [dict(x) for x in extra]
    return out


def expand_writer(r, scripts, lays, **kw):
    out = []
    for s in scripts:
        g = s["cfg"]
        lay = r.random() < 0.5
        ops = [dict(o) for o in s["ops"]]
        for o in ops:
            if o["o"] == "w":
                o["m"] = r.choice(["many", "many", "one", "trait"])
            if o["o"] in ("wopen", "aopen"):
                o["th"] = r.choice([1, 2, 3, 8])
        ops = after_done(ops, kw.get("post", [{"o": "look"}, {"o": "cmp"}]))
        ops += kw.get("end", [])
        out.append(session(r, lays, lay, g["var"], g["cs"], s["pts"], ops,
                           start=r.choice([0, 0, 0, 1, 8, 375]) if kw.get("starts") else 0,
                           tail=r.choice([0, 0, 40]) if kw.get("tails") else 0))
    return out


def split_calls(r, n, cs):
    """A way of handing n points to a fixed-size writer."""
    calls, left = [], n
    while left > 0:
        room = cs - (n - left) % cs   # what is missing to a full chunk
        k = min(left, r.choice([1, 1, 2, cs - 1, cs, cs + 1, 2 * cs, 2 * cs + 1, r.randrange(1, 3 * cs + 2), left,
                                room - 1, room - 2, room - 1 - r.randrange(cs) // 8, room, room + 1, room + cs, room + cs + 1]))
        k = max(k, 1)
        calls.append({"o": "w", "n": k, "m": r.choice(["many", "many", "one", "trait"]) if k < 2000 else "many"})
        left -= k
        if r.random() < 0.1:
            calls.append({"o": "w", "n": 0})
    return calls


def big_fixed(c, r, lays, kinds, count):
    out = []
    for i in range(count):
        lay = bool(i % 2)
        big = i % 12 == 0
        cs = r.choice([1, 2, 5, 16, 63, 100, 250]) if not big else r.choice([1000, 4096, 50000])
        m = r.choice([0, 1, 2, 3, 5])
        n = max(0, cs * m + r.choice([-1, 0, 1, r.randrange(cs)]))
        n = min(n, 1200 if not big else (120000 if cs == 50000 and i % 24 == 0 else 12000))
        k = r.choice(kinds)
        ops = [{"o": "wopen", "k": k, "th": r.choice([1, 2, 3, 5, 8])}]
        if r.random() < 0.3:
            ops.append({"o": "res"})
        ops += split_calls(r, n, cs) + [{"o": "done"}, {"o": "look"}, {"o": "cmp"}]
        if r.random() < 0.2:
            ops = [{"o": "cbuf", "k": k, "n": n, "th": r.choice([1, 2, 8])}, {"o": "look"}, {"o": "cmp"}]
        out.append(session(r, lays, lay, False, cs, n, ops, prof=r.choice(["mix", "mix", "slow", "walk", "rand", "const"])))
    return out


def cbuf_sessions(r, lays, kinds):
    out = []
    for lay in (False, True):
        for cs in (1, 2, 3, 10):
            for n in sorted({0, 1, cs - 1, cs, cs + 1, 2 * cs, 3 * cs + 1}):
                for k in kinds:
                    for th in ([2] if k == "seq" else [1, 2, 8]):
                        out.append(session(r, lays, lay, False, cs, n, [{"o": "cbuf", "k": k, "n": n, "th": th},
                                                                       {"o": "look"}, {"o": "cmp"}], start=r.choice([0, 0, 7])))
    return out


def c03(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = writer_scripts(c, "FixedFull" if c.thorough else "FixedQuick", "SeqOnly", calls=4 if c.thorough else 3)
    for _ in range(3 if c.thorough else 2):
        c.sessions(expand_writer(r, sc, lays), "histories of Writers, sequential, fixed-size")
    c.sessions(expand_writer(r, writer_walks(c, "WalkFixed", "SeqOnly", 6000 if c.thorough else 800), lays), "random walks of Writers")
    c.sessions(cbuf_sessions(r, lays, ["seq"]), "buffer helper")
    c.sessions(big_fixed(c, r, lays, ["seq"], 1500 if c.thorough else 240), "random call splits, larger chunks")
    c.sessions(wide_fixed(c, r, lays, ["seq"]), "chunk sizes of 16 to 32 bits")
    return c.finish("model_checking", "every history of up to 3 (thorough: 4) calls of the Writers model, each over rotating "
                    "layouts and call styles; every stream is parsed independently and each chunk compared with the "
                    "bytes a fresh codec gives for its points, and the whole with one-by-one compression; plus random "
                    "call splits over larger chunks; a trace is non-trivial if its recorded events differ from all others")


def gate_sessions(c, r, lays):
    """Every order in which the chunk jobs of one call can start, enforced on the real pool."""
    out = []
    import json as _j
    plans = [(4, 4), (3, 3)] + ([(5, 5)] if c.thorough else [])
    for K, T in plans:
        txt = c.tlc("ParJobs", cfg({"K": f"= {K}", "T": f"= {T}", "Fail": "= {}", "Emit": "= TRUE"}, ["Finishes"], ["InOrder"]))
        orders = sorted({tuple(x - 1 for x in o) for o in c.scripts(txt, "ORDER ")})
        if len(orders) < 6:
            raise ToolError("ParJobs gave no schedules")
        for o in orders:
            sizes = [r.randrange(1, 6) for _ in range(K)]
            if r.random() < 0.3:
                sizes[o[0]] = 300   # the first to start is the last to end
            out.append(session(r, lays, r.random() < 0.5, True, 1, sum(sizes),
                               [{"o": "wopen", "k": "par", "th": K}, {"o": "chunks", "s": sizes, "gate": list(o)}, {"o": "done"},
                                {"o": "look"}, {"o": "cmp"}]))
    for T in (1, 2, 3):
        c.tlc("ParJobs", cfg({"K": "= 4", "T": f"= {T}", "Fail": "= {2, 3}", "Emit": "= FALSE"}, ["Finishes"], ["InOrder"]))
    return out


def heavy_front(c, r, lays):
    """Chunks of very different cost in one call, so that later jobs end first."""
    out = []
    for i in range(60 if c.thorough else 24):
        lay = bool(i % 2)
        var = r.random() < 0.6
        th = r.choice([2, 3, 4, 8])
        if var:
            sizes = [r.choice([4000, 1, 2, 50, 900, 1]) for _ in range(r.randrange(3, 12))]
            ops = [{"o": "wopen", "k": "par", "th": th}, {"o": "chunks", "s": sizes}, {"o": "chunks", "s": [3, 700, 1]}, {"o": "done"}]
            n = sum(sizes) + 704
            cs = 1
        else:
            cs = r.choice([300, 700])
            n = cs * r.randrange(3, 14) + r.randrange(cs)
            ops = [{"o": "wopen", "k": "par", "th": th}] + split_calls(r, n, cs) + [{"o": "done"}]
        out.append(session(r, lays, lay, var, cs, n, ops + [{"o": "look"}, {"o": "cmp"}], prof=r.choice(["mix", "slow"])))
    return out


def many_chunks(c, r, lays):
    """Chunks by the hundreds (and more than 16 bits can count) in one call."""
    out = []
    for k in ([257, 300, 513, 1030, 2100] if c.thorough else [257, 300, 700, 1030]):
        for var in (False, True):
            th = r.choice([2, 3, 8])
            cs = 1 if var else r.choice([1, 2, 3])
            sizes = [r.choice([0, 1, 1, 2, 5]) for _ in range(k)] if var else None
            n = sum(sizes) if var else k * cs + r.randrange(cs)
            one = {"o": "chunks", "s": sizes} if var else {"o": "w", "n": n, "m": "many"}
            out.append(session(r, lays, r.random() < 0.5, var, cs, n, [{"o": "wopen", "k": "par", "th": th}, one, {"o": "done"}, {"o": "look"}, {"o": "cmp"}],
                               prof="mix"))
    n = 66000
    out.append(session(r, lays, False, False, 1, n, [{"o": "wopen", "k": "par", "th": 8}, {"o": "w", "n": n, "m": "many"}, {"o": "done"},
                                                     {"o": "cmp"}], prof="slow"))
    out[-1].update(fmt=0, ver=1, eb=0)   # codecs of other layouts take long to start
    return out


def c04(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = writer_scripts(c, "FixedFull" if c.thorough else "FixedQuick", "ParOnly", calls=4 if c.thorough else 3)
    sv = writer_scripts(c, "VarQuick", "ParOnly", calls=4 if c.thorough else 3)
    for _ in range(3 if c.thorough else 2):
        c.sessions(expand_writer(r, sc, lays), "histories of Writers, parallel, fixed-size")
        c.sessions(expand_writer(r, sv, lays), "histories of Writers, parallel, variable-size")
    c.sessions(expand_writer(r, writer_walks(c, "WalkBoth", "ParOnly", 6000 if c.thorough else 800), lays), "random walks of Writers")
    c.sessions(gate_sessions(c, r, lays), "every start order of the chunk jobs")
    c.sessions(heavy_front(c, r, lays), "unequal chunk jobs")
    c.sessions(many_chunks(c, r, lays), "very many chunk jobs")
    c.sessions(cbuf_sessions(r, lays, ["par"]), "buffer helper")
    c.sessions(big_fixed(c, r, lays, ["par"], 1200 if c.thorough else 200), "random call splits, larger chunks")
    c.sessions(wide_fixed(c, r, lays, ["par"]), "chunk sizes of 16 to 32 bits")
    return c.finish("model_checking", "every history of up to 3 (thorough: 4) calls of the parallel writer in the Writers model, "
                    "every start order of 3 and 4 chunk jobs (ParJobs) enforced on the thread pool, random splits and "
                    "thread counts; each stream is compared byte for byte with the sequential compressor's; a trace is "
                    "non-trivial if its recorded events differ from all others")


READ_BACK = [{"o": "ropen", "k": "seq"}, {"o": "r", "n": 1}]


def read_back(r, total, sizes=None):
    """Reading everything back sequentially and in parallel, with a few seeks."""
    ops = []
    for k in ("seq", "par"):
        ops.append({"o": "ropen", "k": k, "th": r.choice([1, 2, 4])})
        if total:
            a = r.randrange(0, total + 1)
            ops += [{"o": "r", "n": x} for x in (a, total - a) if x]
            ops.append({"o": "seek", "i": r.randrange(total)})
            ops.append({"o": "r", "n": 1})
            i = r.randrange(total)
            ops += [{"o": "seek", "i": i}, {"o": "r", "n": total - i}]
        ops.append({"o": "r", "n": 1})
        ops.append({"o": "close"})
    return ops


def with_read_back(r, sessions, totals):
    for s, t in zip(sessions, totals):
        s["ops"] += read_back(r, t)
    return sessions


def big_var(c, r, lays, count):
    out = []
    for i in range(count):
        k = r.choice(["seq", "seq", "par"])
        lay = bool(i % 2)
        ops = [{"o": "wopen", "k": k, "th": r.choice([1, 2, 8])}]
        n = 0
        for _ in range(r.randrange(1, 9)):
            if k == "seq" and r.random() < 0.6:
                for _ in range(r.randrange(0, 3)):
                    x = r.choice([0, 1, 2, 30, 200])
                    ops.append({"o": "w", "n": x, "m": r.choice(["many", "one", "trait"])})
                    n += x
                if r.random() < 0.8:
                    ops.append({"o": "fin"})
            else:
                z = [r.choice([0, 1, 1, 2, 3, 17, 120, 700]) for _ in range(r.randrange(0, 6))]
                ops.append({"o": "chunks", "s": z})
                n += sum(z)
        ops += [{"o": "done"}, {"o": "look"}, {"o": "table"}, {"o": "cmp"}]
        out.append(session(r, lays, lay, True, 1, n, ops + read_back(r, n), start=r.choice([0, 0, 11]), tail=r.choice([0, 0, 33])))
    return out


def c08(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sv = writer_scripts(c, "VarQuick", "AllKinds", calls=4 if c.thorough else 3)
    ss = expand_writer(r, sv, lays, post=[{"o": "look"}, {"o": "table"}, {"o": "cmp"}])
    c.sessions(with_read_back(r, ss, [s["total"] for s in sv]), "histories of Writers, variable-size")
    sw = writer_walks(c, "WalkVar", "AllKinds", 4000 if c.thorough else 600)
    ss = expand_writer(r, sw, lays, post=[{"o": "look"}, {"o": "table"}, {"o": "cmp"}])
    c.sessions(with_read_back(r, ss, [s["total"] for s in sw]), "random walks of Writers")
    # layered streams without a table (unseekable source), whatever the chunk sizes
    un = []
    for s in sample(r, sv, 600):
        g = dict(s)
        ops = [dict(o) for o in g["ops"]] + [{"o": "look"}, {"o": "dev", "noseek": True}, {"o": "ropen", "k": "seq"}]
        t = s["total"]
        if t:
            a = r.randrange(0, t + 1)
            ops += [{"o": "r", "n": x, "m": r.choice(["one", "many"])} for x in (a, t - a) if x]
        un.append(session(r, lays, True, True, 1, s["pts"], ops))
    c.sessions(un, "layered, no chunk table")
    vs = [s for s in reader_scripts(c, False) if s["cfg"]["var"]]
    c.sessions(expand_reader(c, r, sample(r, vs, 2500), lays, False), "transition cover of SeqReader, variable-size")
    vp = [s for s in reader_scripts(c, True) if s["cfg"]["var"]]
    c.sessions(expand_reader(c, r, sample(r, vp, 2500), lays, True), "transition cover of ParReader, variable-size")
    c.sessions(big_var(c, r, lays, 1200 if c.thorough else 240), "random groups")
    c.sessions(wide_var(c, r, lays), "very large groups")
    return c.finish("model_checking", "every history of up to 3 (thorough: 4) compress/close/compress-chunks calls of the Writers "
                    "model, sequential and parallel; the chunks of each stream are parsed independently and compared with "
                    "the groups the caller closed, then read back, sought, and read without the table; a trace is "
                    "non-trivial if its recorded events differ from all others")


def big_append(c, r, lays, count):
    out = []
    for i in range(count):
        lay = bool(i % 2)
        var = r.random() < 0.45
        cs = r.choice([1, 2, 3, 7, 20, 64])
        tot, n = 0, 0
        ops = []
        for j in range(r.randrange(2, 5)):
            k = r.choice(["seq", "par"])
            if j == 0:
                ops.append({"o": "wopen", "k": k, "th": r.choice([1, 2, 8])})
            else:
                pc = r.choice([tot, tot, tot, tot, max(0, tot - 1), r.randrange(0, tot + 1), tot // 2, 0, (tot // cs) * cs])
                if r.random() < 0.12:
                    ops.append({"o": "trailoff"})
                ops.append({"o": "aopen", "k": k, "pc": pc, "th": r.choice([1, 2, 8])})
                tot = pc
            for _ in range(r.randrange(0, 4)):
                if var and (k == "par" or r.random() < 0.5):
                    z = [r.choice([0, 1, 2, 5, 40]) for _ in range(r.randrange(0, 4))]
                    ops.append({"o": "chunks", "s": z})
                    x = sum(z)
                else:
                    x = r.choice([0, 1, cs, cs - 1, cs + 1, 3 * cs, r.randrange(0, 90)])
                    ops.append({"o": "w", "n": x, "m": r.choice(["many", "many", "one"])})
                    if var and r.random() < 0.5:
                        ops.append({"o": "fin"})
                tot += x
                n += x
            ops += [{"o": "done"}, {"o": "look"}, {"o": "table"}]
            if r.random() < 0.3 or j > 0:
                ops += read_back(r, tot)
        out.append(session(r, lays, lay, var, cs, n, ops, start=r.choice([0, 0, 1, 400])))
    return out


def c10(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = writer_scripts(c, "BothFull" if c.thorough else "BothQuick", "AllKinds", calls=2, acalls=1, apps=1, groups="FewGrps")
    sc = [s for s in sc if s["app"] > 0]
    ss = expand_writer(r, sc, lays, post=[{"o": "look"}, {"o": "table"}], starts=True)
    c.sessions(with_read_back(r, ss, [s["total"] for s in sc]), "histories of Writers with one append")
    s2 = writer_scripts(c, "BothQuick", "AllKinds", calls=1, acalls=1, apps=2, groups="FewGrps")
    s2 = sample(r, [s for s in s2 if s["app"] > 1], 6000 if c.thorough else 2500)
    ss = expand_writer(r, s2, lays, post=[{"o": "look"}], starts=True)
    c.sessions(with_read_back(r, ss, [s["total"] for s in s2]), "histories of Writers with two appends")
    sw = writer_walks(c, "WalkBoth", "AllKinds", 5000 if c.thorough else 500, calls=6, acalls=4, apps=3)
    ss = expand_writer(r, sw, lays, post=[{"o": "look"}, {"o": "table"}], starts=True)
    c.sessions(with_read_back(r, ss, [s["total"] for s in sw]), "random walks of Writers with three appends")
    c.sessions(big_append(c, r, lays, 1500 if c.thorough else 300), "random appends")
    c.sessions(wide_append(c, r, lays), "very large chunks")
    return c.finish("model_checking", "every history write / open for append keeping pc points / write of the Writers model "
                    "(sequential and parallel in every combination, one and two appends), over rotating layouts; the chunks "
                    "and the table are parsed independently, then the stream is read, sought and decompressed in parallel; a "
                    "trace is non-trivial if its recorded events differ from all others")


def cut_at(r, n, lays_at):
    """Sizes of the groups of n points closed at some places."""
    z, left = [], n
    while left:
        k = min(left, r.choice(lays_at))
        z.append(k)
        left -= k
    return z


def wide_fixed(c, r, lays, kinds):
    """Chunk sizes around what 15, 16 and more bits can count, filled and (when larger still) hardly begun."""
    out = []
    for i, cs in enumerate([32767, 32768, 65535, 65536, 65537, 70000] + ([131071, 131073] if c.thorough else [])):
        for lay in (False, True):
            for k in kinds:
                n = cs + r.choice([-1, 0, 1, r.randrange(cs // 2)])
                out.append(session(r, lays, lay, False, cs, n, [{"o": "wopen", "k": k, "th": 2}] +
                                   ([{"o": "w", "n": n}] if i % 2 else split_calls(r, n, cs)) + [{"o": "done"}, {"o": "look"}, {"o": "cmp"}],
                                   prof=r.choice(["slow", "walk"])))
    for cs in (1 << 20, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 7, ALL32 - 1):
        for lay in (False, True):
            for k in kinds:
                for n in (0, 1, r.randrange(2, 40)):
                    out.append(session(r, lays, lay, False, cs, n, [{"o": "wopen", "k": k, "th": 2}] + split_calls(r, n, 7) +
                                       [{"o": "done"}, {"o": "look"}, {"o": "cmp"}, {"o": "table"}] + read_back(r, n)))
    return out


FAR = [1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 48) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def wide_read(c, r, lays, par, seeks=True):
    """Chunks of more points than 16 bits can count, read and sought deep inside; indexes past 32 bits."""
    out = []
    k = "par" if par else "seq"
    for lay in (False, True):
        for var in (False, True):
            for big in (65536, 70000) + ((131075,) if c.thorough else ()):
                # n points: a small chunk, a large one, another
                sizes = [3, big, 66000, 2] if var else [big, big, 5]
                n = sum(sizes)
                w = [{"o": "wopen", "k": "par", "th": 4}, {"o": "chunks", "s": sizes} if var else {"o": "w", "n": n}, {"o": "done"}]
                ops = w + [{"o": "ropen", "k": k, "th": r.choice([1, 2, 8])}]
                left = n
                while left:
                    a = min(left, r.choice([1, 65535, 65536, 65537, 66001, big]))
                    ops.append({"o": "r", "n": a})
                    left -= a
                ops += [{"o": "r", "n": 1}, {"o": "close"}]
                if seeks:
                    ops += [{"o": "ropen", "k": k, "th": r.choice([1, 2, 8])}]
                    at = [sizes[0] + x for x in (65535, 65534, 65536 % sizes[1], -1, 0, 1)] + [n - 1, n - sizes[-1], r.randrange(n)]
                    r.shuffle(at)
                    for i in at:
                        ops += [{"o": "seek", "i": i}, {"o": "r", "n": r.choice([1, min(n - i, 700), min(n - i, 66000)])}]
                        if r.random() < 0.3:
                            ops += [{"o": "seek", "i": r.choice(FAR) + r.choice([0, i])} if r.random() < 0.8 else {"o": "seek", "i": n}, {"o": "r", "n": 1}]
                    ops = [dict(o, i=min(o["i"], (1 << 64) - 1)) if o["o"] == "seek" else o for o in ops]
                out.append(session(r, lays, lay, var, big, n, ops, prof=r.choice(["slow", "walk"])))
    if seeks:
        for lay in (False, True):
            for var in (False, True):
                for i in range(8):
                    cs = r.choice([1, 3, 10])
                    n = r.randrange(1, 40)
                    z = cut_at(r, n, [1, 2, 9]) if var else None
                    ops = [{"o": "wopen"}, {"o": "chunks", "s": z} if var else {"o": "w", "n": n}, {"o": "done"}, {"o": "ropen", "k": k, "th": 2}]
                    for far in r.sample(FAR, 4):
                        # an index which is not a point of the stream, though its low bits are
                        ops += [{"o": "seek", "i": min(far + r.choice([0, 0, r.randrange(n)]), (1 << 64) - 1)}, {"o": "r", "n": 1, "m": "many"}]
                        if r.random() < 0.6:
                            j = r.randrange(n)
                            ops += [{"o": "seek", "i": j}, {"o": "r", "n": n - j}]
                    out.append(session(r, lays, lay, var, cs, n, ops))
    return out


def wide_var(c, r, lays):
    """Groups of more points than 16 bits can count."""
    out = []
    for lay in (False, True):
        for k in ("seq", "par"):
            z = [65535, 2, 65536, 0, 70000] if lay else [1, 65536, 70001, 65535]
            n = sum(z)
            ops = [{"o": "wopen", "k": k, "th": 4}]
            if k == "seq":
                for x in z:
                    ops += [{"o": "w", "n": x // 2, "m": "many"}, {"o": "w", "n": x - x // 2, "m": "many"}, {"o": "fin"}]
            else:
                ops += [{"o": "chunks", "s": z}]
            ops += [{"o": "done"}, {"o": "look"}, {"o": "table"}, {"o": "cmp"}]
            out.append(session(r, lays, lay, True, 1, n, ops + read_back(r, n), prof="slow"))
    return out


def wide_append(c, r, lays):
    """Appending to (and with) chunks of more points than 16 bits can count."""
    out = []
    for lay in (False, True):
        for k in ("seq", "par"):
            for a, b in ((65535, 2), (65536, 1), (65537, 70000), (70000, 1), (140000, 3), (69999, 2)):
                cs = 70000
                ops = [{"o": "wopen", "k": r.choice(["seq", "par"])}, {"o": "w", "n": a}, {"o": "done"}, {"o": "aopen", "k": k, "pc": a, "th": 2},
                       {"o": "w", "n": b}, {"o": "done"}, {"o": "look"}, {"o": "table"}]
                out.append(session(r, lays, lay, False, cs, a + b, ops + read_back(r, a + b), prof="slow"))
            z = [65536, 3, 70000]
            ops = [{"o": "wopen", "k": "par"}, {"o": "chunks", "s": z}, {"o": "done"}, {"o": "aopen", "k": k, "pc": sum(z), "th": 2},
                   {"o": "chunks", "s": [65537, 2]}, {"o": "done"}, {"o": "look"}, {"o": "table"}]
            out.append(session(r, lays, lay, True, 1, sum(z) + 65539, ops + read_back(r, sum(z) + 65539), prof="slow"))
    return out


def crash_models(c):
    """Every interruption of writers and appenders in the device-level model, and two wrong orders of writes."""
    base = {"Kept": "<- Keep", "Added": "<- Add"}
    for sizes, cs in (("FixedSizes", 3), ("VarSizes", 0)):
        for first, keep in ((False, False), (True, False), (False, True)):
            k = dict(base, Sizes="<- " + sizes, Cs=f"= {cs}", OffsetFirst="= " + str(first).upper(), KeepOffset="= " + str(keep).upper())
            bad = first or keep
            txt = c.tlc("MCCrash", cfg(k, [], ["TableRight", "SafeRight", "PrefixRight", "FinishedRight"]), ok_needed=not bad, model=not bad)
            if bad and "Invariant TableRight is violated" not in txt:
                raise ToolError("the crash model does not tell right from wrong orders of writes")


def crash_block(r, total, start, lay, var, pc=None):
    """What is tried on a stream whose writer stopped."""
    b = [{"o": "ropen", "k": "seq"}]
    if total:
        b += [{"o": "r", "n": total, "m": "one"}]
    b += [{"o": "ropen", "k": "par", "th": r.choice([1, 2, 4])}]
    if total:
        b += [{"o": "r", "n": total}]
        if r.random() < 0.4:
            b += [{"o": "ropen", "k": r.choice(["seq", "par"])}, {"o": "seek", "i": r.randrange(total)}, {"o": "r", "n": 1}]
        if start == 0 and r.random() < 0.5:
            b += [{"o": "dbuf", "k": r.choice(["seq", "par", "chunk"]), "n": r.choice([1, total])}]
    if r.random() < 0.5:
        b += [{"o": "table"}]
    if r.random() < 0.4:
        b += [{"o": "aopen", "k": r.choice(["seq", "par"]), "pc": total if pc is None else pc}, {"o": "wdrop"}]
    return b


def crash_sessions(c, r, lays, scripts, per):
    """Histories of Writers stopped at every write and inside every write."""
    out = []
    for s in scripts:
        g = s["cfg"]
        lay = r.random() < 0.5
        ops = []
        start = r.choice([0, 0, 0, 9, 375])
        opens = [i for i, o in enumerate(s["ops"]) if o["o"] in ("wopen", "aopen")]
        for i, o in enumerate(s["ops"]):
            o = dict(o)
            if o["o"] in ("wopen", "aopen"):
                o["th"] = r.choice([1, 2, 3])
                if i == opens[-1]:
                    ops.append({"o": "log"})
            ops.append(o)
            if o["o"] == "done":
                ops.append({"o": "look"})
        ops.append({"o": "crashall", "max": per, "from": r.randrange(1000), "do": crash_block(r, s["total"], start, lay, g["var"])})
        out.append(session(r, lays, lay, g["var"], g["cs"], s["pts"], ops, start=start))
    return out


def crash_big(c, r, lays, count):
    """Larger streams (several chunks, several writes per chunk) stopped at many places."""
    out = []
    for i in range(count):
        lay = bool(i % 2)
        var = r.random() < 0.4
        cs = r.choice([1, 2, 5, 20])
        n = r.randrange(1, 4 * cs + 2)
        k = r.choice(["seq", "par"])
        ops = [{"o": "log"}, {"o": "wopen", "k": k, "th": r.choice([1, 2, 4])}]
        z = []
        if var:
            while sum(z) < n:
                z.append(min(r.choice([1, 2, 3, 11]), n - sum(z)))
            ops += [{"o": "chunks", "s": z[:len(z) // 2]}, {"o": "chunks", "s": z[len(z) // 2:]}]
        else:
            ops += split_calls(r, n, cs)
        ops += [{"o": "done"}, {"o": "look"}]
        tot, used = n, n
        start = r.choice([0, 0, 0, 30])
        if i % 3 == 2:
            pc = r.choice([tot, tot, tot - 1, r.randrange(tot + 1), 0])
            a = r.choice([0, 1, cs, 2 * cs + 1, 7])
            ops += [{"o": "log"}, {"o": "aopen", "k": r.choice(["seq", "par"]), "pc": pc}]
            ops += [{"o": "chunks", "s": [a // 2, a - a // 2]}] if var else [{"o": "w", "n": a}]
            ops += [{"o": "done"}, {"o": "look"}]
            tot, used = pc + a, n + a
        ops.append({"o": "crashall", "max": 60 if not c.thorough else 400, "from": r.randrange(1000), "do": crash_block(r, tot, start, lay, var)})
        out.append(session(r, lays, lay, var, cs, used, ops, start=start, prof=r.choice(["mix", "slow", "rand"])))
    return out


def trunc_sessions(c, r, lays, count):
    """Finished streams cut at every length."""
    out = []
    for i in range(count):
        lay = bool(i % 2)
        var = r.random() < 0.4
        cs = r.choice([1, 2, 3, 9])
        n = r.randrange(1, 3 * cs + 3)
        ops = [{"o": "wopen", "k": r.choice(["seq", "par"])}]
        if var:
            z = []
            while sum(z) < n:
                z.append(min(r.choice([1, 2, 5]), n - sum(z)))
            ops.append({"o": "chunks", "s": z})
        else:
            ops.append({"o": "w", "n": n})
        ops += [{"o": "done"}, {"o": "look"}]
        if r.random() < 0.15:
            ops += [{"o": "trailoff"}]
        start = r.choice([0, 0, 0, 5])
        ops.append({"o": "truncall", "max": 120 if not c.thorough else 1500, "from": r.randrange(1000),
                    "do": crash_block(r, n, start, lay, var)})
        out.append(session(r, lays, lay, var, cs, n, ops, start=start, prof=r.choice(["mix", "rand"])))
    return out


def trunc_each(c, r):
    """A few points of each layout, cut at every byte: the last bytes that a point needs are few, and depend on its layout."""
    out = []
    for lay, all_ in ((False, PW), (True, LAY)):
        for f, v, e in all_:
            if e > 7:
                continue
            for prof in ("rand", "slow", "mix") if c.thorough else ("rand",) if lay else ("rand", "slow"):
                # a cut is in the middle of a point, of few bytes of it (slow) or many
                cs, n = r.choice([(2, 3), (7, 4), (50, 3)]) if prof == "rand" else r.choice([(30, 70), (80, 80), (100, 60)])
                ops = [{"o": "wopen", "k": "seq"}, {"o": "w", "n": n}, {"o": "done"}, {"o": "look"},
                       {"o": "truncall", "max": 10 ** 6 if c.thorough or not lay else 80, "from": r.randrange(1000),
                        "do": [{"o": "ropen", "k": "seq"}, {"o": "r", "n": n, "m": "one"}]}]
                out.append(dict(session(r, Layouts(r), lay, False, cs, n, ops, prof=prof), fmt=f, ver=v, eb=e))
    return out


def c14(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    crash_models(c)
    sc = writer_scripts(c, "BothQuick", "AllKinds", calls=2, acalls=1, apps=1, groups="FewGrps")
    fresh = [s for s in sc if s["app"] == 0]
    app = [s for s in sc if s["app"] == 1]
    c.sessions(crash_sessions(c, r, lays, sample(r, fresh, 1000 if c.thorough else 150), 25), "interrupted writers")
    c.sessions(crash_sessions(c, r, lays, sample(r, app, 3000 if c.thorough else 400), 25), "interrupted appenders")
    c.sessions(crash_big(c, r, lays, 400 if c.thorough else 60), "interrupted, larger streams")
    c.sessions(trunc_sessions(c, r, lays, 300 if c.thorough else 50), "cut streams")
    c.sessions(trunc_each(c, r), "points of each layout, cut at every byte")
    return c.finish("model_checking", "TLC: every interruption of a writer and an appender between two device writes (Crash), "
                    "with two wrong orders of writes shown to break it; real code: histories of Writers stopped after every "
                    "recorded device write and inside it, and finished streams cut at every length, then opened, read one by "
                    "one and in parallel, sought, reopened for appending; a trace is non-trivial if its recorded events "
                    "differ from all others")


def dev_policy(r):
    """A device that transfers less than asked, or asks for retries."""
    k = r.randrange(3)
    d = {"o": "dev", "seed": r.randrange(1, 1 << 20)}
    if k != 1:
        d["short"] = r.choice([1, 1, 2, 3, 7, 64])
    if k != 0:
        d["intr"] = r.choice([1, 2, 3, 10])
    return d


def flaky(r, sessions):
    """The same sessions over devices with short and interrupted transfers."""
    for s in sessions:
        ops = []
        for o in s["ops"]:
            if o["o"] in ("wopen", "aopen", "ropen", "cbuf") or r.random() < 0.05:
                ops.append(dev_policy(r))
            ops.append(o)
        s["ops"] = ops
        s["tail"] = 0
    return sessions


def fault_sessions(c, r, lays, count):
    """A device error at every operation of a block: writing, appending, reading."""
    out = []
    for i in range(count):
        lay = bool(i % 2)
        var = r.random() < 0.4
        cs = r.choice([1, 2, 3, 10])
        n = r.randrange(1, 3 * cs + 3)
        th = r.choice([1, 2, 4])

        def put(k, m):
            if var:
                z = []
                while sum(z) < m:
                    z.append(min(r.choice([1, 2, 5]), m - sum(z)))
                if k == "seq" and r.random() < 0.6:
                    q = []
                    for x in z:
                        q += [{"o": "w", "n": x, "m": r.choice(["many", "one"])}, {"o": "fin"}]
                    return q
                return [{"o": "chunks", "s": z}]
            return split_calls(r, m, cs)
        k = r.choice(["seq", "par"])
        fault = {"o": "faultall", "max": 40 if not c.thorough else 400, "from": r.randrange(1000), "seed": r.randrange(1, 1 << 20),
                 "fkind": r.choice([0, 0, 0, 1, 2, 3, 4]), "flen": r.choice([1, 1, 1, 2, 1 << 30])}
        if r.random() < 0.3:
            fault["short"] = r.choice([1, 3, 8])
        start = r.choice([0, 0, 17])
        write = [{"o": "wopen", "k": k, "th": th}] + ([{"o": "res"}] if r.random() < 0.2 else []) + put(k, n) + [{"o": "done"}]
        kind = i % 3
        used = n
        if kind == 0:
            if not var and r.random() < 0.25:
                write = [{"o": "cbuf", "k": k, "n": n, "th": th}]
            ops = [dict(fault, do=write + [{"o": "look"}, {"o": "wdrop"}])]
        elif kind == 1:
            pc = r.choice([n, n, n - 1, r.randrange(n + 1), 0])
            a = r.choice([0, 1, cs, 2 * cs + 1])
            used = n + a
            k2 = r.choice(["seq", "par"])
            ops = write + [{"o": "look"}, dict(fault, keep=True, do=[{"o": "aopen", "k": k2, "pc": pc, "th": th}] + put(k2, a) +
                                               [{"o": "done"}, {"o": "look"}, {"o": "wdrop"}])]
        else:
            k2 = r.choice(["seq", "par"])
            a = r.randrange(1, n + 1)
            mode = r.choice(["many", "one", "trait"])
            blk = [{"o": "ropen", "k": k2, "th": th}, {"o": "r", "n": a, "m": mode}]
            if n - a:
                blk.append({"o": "r", "n": n - a, "m": mode})
            if r.random() < 0.6:
                j = r.randrange(n)
                blk += [{"o": "seek", "i": j}, {"o": "r", "n": r.randrange(1, n - j + 1), "m": mode}]
                j = r.randrange(n)
                blk += [{"o": "seek", "i": j}, {"o": "r", "n": n - j}]
            if r.random() < 0.3:
                blk.append({"o": "table"})
            ops = write + [{"o": "look"}, dict(fault, keep=True, do=blk)]
        out.append(session(r, lays, lay, var, cs, used, ops, start=start, prof=r.choice(["mix", "slow", "rand"])))
    return out


def unseekable_sessions(c, r, lays, count):
    """Reading what needs no chunk table from a source that cannot be sought: layers left out are passed over by reading."""
    out = []
    for i in range(count):
        lay = r.random() < 0.8
        big = i % 8 == 0
        cs = r.choice([1, 2, 7, 50]) if not big else r.choice([1000, 4000])
        n = r.randrange(1, 120) if not big else r.randrange(1000, 6000)
        var = lay and r.random() < 0.4
        z = cut_at(r, n, [1, 2, 9, 700]) if var else None
        dev = dict(dev_policy(r), noseek=True)
        if big and "short" in dev:
            dev["short"] = r.choice([64, 700, 2000])
        op = {"o": "ropen", "k": "seq"}
        if lay and r.random() < 0.85:
            op["sel"] = r.choice([r.randrange(1 << 12), 1 << r.randrange(12), 0xFFF ^ (1 << r.randrange(12)), 0])
        a = r.randrange(0, n + 1)
        ops = [{"o": "wopen"}, {"o": "chunks", "s": z} if var else {"o": "w", "n": n}, {"o": "done"}, {"o": "look"}, dev, op]
        ops += [{"o": "r", "n": x, "m": r.choice(["many", "one", "trait"])} for x in (a, n - a) if x]
        out.append(session(r, lays, lay, var, cs, n, ops, prof=r.choice(["mix", "rand", "slow", f"layers:{cs}"])))
    return out


def c15(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = writer_scripts(c, "BothQuick", "AllKinds", calls=2, acalls=1, apps=1, groups="FewGrps")
    fresh = [s for s in sc if s["app"] == 0]
    app = [s for s in sc if s["app"] == 1]
    c.sessions(flaky(r, expand_writer(r, sample(r, fresh, 2000 if c.thorough else 500), lays)), "writers, short and interrupted transfers")
    sa = sample(r, app, 4000 if c.thorough else 500)
    c.sessions(flaky(r, with_read_back(r, expand_writer(r, sa, lays, post=[{"o": "look"}, {"o": "table"}]), [s["total"] for s in sa])),
               "appenders, short and interrupted transfers")
    for par in (False, True):
        rs = sample(r, reader_scripts(c, par, full=False), 4000 if c.thorough else 600)
        c.sessions(flaky(r, expand_reader(c, r, rs, lays, par, starts=True)), "readers, short and interrupted transfers")
    c.sessions(flaky(r, big_fixed(c, r, lays, ["seq", "par"], 400 if c.thorough else 40)), "large streams, short and interrupted transfers")
    c.sessions(flaky(r, big_readers(c, r, lays, True, 300 if c.thorough else 30)), "large readers, short and interrupted transfers")
    c.sessions(flaky(r, big_readers(c, r, lays, False, 300 if c.thorough else 30)), "large readers, short and interrupted transfers")
    c.sessions(unseekable_sessions(c, r, lays, 1500 if c.thorough else 200), "sources that cannot be sought, short and interrupted transfers")
    c.sessions(fault_sessions(c, r, lays, 3000 if c.thorough else 400), "a device error at every operation")
    return c.finish("model_checking", "histories of Writers, SeqReader and ParReader replayed over devices with short and "
                    "interrupted transfers; blocks of writing, appending and reading repeated with a device error (of several "
                    "kinds, lasting one or more operations) at each device operation of the block; a trace is non-trivial if "
                    "its recorded events differ from all others")


def region_block(r, total):
    """Reads everything, sought and not; then again, from a file that ends where the stream does."""
    ops = []
    for k in ("seq", "par", "cut", "seq", "par"):
        if k == "cut":
            ops += [{"o": "close"}, {"o": "region"}]
            continue
        ops.append({"o": "ropen", "k": k, "th": r.choice([1, 3])})
        if total:
            a = r.randrange(0, total + 1)
            ops += [{"o": "r", "n": x, "m": r.choice(["many", "one"])} for x in (a, total - a) if x]
            j = r.randrange(total)
            ops += [{"o": "seek", "i": j}, {"o": "r", "n": total - j}]
            if r.random() < 0.3:
                ops += [{"o": "seek", "i": total + r.randrange(3)}, {"o": "r", "n": 1}]
            else:
                ops += [{"o": "r", "n": 1}]
        ops.append({"o": "close"})
    return ops


def place(r, s):
    """Puts a session's stream somewhere in a bigger file."""
    s["start"] = r.choice([0, 1, 7, 8, 9, 227, 375, 4096])
    s["abs"] = r.choice([0, 0, 0, 1 << 31, (1 << 32) - 200, (1 << 32) + 5, 1 << 40, (1 << 31) - 100])
    k = r.randrange(3)
    if k == 0:
        s["over"] = r.choice([1, 8, 30, 500, 5000])
    elif k == 1:
        s["tail"] = r.choice([1, 8, 60, 500])
    return s


def c16(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    sc = writer_scripts(c, "BothQuick", "AllKinds", calls=2, acalls=1, apps=1, groups="FewGrps")
    for what, l in (("writers", [s for s in sc if s["app"] == 0]), ("appenders", [s for s in sc if s["app"] == 1])):
        l = sample(r, l, 6000 if c.thorough else 900)
        ss = expand_writer(r, l, lays, post=[{"o": "look"}] + ([{"o": "cmp"}] if what == "writers" else []))
        for s, g in zip(ss, l):
            if what == "writers" or r.random() < 0.7:
                place(r, s)
            s["ops"] += region_block(r, g["total"])
        c.sessions(ss, what + " anywhere in a file")
    for par in (False, True):
        rs = sample(r, reader_scripts(c, par, full=False), 4000 if c.thorough else 700)
        ss = [place(r, s) for s in expand_reader(c, r, rs, lays, par)]
        for s in ss:
            # the same reads again, from a file that ends where the stream does
            i = next(i for i, o in enumerate(s["ops"]) if o["o"] == "ropen")
            s["ops"] += [{"o": "close"}, {"o": "region"}] + [dict(o) for o in s["ops"][i:]]
        c.sessions(ss, "readers anywhere in a file")
    ss = [place(r, s) for s in big_fixed(c, r, lays, ["seq", "par"], 300 if c.thorough else 60) + big_var(c, r, lays, 300 if c.thorough else 60)]
    c.sessions(ss, "larger streams anywhere in a file")
    return c.finish("model_checking", "histories of Writers, SeqReader and ParReader on streams placed at various positions "
                    "(also past 2^31, 2^32, 2^40) after random bytes, before random bytes and over existing data; every byte "
                    "outside the stream is compared, the offset and end position checked, and what was read is read again from a file "
                    "that ends where the stream does; a trace is non-trivial if its recorded events differ from all others")


def c17(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    txt = c.tlc("LegacyReader", cfg({"Totals": "= {1, 2, 3, 5, 7}" if c.thorough else "= {1, 2, 3, 5}", "Emit": "= TRUE"}, ["Refines"], view="View"))
    sc = c.scripts(txt)
    out = []

    def one(ops, n, start0=False):
        ops = [dict(o) for o in ops]
        for o in ops:
            if o["o"] == "strip" and r.random() < 0.6:
                o["like"] = True
                o["v"] = r.randrange(1 << 20)
            if o["o"] == "strip":
                o["vcs"] = r.choice([0, 0, 1, 2, 50000, ALL32, r.randrange(1, 1 << 20)])
            if o["o"] == "ropen":
                o["th"] = r.choice([1, 2, 4])
            if o["o"] == "r" and o.get("m") == "one" and r.random() < 0.4:
                o["m"] = "trait"
        return session(r, lays, False, False, max(n, r.choice([1, 5, 1000, 1000000])), n, ops, pw1=True,
                       start=0 if start0 else r.choice([0, 0, 1, 227, 375]), tail=0 if start0 else r.choice([0, 0, 0, 1, 60]),
                       abs=0 if start0 else r.choice([0, 0, 1 << 33]), prof=r.choice(["mix", "slow", "walk", "rand"]))
    for s in sc:
        for _ in range(len(PW) * (8 if c.thorough else 1)):
            out.append(one(s["ops"], s["total"]))
    c.sessions(out, "transition cover of LegacyReader")
    out = []
    for i in range(len(PW) * (20 if c.thorough else 4)):
        n = r.choice([1, 2, 40, 300, 1500, 6000 if i % 6 == 0 else 100]) if i else 70000
        strip = [{"o": "wopen"}, {"o": "w", "n": n}, {"o": "done"}, {"o": "strip"}]
        ops = list(strip)
        for _ in range(2):
            if r.random() < 0.3:
                ops.append(dev_policy(r))
            ops.append({"o": "ropen", "k": "seq"})
            left = n
            while left:
                k = min(left, r.choice([1, 2, 50, 777, left]))
                ops.append({"o": "r", "n": k, "m": r.choice(["many", "one", "trait"]) if k < 100 else "many"})
                left -= k
                if r.random() < 0.3:
                    ops.append({"o": "seek", "i": r.choice([0, n // 2, n - 1, n, n + 5])})
            ops.append({"o": "ropen", "k": "par", "th": 2})
            if r.random() < 0.5:
                ops.append({"o": "aopen", "k": r.choice(["seq", "par"]), "pc": r.choice([0, n])})
        if r.random() < 0.4:
            ops.append({"o": "dev", "noseek": True})
            ops += [{"o": "ropen", "k": "seq"}, {"o": "r", "n": n}]
        out.append(one(ops, n))
        out.append(one(strip + [{"o": "dbuf", "k": "seq", "n": k} for k in sorted({1, n, (n + 1) // 2})] + [{"o": "dbuf", "k": "par", "n": n}], n, True))
    c.sessions(out, "longer legacy streams")
    # no byte of a legacy stream can be missed
    out = []
    for i in range(60 if not c.thorough else 600):
        n = r.randrange(1, 12)
        out.append(one([{"o": "wopen"}, {"o": "w", "n": n}, {"o": "done"}, {"o": "strip"},
                        {"o": "faultall", "keep": True, "max": 40, "do": [{"o": "ropen", "k": "seq"}, {"o": "r", "n": n, "m": r.choice(["one", "many"])},
                                                                           {"o": "seek", "i": 0}]}], n))
    c.sessions(out, "legacy streams over failing devices")
    return c.finish("model_checking", "every transition of the LegacyReader model over every point-wise layout, longer streams, "
                    "streams whose last bytes look like an offset, and device errors at every operation; opening in parallel "
                    "and for appending must be refused; a trace is non-trivial if its recorded events differ from all others")


# ------------------------------------------------------------------ single observations
def observe(c, module, obs, what, batch=20000):
    """Makes observations on the real code and has TLC judge them with a trace specification."""
    res = c.run_harness("obs", obs)
    ev = []
    for o, v in zip(obs, res):
        if v.get("skipped"):
            continue
        if v.get("died"):
            c.report(o, None, "the process ended or hung on this input", what)
            continue
        v.pop("k", None)
        if v.get("op") == "broke":
            c.report(o, None, "the library failed at what the observation needs: " + str(v.get("why")), what)
            continue
        if v.get("op") == "tool":
            raise ToolError(f"harness: {v}")
        ev.append(v)
    for i in range(0, len(ev), batch):
        c.table(module, ev[i:i + batch], what)
    return ev


def u16(n):
    return [n % 256, n // 256]


TYPES = {0: None, 6: 20, 7: 8, 8: 6, 9: 29, 10: 30, 11: 6, 12: 8, 13: 29, 14: None}


def random_vlr(r):
    """A record that may or may not be one."""
    k = r.randrange(6)
    if k == 0:
        return [r.randrange(256) for _ in range(r.randrange(0, 60))]
    n = r.choice([0, 1, 2, 3, 5, 40] * 8 + [255, 256, 257, 300])
    b = u16(r.choice([0, 1, 2, 3, 2, 3, 4, 255, 256, 65535]) if k == 1 else r.randrange(4))
    b += u16(r.choice([0, 0, 1, 65535])) + [r.randrange(256) for _ in range(4)] + [r.choice([0, 0, 255, r.randrange(256)]) for _ in range(4)]
    b += r.choice([[0, 0, 0, 0], [255] * 4, [1, 0, 0, 0], [80, 195, 0, 0], [0, 0, 0, 1], [255, 255, 255, 127], [r.randrange(256) for _ in range(4)]])
    b += r.choice([[255] * 8, [r.randrange(256) for _ in range(8)]]) + r.choice([[255] * 8, [0] * 8, [r.randrange(256) for _ in range(8)]])
    b += u16(n)
    for _ in range(n):
        t = r.choice(list(TYPES)) if k != 2 or r.random() < 0.8 else r.choice([1, 2, 3, 4, 5, 15, 16, 255, 256 + 6, 65535])
        z = TYPES.get(t) or r.choice([1, 2, 3, 100, 65535])
        if r.random() < 0.15:
            z = r.choice([0, z + 1, z + 256, r.randrange(65536)]) % 65536
        b += u16(t) + u16(z) + u16(r.choice([1, 2, 3, 4, 0, 5, 65535]))
    if k == 3 and b:
        b = b[:r.randrange(len(b))]
    if k == 4:
        b += [r.randrange(256) for _ in range(r.randrange(1, 20))]
    if k == 5 and b:
        b[r.randrange(len(b))] = r.randrange(256)
    return b


def c12(c):
    r = rng_of(c, "r")
    eb = "{0, 1, 2, 3, 7, 255, 256, 1000, 65535}" if c.thorough else "{0, 1, 2, 7, 256, 65535}"
    ch = "{<<1,0,0,0>>, <<2,0,0,0>>, <<80,195,0,0>>, <<255,255,255,255>>, <<254,255,255,255>>, <<0,0,0,128>>, <<0,1,0,0>>"
    ch += ", <<255,255,255,127>>, <<0,0,1,0>>, <<0,0,0,1>>}" if c.thorough else "}"
    open(c.work + "/MCVlrRun.tla", "w").write(f"---- MODULE MCVlrRun ----\nEXTENDS MCVlr\nEB == {eb}\nCH == {ch}\n====\n")
    txt = c.tlc("MCVlr", cfg({"Emit": "= TRUE", "ExtraBytes": "<- EB", "Chunks": "<- CH"}, [], ["RoundTrip", "ItemsRight"]), instance=c.work + "/MCVlrRun.tla")
    obs = c.scripts(txt)
    if len(obs) < 500:
        raise ToolError("MCVlr gave too few scenarios")
    for f in range(256):
        for e in (0, 1, 9, 300):
            obs.append({"op": "items", "fmt": f, "ver": 0, "eb": e})
    for f in range(11):
        for ver in (1, 2) if f < 6 else (3, 4):
            obs.append({"op": "build", "fmt": f, "ver": ver, "eb": r.randrange(65536), "how": r.choice([0, 1, 2]), "chunk": [], "mark": False})
            for _ in range(40 if c.thorough else 8):
                obs.append({"op": "build", "fmt": f, "ver": ver, "eb": r.randrange(65536), "how": r.choice([0, 1, 2]),
                            "chunk": [r.randrange(1, 256), r.randrange(256), r.randrange(256), r.randrange(256)], "mark": False})
                obs.append({"op": "items", "fmt": f, "ver": ver, "eb": r.randrange(65536)})
    for _ in range(40000 if c.thorough else 6000):
        obs.append({"op": "vlr", "bytes": random_vlr(r)})
    n = [0, 0]
    for v in observe(c, "VlrTrace", obs, "VLRs and items"):
        if v["op"] == "vlr":
            n[v["res"] == "ok"] += 1
    # the compressed bytes agree with what the VLR says: points are handled by a VLR that was written and read back
    lays = Layouts(r)
    c.sessions([session(r, lays, bool(i % 2), i % 4 > 1, r.choice([1, 3, 50]), 20,
                        [{"o": "wopen", "k": r.choice(["seq", "par"])}, {"o": "chunks", "s": [7, 13]} if i % 4 > 1 else {"o": "w", "n": 20},
                         {"o": "done"}, {"o": "look"}, {"o": "ropen", "k": r.choice(["seq", "par"])}, {"o": "r", "n": 20}])
                for i in range(len(PW) + len(LAY))], "points described by a VLR")
    return c.finish("model_checking", "the VLR model over every point format, item version and a set of extra byte counts and chunk "
                    "sizes, all of it replayed on the real code; every point format id 0..255; random and damaged records read and "
                    "written again; an observation is non-trivial if it differs from all others",
                    extra={"records_read": n[1], "records_refused": n[0]})


ENTRIES = ("wseq", "wpar", "aseq", "apar", "rseq", "rpar", "cbuf", "pcbuf", "pc", "dbuf", "pdbuf", "pd")


def c13(c):
    r = rng_of(c, "r")
    consts = {"ExtraBytes": "= {0, 3}", "Comps": "= {0, 1, 2, 3, 4, 255, 65535}", "BadTypes": "= {1, 5, 15, 256, 65535}",
              "BadVersions": "= {0, 1, 2, 3, 4, 5, 255, 256, 65535}"}
    sc = c.scripts(c.tlc("MCRefuse", cfg(consts, [], ["Told"])))
    seen, uniq = set(), []
    for s in sc:
        k = (s["comp"], tuple(map(tuple, s["items"])))
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    if len(uniq) < 10000:
        raise ToolError("MCRefuse gave too few descriptions")
    # the codecs of very many extra bytes take hundreds of megabytes
    uniq = [s for s in uniq if not (s["comp"] in (1, 2, 3) and any(i[1] > 5000 and i[0] in (0, 14) for i in s["items"]) and r.random() < 0.9)]
    canon = [s for s in uniq if s["what"] == "canonical"]
    other = [s for s in uniq if s["what"] != "canonical"]
    obs = []

    def add(s, entries):
        for e in entries:
            var = r.random() < 0.4
            if var and e in ("pc", "pcbuf", "cbuf"):
                var = False
            obs.append({"op": "refuse", "entry": e, "comp": s["comp"], "items": s["items"], "var": var, "mark": r.choice([0, ALL32]),
                        "cs": r.choice([1, 2, 3, 1000, ALL32 - 1]) if e not in ("pdbuf", "pd") else r.choice([1, 2, 3, 50]),
                        "n": 5 if r.random() < 0.9 else 0, "seed": r.randrange(1, 1 << 30)})
    for s in canon:
        add(s, ENTRIES)
    for s in other:
        add(s, ENTRIES if c.thorough else r.sample(ENTRIES, 3 if s["comp"] in (1, 2, 3) else 1))
    n = {}
    for v in observe(c, "RefuseTrace", obs, "descriptions of points"):
        n[v["out"]] = n.get(v["out"], 0) + 1
    if n.get("right", 0) < 200 or n.get("err", 0) < 1000:
        raise ToolError(f"unexpected mixture of outcomes {n}")
    # formats that do not exist
    observe(c, "VlrTrace", [{"op": "items", "fmt": f, "ver": 0, "eb": e} for f in range(256) for e in (0, 1, 500, 65535)], "point formats")
    return c.finish("model_checking", "every item list of the format with one thing changed (an item's type, size, version, one item less "
                    "or more) with every type of compressor, enumerated by TLC, given to the twelve entry points (quick: a sample of them per "
                    "list); all point format ids; an observation is non-trivial if it differs from all others", extra={"outcomes": n})


def entry_values(r):
    """A number of bytes or points of a chunk, below 2^32."""
    k = r.randrange(8)
    return str([1, r.randrange(1, 100), r.randrange(1, 70000), 50000, (1 << 31) + r.choice([-1, 0, 1]), ALL32 - r.randrange(3),
                r.randrange(1, ALL32), (1 << r.randrange(32)) - r.choice([0, 1])][k])


def table_sources(r, count):
    out = []
    for i in range(count):
        k = r.choice([0, 1, 2, 3, 10, 60, 400 if i % 10 == 0 else 5])
        prev = (entry_values(r), entry_values(r))
        es = []
        for _ in range(k):
            if r.random() < 0.5:
                prev = (entry_values(r), str(max(0, min(ALL32, int(prev[1]) + r.choice([-1, 0, 1, 100, -1000])))))
            es.append(list(prev))
        out.append({"op": "ctread", "es": es, "start": str(r.choice([0, 1, 8, 227, 4096, 1 << 31, (1 << 32) - 3, 1 << 40, 1 << 60])),
                    "where": r.choice(["head", "head", "tail", "tail", "none"]), "mark": r.choice(["neg", "self", "zero", "min"]),
                    "gap": r.choice([0, 0, 0, 1, 50]), "junk": r.choice([0, 0, 1, 8, 100]), "var": bool(i % 2), "cs": r.choice([1, 7, 50000, ALL32 - 1])})
    return out


def c09(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    # the data structure and its encoding
    sc = c.scripts(c.tlc("MCChunkTables", cfg({"Depth": "= 4", "Emit": "= TRUE"}, [], ["HistoryOK", "KeptOK"])))
    if len(sc) < 3000:
        raise ToolError("MCChunkTables gave too few histories")
    obs = []
    for s in sample(r, sc, 40000 if c.thorough else 6000):
        val = {k: entry_values(r) for k in "abcd"}
        ops = []
        for o in s["ops"]:
            o = dict(o)
            if "e" in o:
                o["e"] = [val[x] for x in o["e"]]
            if "es" in o:
                o["es"] = [[val[x] for x in e] for e in o["es"]]
            ops.append(o)
        obs.append({"op": "ct", "ops": ops, "var": r.random() < 0.5, "cs": r.choice([1, 50000]), "cap": r.choice([0, 1, 100])})
    for i in range(300 if c.thorough else 60):
        # long tables: also longer than the coder's buffers
        k = r.choice([200, 1000, 3000]) if i % 20 else 20000 if i else 70000
        style = r.randrange(3)
        es = []
        for j in range(k):
            es.append([entry_values(r), entry_values(r)] if style == 0 else [str(r.randrange(49990, 50001)), str(r.randrange(100000, 101000))] if style == 1
                      else [str(50000), str(100000 + 7 * j)])
        obs.append({"op": "ct", "ops": [{"o": "extend", "es": es}], "var": bool(i % 2), "cs": 50000, "cap": 0})
    observe(c, "TableTrace", obs, "chunk tables written and read", batch=3000)
    observe(c, "TableTrace", table_sources(r, 20000 if c.thorough else 4000), "chunk tables found in a source", batch=3000)
    # the tables that writers and appenders leave
    trail = [{"o": "look"}, {"o": "table"}]
    for cf, kinds, calls, app in (("FixedQuick", "AllKinds", 3, 0), ("VarQuick", "AllKinds", 3, 0), ("BothQuick", "AllKinds", 2, 1)):
        ws = writer_scripts(c, cf, kinds, calls=calls, acalls=1, apps=app, groups="FewGrps" if app else "Grps")
        ws = sample(r, ws, 30000 if c.thorough else 2000)
        ss = expand_writer(r, ws, lays, post=trail, starts=True, tails=True)
        for s, g in zip(ss, ws):
            s["abs"] = r.choice([0, 0, 0, (1 << 32) - 60, 1 << 33])
            if r.random() < 0.5:
                s["tail"] = 0
                s["ops"] += [{"o": "trailoff"}, {"o": "table"}, {"o": "ropen", "k": r.choice(["seq", "par"])}]
                if g["total"]:
                    s["ops"] += [{"o": "r", "n": g["total"]}]
        c.sessions(ss, "tables of " + cf)
    c.sessions([place(r, s) for s in big_fixed(c, r, lays, ["seq", "par"], 600 if c.thorough else 80)], "tables of larger streams")
    c.sessions(big_append(c, r, lays, 600 if c.thorough else 60), "tables after appends")
    return c.finish("model_checking", "every history of up to 4 operations on a table (with random values for the classes of entries), long "
                    "tables, tables placed at many positions with the offset at the start, at the end or nowhere; histories of Writers "
                    "with the table parsed independently and by the crate, also with the offset moved to the end; a trace is non-trivial "
                    "if it differs from all others")


PAIRS = ("extra-bytes", "point-color", "point-time-color", "point-time", "point-version-1-point-wise", "point10")


def file_obs(r, sc, **kw):
    """A concrete file of the shape a scenario of MCSimpleFile asks for."""
    fmt, n = sc["fmt"], sc["n"]
    lay = fmt >= 6
    ver = r.choice([3, 4]) if lay else r.choice([1, 2])
    if kw.get("big"):
        n = r.choice([50, 333, 1000, 3000])
    if sc["how"] == "less":
        n = max(n, 2)
    o = {"op": "file", "minor": sc["minor"], "fmt": fmt, "ver": ver, "eb": r.choice([0, 0, 1, 2, 9]), "n": n, "count": n,
         "laz": sc["shape"] != "las", "pw1": sc["shape"] == "point-wise", "var": sc["shape"] == "variable",
         "cs": r.choice([1, 2, 3, 10, 50000]) if not kw.get("big") else r.choice([7, 100, 1000, 50000]),
         "hextra": r.choice([0, 0, 0, 2, 20]), "before": [r.randrange(0, 200) for _ in range(r.choice([0, 0, 1, 3]))],
         "after": [r.randrange(0, 200) for _ in range(r.choice([0, 0, 1, 2]))], "gap": r.choice([0, 0, 1, 2, 50]),
         "cut": -1, "hcut": -1, "all": r.random() < 0.3, "prof": r.choice(["mix", "slow", "rand", "walk"]), "seed": r.randrange(1, 1 << 30)}
    psz = (20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67)[fmt] + o["eb"]
    if sc["how"] == "header":
        o["hcut"] = r.choice([r.randrange(0, 600), r.randrange(0, 600), 24, 26, 94, 96, 100, 104, 105, 107, 111, 227, 247, 255, 375])
    elif sc["how"] == "points":
        full = n * psz
        if o["laz"]:
            # compressed: less than that; the harness keeps what there is
            full = r.choice([full // 2, full, full // 5 + 8]) + 20
        o["cut"] = r.choice([0, 1, 7, 8, 9, r.randrange(0, full + 1), r.randrange(0, full + 1), max(0, n * psz - 1), psz, psz - 1, psz + 1])
    elif sc["how"] == "less":
        o["count"] = r.choice([n - 1, n - 1, r.randrange(0, n), 0])
    elif sc["how"] == "more":
        # also numbers which have the right low bits
        most = (1 << 64) - 1 if sc["minor"] == 4 else (1 << 32) - 1
        o["count"] = min(most, n + r.choice([1, 1, 2, 3, 100, 256, 65536, (1 << 31) - n, (1 << 32) - n, 1 << 32, 1 << 32, 1 << 33, 1 << 63]))
    if sc["how"] in ("whole", "less"):
        o["tail"] = r.choice([0, 0, 0, 1, 60, 300])
    if r.random() < 0.3:
        o["dev"] = {"short": r.choice([0, 1, 2, 5]), "intr": r.choice([0, 1, 3])}
    if kw.get("wide"):
        # more of everything than 8 or 16 bits can count
        k = kw["wide"]
        o.pop("dev", None)
        if k == "vlrs":
            o["before"] = [r.randrange(0, 20) for _ in range(r.choice([255, 256, 257, 300]))]
            o["after"] = [r.randrange(0, 20) for _ in range(r.choice([0, 1, 255, 256]))]
        elif k == "long vlrs":
            o["before"] = [65535, 65535, 30000][:r.choice([1, 2, 3])]
        elif k == "points":
            o["n"] = o["count"] = r.choice([65535, 65536, 65537, 70001])
            o["cs"] = r.choice([50000, 65536, 70000, 1000])
        elif k == "record":
            o["eb"] = r.choice([255, 256, 300, 1000])
    return o


def c19(c):
    r = rng_of(c, "r")
    txt = c.tlc("MCSimpleFile", cfg({"Emit": "= TRUE", "Ns": "= {0, 1, 2, 3, 7}"}, [],
                                    ["NeverTooMany", "EndIsTheEnd", "WholeIsRead", "MoreIsAnError", "NothingSkipped", "RunsAgree"]))
    sc = c.scripts(txt)
    if len(sc) < 1000:
        raise ToolError("MCSimpleFile gave too few shapes")
    obs = [file_obs(r, s) for s in sc for _ in range(40 if c.thorough else 8)]
    obs += [file_obs(r, s, big=True) for s in sample(r, sc, len(sc) if c.thorough else 400)]
    whole = [s for s in sc if s["how"] == "whole"]
    for k in ("vlrs", "long vlrs", "points", "record"):
        obs += [file_obs(r, s, wide=k) for s in sample(r, whole, 300 if c.thorough else 40)]
    obs += [{"op": "pair", "las": f"{REPO}/tests/data/{p}.las", "laz": f"{REPO}/tests/data/{p}.laz"} for p in PAIRS]
    n = {}
    for v in observe(c, "FileTrace", obs, "files read with SimpleReader", batch=8000):
        if v["op"] == "file":
            k = v["open"] + "/" + v["end"]
            n[k] = n.get(k, 0) + 1
    if n.get("ok/none", 0) < 1000 or n.get("ok/err", 0) < 500:
        raise ToolError(f"unexpected mixture of outcomes {n}")
    return c.finish("model_checking", "every shape of file of MCSimpleFile (LAS minor version, point format, uncompressed / unchunked / fixed / "
                    "variable-size chunks, whole, stating fewer points, cut in the header or the points), each with several contents, other "
                    "VLRs, gaps, trailing bytes, and sources with short and interrupted reads; and the LASzip-written pairs of files of the "
                    "repository; an observation is non-trivial if it differs from all others", extra={"outcomes": n})


FIELD_BITS = 12
SEL_FIELDS = ("z", "classification", "flags", "intensity", "scan_angle", "user_data", "point_source_id", "gps_time", "rgb", "nir",
              "wavepacket", "extra_bytes")


def selective_sessions(c, r, lays, scripts):
    """Histories of Selective: its abstract fields stand for a random partition of the real ones."""
    out = []
    for s in scripts:
        part = [r.randrange(3) for _ in range(FIELD_BITS)]
        mask = {x: sum(1 << b for b in range(FIELD_BITS) if part[b] == i) for i, x in enumerate("abc")}
        ch = [sum(mask[f] for f in x) | (r.randrange(2) << 12) for x in s["changed"]]
        sel = sum(mask[f] for f in s["sel"])
        P = 2
        k = r.choice([1, 1, 2, 5])   # points that stand for one point of the model
        cs = P * k
        n = cs * len(ch)
        par = r.random() < 0.4
        ops = [{"o": "wopen", "k": r.choice(["seq", "par"])}, {"o": "w", "n": n}, {"o": "done"},
               {"o": "ropen", "k": "par" if par else "seq", "sel": sel, "th": r.choice([1, 2, 4])}]
        for o in s["ops"]:
            if o["o"] == "r":
                ops.append({"o": "r", "n": o["n"] * k, "m": r.choice(["many", "one", "trait"])})
            else:
                ops.append({"o": "seek", "i": o["i"] * k + r.randrange(k) * 0})
        out.append(session(r, lays, True, False, cs, n, ops, prof=f"layers:{cs}:{','.join(map(str, ch))}"))
    return out


def every_selection(c, r, step):
    """Every selection of the fields of a point format, on points in which everything, or some fields, change."""
    out = []
    for f, v in [(10, 3), (10, 4)] + [(f, v) for f in (6, 7, 8, 9) for v in (3, 4)]:
        has = [b for b in range(FIELD_BITS) if not (b == 8 and f in (6, 9) or b == 9 and f in (6, 7, 9) or b == 10 and f in (6, 7, 8))]
        masks = range(0, 1 << FIELD_BITS) if f == 10 else [sum(1 << b for i, b in enumerate(has) if m >> i & 1) for m in range(1 << len(has))]
        masks = [m for i, m in enumerate(masks) if step == 1 or i % step == (c.seed + f + v) % step]
        for m in masks:
            m |= r.choice([0, 0, 0xFFFFF000])
            cs = r.choice([3, 4])
            n = cs * 2 + 1
            k = r.choice(["seq", "seq", "par"])
            i = r.randrange(n)
            ops = [{"o": "wopen"}, {"o": "w", "n": n}, {"o": "done"}, {"o": "ropen", "k": k, "sel": m, "th": 2}, {"o": "r", "n": n},
                   {"o": "seek", "i": i}, {"o": "r", "n": n - i}]
            out.append(dict(fmt=f, ver=v, eb=r.choice([1, 2, 5]), var=False, cs=cs, n=n, ops=ops, seed=r.randrange(1, 1 << 30),
                            prof=r.choice(["rand", "mix", f"layers:{cs}", f"layers:{cs}"])))
    return out


def c11(c):
    r = rng_of(c, "r")
    lays = Layouts(r)
    k = {"Fields": "<- F3", "C": "= 2", "P": "= 2", "Emit": "= TRUE", "Passes": "= TRUE", "Keeps": "= TRUE"}
    sc = c.scripts(c.tlc("MCSelective", cfg(k, [], ["SelectedRight", "HeldRest", "InForce"], view="View")))
    for w in ("Passes", "Keeps"):
        t = c.tlc("MCSelective", cfg(dict(k, Emit="= FALSE", **{w: "= FALSE"}), [], ["SelectedRight"], view="View"), ok_needed=False, model=False)
        if "Invariant SelectedRight is violated" not in t:
            raise ToolError("the model of selections does not tell right from wrong readers")
    c.sessions(selective_sessions(c, r, lays, sample(r, sc, 30000 if c.thorough else 4000)), "histories of Selective")
    c.sessions(every_selection(c, r, 1 if c.thorough else 3), "every selection")
    for par in (False, True):
        rs = sample(r, reader_scripts(c, par, full=False), 6000 if c.thorough else 900)
        ss = expand_reader(c, r, rs, lays, par, selp=1.0)
        for s in ss:
            if r.random() < 0.6:
                s["prof"] = f"layers:{max(1, s['cs'])}"
        c.sessions(ss, "readers with a selection")
        ss = big_readers(c, r, lays, par, 400 if c.thorough else 70, selp=1.0)
        for s in ss:
            if r.random() < 0.4:
                s["prof"] = f"layers:{r.choice([s['cs'], 50, 7])}"
        c.sessions(ss, "large readers with a selection")
    # point-wise layouts: the selection has no effect; the helper that takes a selection
    out = []
    for i in range(len(PW) * (6 if c.thorough else 2)):
        n = r.randrange(1, 20)
        cs = r.choice([1, 3, 7])
        j = r.randrange(n)
        out.append(session(r, lays, False, False, cs, n, [{"o": "wopen"}, {"o": "w", "n": n}, {"o": "done"},
                           {"o": "ropen", "k": r.choice(["seq", "par"]), "sel": r.choice([0, r.randrange(1 << 12)])}, {"o": "r", "n": n},
                           {"o": "seek", "i": j}, {"o": "r", "n": n - j}]))
    for i in range(1500 if c.thorough else 300):
        lay = r.random() < 0.8
        n = r.randrange(1, 40)
        cs = r.choice([1, 3, 7, 50])
        out.append(session(r, lays, lay, False, cs, n, [{"o": "wopen"}, {"o": "w", "n": n}, {"o": "done"}] +
                           [{"o": "dbuf", "k": "chunk", "n": n, "sel": r.randrange(1 << 12), "th": r.choice([1, 2, 8])} for _ in range(3)],
                           prof=r.choice(["mix", "rand", f"layers:{cs}"])))
    c.sessions(out, "point-wise layouts, parallel helper")
    # selections as sets
    obs = []
    one = [[w, f] for w in ("take", "skip") for f in SEL_FIELDS]
    for base in ("all", "base", "xy"):
        obs.append({"op": "selops", "base": base, "calls": []})
        obs += [{"op": "selops", "base": base, "calls": [x]} for x in one]
        obs += [{"op": "selops", "base": base, "calls": [r.choice(one) for _ in range(r.randrange(2, 14))]} for _ in range(2000 if c.thorough else 400)]
    for o in obs:
        o["v4"] = r.random() < 0.5
        o["seed"] = r.randrange(1, 1 << 30)
    observe(c, "SelTrace", obs, "selections")
    return c.finish("model_checking", "Selective: every history of up to 3 seeks and reads over two chunks with every pattern of changing "
                    "fields and selection of three fields, which stand for random partitions of the real ones; every selection of the fields of "
                    "format 10 (quick: a third of them) in both versions; SeqReader and ParReader histories with random selections; selections built "
                    "by calls; each selected field of each point compared; a trace is non-trivial if it differs from all others")


# ------------------------------------------------------------------ the codec
def round_trips(c, r, layouts, count, sizes, profs):
    out = []
    for lay in layouts:
        for i in range(count):
            n = r.choice(sizes)
            if lay[2] > 200:
                n = min(n, 60)
            cs = r.choice([n, n, n, 50000, max(1, n // 2), max(1, n // 7), 3 if n < 100 else 50])
            var = r.random() < 0.15
            wk, rk = r.choice(["seq", "seq", "seq", "par"]), r.choice(["seq", "seq", "seq", "par"])
            ops = [{"o": "wopen", "k": wk, "th": 2}]
            if var:
                a = r.randrange(n + 1)
                ops.append({"o": "chunks", "s": [a, n - a]})
            else:
                ops.append({"o": "w", "n": n, "m": r.choice(["many", "many", "one", "trait"])})
            ops += [{"o": "done"}, {"o": "ropen", "k": rk, "th": 2}]
            a = r.randrange(1, n + 1)
            ops += [{"o": "r", "n": x, "m": r.choice(["many", "one", "trait"])} for x in (a, n - a) if x]
            ops.append({"o": "r", "n": 1})
            if n % cs and not var:
                ops.pop()   # an incomplete last chunk may hold more, for all a reader knows
            out.append(dict(fmt=lay[0], ver=lay[1], eb=lay[2], var=var, cs=1 if var else cs, n=n, ops=ops, seed=r.randrange(1, 1 << 30),
                            prof=r.choice(profs)))
    return out


def codec_bad(c, q, g, why, what):
    c.report({k: q[k] for k in q}, None, why + ": " + ", ".join(f"{k}={q[k]}" for k in ("fmt", "ver", "eb", "n", "prof", "seed") if k in q)
             + (f" ({g.get('res')}: {g.get('why')})" if g.get("res") not in ("ok", None) else " (the process ended)" if g.get("died") else ""), what)


def replay_golden(c, what, rows, keep=lambda row: True, roundtrip_only=False):
    """The bytes the specification gave for these chunks, against those of the real code; and back."""
    rows = [row for row in rows if keep(row)]
    reqs = [dict(op="chunk", digest=1, **{k: row[k] for k in ("fmt", "ver", "eb", "prof", "seed", "n", "pts") if k in row}) for row in rows]
    for row, q, g in zip(rows, reqs, c.run_harness("codec", reqs)):
        if g.get("skipped"):
            continue
        if g.get("res") != "ok":
            codec_bad(c, q, g, "these points cannot be compressed", what)
            continue
        if g["pts"] != row["points"]:
            raise ToolError(f"the generator of points has changed: {row}")
        if not g["back"]:
            codec_bad(c, q, g, "the compressed points are not read back", what)
        elif not roundtrip_only and (g["chunk"] != row["chunk"] or not g["same"]):
            codec_bad(c, q, g, f"the chunk is not the one of the specification ({g['len']} bytes, {row['len']} expected)", what)
    c.traces += len(rows)
    c.evals += len(rows)
    c.events += sum(row["n"] for row in rows)
    for row in rows:
        c.distinct.add(row["chunk"])
    if rows:
        c.samples.append({"what": what, "chunk": {k: v for k, v in rows[len(rows) // 2].items() if k != "pts"}})


def fresh_chunks(c, what, plan):
    """Chunks compressed by the real code and by the specification: the same bytes; and the real code reads the specification's."""
    reqs = [dict(op="chunk", fmt=f, ver=v, eb=e, n=n, prof=p, seed=s) for (f, v, e), n, p, s in plan]
    ok = []
    for q, g in zip(reqs, c.run_harness("codec", reqs)):
        if g.get("skipped"):
            continue
        if g.get("res") != "ok":
            codec_bad(c, q, g, "these points cannot be compressed", what)
        else:
            ok.append((q, g, (q["fmt"], q["ver"], q["eb"], codec.point_size(q["fmt"], q["eb"]), bytes.fromhex(g["pts"]))))
    if not ok:
        return
    spec = codec.spec_chunks(c, [x[2] for x in ok])
    reads = []
    for (q, g, ch), s in zip(ok, spec):
        if g["chunk"] != s.hex() or not g["same"]:
            codec_bad(c, dict(q, pts=g["pts"], expected=s.hex(), got=g["chunk"]), g, "the chunk is not the one of the specification", what)
        reads.append(dict(op="read", fmt=q["fmt"], ver=q["ver"], eb=q["eb"], n=len(ch[4]) // ch[3], chunk=s.hex()))
    ways = ["sequential", "parallel", "chunk", "point-wise"]
    for (q, g, ch), rd, b in zip(ok, reads, c.run_harness("codec", reads)):
        if b.get("skipped"):
            continue
        outs = b.get("outs") or [["died", "", ""]]
        for w, o in zip(ways, outs):
            if o[0] != "ok" or o[2] != g["pts"]:
                codec_bad(c, dict(rd, prof=q["prof"], seed=q["seed"], pts=g["pts"]), {"res": o[0], "why": o[1]},
                          f"the specification's chunk is not read back ({w})", what)
                break
    c.traces += len(ok)
    c.evals += 2 * len(ok)
    c.events += sum(len(x[2][4]) // x[2][3] for x in ok)
    c.states += len(ok)
    c.transitions += sum(len(x[2][4]) // x[2][3] for x in ok)
    for x in ok:
        c.distinct.add(hashlib.md5(x[1]["chunk"].encode()).digest())
    q, g, _ = ok[len(ok) // 2]
    c.samples.append({"what": what, "layout": [q["fmt"], q["ver"], q["eb"]], "prof": q["prof"], "points": g["pts"][:160], "chunk": g["chunk"][:160]})


def coder_behaviours(c, what, traces, steps, action, salt, timeout=800):
    """Behaviours of the coder's specification: the same bytes from the real coder, and the values back from the specification's."""
    bs = codec.behaviours(c, traces, steps, c.seed * 10 + salt, action, timeout=timeout)
    reqs, want = [], []
    for b in bs:
        ops = []
        c.states += len(b)
        c.transitions += sum(len(calls) for calls, _ in b)
        for i, (calls, out) in enumerate(b):
            ops = ops + calls
            if not ops:
                continue
            base = dict(syms=codec.SYMS, bits=3, ints=codec.INTS, ops=ops)
            reqs += [dict(base, op="code"), dict(base, op="decode", bytes=out.hex())]
            want += [out.hex(), [o[-1] for o in ops]]
    for q, w, g in zip(reqs, want, c.run_harness("codec", reqs)):
        if g.get("skipped"):
            continue
        x = g.get("bytes" if q["op"] == "code" else "vals")
        if x != w:
            k = next((i for i in range(min(len(x or []), len(w))) if x[i] != w[i]), 0)
            msg = (f"the coder's bytes are not those of the specification, from byte {k // 2} of {len(w) // 2}" if q["op"] == "code"
                   else f"value {k} of {len(w)} is not what was encoded: {q['ops'][k]}")
            c.report(dict(q, expected=w), None, msg + f", {len(q['ops'])} calls ({g.get('res')}: {g.get('why')})", what)
    c.traces += len(reqs)
    c.evals += len(reqs)
    c.events += sum(len(q["ops"]) for q in reqs)
    for q, w in zip(reqs, want):
        c.distinct.add(hashlib.md5(json.dumps(w).encode()).digest())
    if bs:
        c.samples.append({"what": what, "calls": bs[0][-1][0][:8], "bytes": bs[0][-1][1][:40].hex()})


def fresh_plan(r, layouts, per, sizes, profs):
    return [(l, r.choice(sizes) if l[2] < 30 else 12, profs[k % len(profs)], r.randrange(1 << 40)) for l in layouts for k in range(per)]


def c01(c):
    r = rng_of(c, "r")
    base = PW + LAY
    more = [(f, v, e) for f in range(11) for v in ((1, 2) if f < 6 else (3, 4)) for e in (2, 4, 5, 16, 33, 100, 256, 1000)]
    profs = ["mix", "mix", "mix", "dec", "dec", "rand", "walk", "slow", "const", "layers:5", "layers:60"]
    k = 20 if c.thorough else 3
    # the design: what is encoded can be decoded
    coder_behaviours(c, "coding operations", 16 if not c.thorough else 160, 3 if not c.thorough else 6, "step", 1)
    fresh_chunks(c, "chunks of the specification", fresh_plan(r, base if c.thorough else r.sample(base, 24), 4 if c.thorough else 1, [2, 10, 25], ["dec", "mix", "rand", "walk"]))
    replay_golden(c, "round trips of golden chunks", codec.golden(), roundtrip_only=True)
    c.sessions(round_trips(c, r, base, 6 * k, [1, 2, 3, 5, 10, 30, 100, 300, 1000], profs), "round trips of every layout")
    c.sessions(round_trips(c, r, more, k, [1, 2, 30, 100, 300], profs), "round trips with more extra bytes")
    c.sessions(round_trips(c, r, [l for l in base if l[2] in (0, 3)], k // 3, [3000, 10000, 20000], profs), "long round trips")
    c.sessions(round_trips(c, r, [l for l in base if l[2] == 1], 2 if c.thorough else 1, [70000, 200000] if c.thorough else [70000],
                           ["mix", "slow", "rand", "walk", "dec"]), "very long round trips")
    carry = round_trips(c, r, [l for l in base if l[2] in (1, 3)], 3 if c.thorough else 1, [20000], ["carry"])
    for s in carry:
        s["cs"] = 1 if s["var"] else 50000
    c.sessions(carry, "round trips with carries that take long")
    big = [(f, v, e) for f in (0, 3, 6, 10) for v in ((1, 2) if f < 6 else (3, 4)) for e in (5000, 20000)]
    c.sessions(round_trips(c, r, big, 1, [1, 5, 20], ["rand", "mix"]), "very many extra bytes")
    return c.finish("model_checking", "round trips of every point format and item version with 16 counts of extra bytes, over data of adversarial "
                    "profiles (each field constant, walking, extreme, alternating, recalling, in interleaved sequences, what random bytes decode to, "
                    "...), judged by LazAbs; the coding operations' losslessness is an invariant of the Quint specification, whose bytes are also read "
                    "back by the real code; a trace is non-trivial if it differs from all others")


def c02(c):
    r = rng_of(c, "r")
    base = PW + LAY
    replay_golden(c, "golden chunks", codec.golden())
    profs = ["dec", "mix", "walk", "rand", "dec", "layers:4", "dec", "mix", "const"]
    fresh_chunks(c, "fresh chunks", fresh_plan(r, base, 2, [2, 5, 20, 30], profs))
    few = [(f, v, e) for f in range(11) for v in ((1, 2) if f < 6 else (3, 4)) for e in (2, 5, 16, 60)]
    fresh_chunks(c, "fresh chunks with more extra bytes", fresh_plan(r, few if c.thorough else r.sample(few, 12), 1, [1, 2, 12], profs))
    if c.thorough:
        for k in range(6):
            fresh_chunks(c, "more fresh chunks", fresh_plan(r, base, 3, [1, 3, 25, 80], profs[k:] + profs[:k]))
        fresh_chunks(c, "longer fresh chunks", fresh_plan(r, [l for l in base if l[2] in (0, 1)], 1, [300], ["mix", "slow", "walk", "dec"]))
    # the specification against what LASzip itself has written
    codec.reference_files(c, 300 if c.thorough else 40)
    return c.finish("model_checking", "chunks of every point format and item version: the bytes of the real code against those of the Quint "
                    "specification of the format, and the specification's bytes read by the real code (sequential, parallel, chunk alone, point-wise); "
                    "a chunk is non-trivial if its bytes differ from all others; states are chunks, transitions are points")


def c18(c):
    coder_behaviours(c, "any calls", 240 if c.thorough else 32, 6 if c.thorough else 4, "step", 2)
    for k in range(6 if c.thorough else 1):
        coder_behaviours(c, "carries through long outputs", 16, 3 if c.thorough else 2, "stepLong", 3 + k)
        coder_behaviours(c, "models with long histories", 16, 4 if c.thorough else 3, "stepWorn", 20 + k)
    return c.finish("model_checking", "behaviours of the Quint specification of the entropy coder (any mix of calls over 10 symbol alphabets, bit models, "
                    "raw bits of all widths, 13 integer coders; values uniform, small, constant, or steered so that the interval straddles a number), "
                    "invariant: every value can be decoded; at the end of each batch the real coder's bytes are compared and the specification's bytes "
                    "are decoded by the real decoder; states are batches, transitions are calls")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13,
          "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
