"""Infrastructure of the checks: building, TLC, running sessions on the real code, trace validation."""
import fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("LAZ_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec", "tla")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "release", "lazh")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, REPO).encode())
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def build():
    """Builds the harness against /repo's working tree."""
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    os.makedirs(os.path.join(HARNESS, "target"), exist_ok=True)
    lock = open(os.path.join(HARNESS, "target", ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(HARNESS, "target", ".source")
    want = source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        # never trust modification times alone
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "laz"], cwd=HARNESS, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        raise ToolError("the harness does not build against the working tree")
    open(stamp, "w").write(want)
    fcntl.flock(lock, fcntl.LOCK_UN)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.generated = 0
        self.traces = 0
        self.events = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.models = []
        self.notes = []
        self.violations = []
        self.next_id = 0
        self.ntlc = 0
        self.dead = False   # an input ended or hung the process

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, heap="6g", timeout=800, extra=(), ok_needed=True, model=True, instance=None):
        self.ntlc += 1
        if "Emit = TRUE" in cfg or "-simulate" in extra:
            workers = 1   # with more of them, which of the histories to a state is the shortest one found is a race
        tag = f"{module}-{self.ntlc}"
        cfgp = os.path.join(self.work, tag + ".cfg")
        open(cfgp, "w").write(cfg)
        outp = os.path.join(self.work, tag + ".out")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.work, "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(self.work, tag + ".md"), "-noGenerateSpecTE", "-config", cfgp, *extra,
               instance or os.path.join(SPEC, module + ".tla")]
        if instance:
            cmd.insert(1, "-DTLA-Library=" + SPEC)
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        with open(outp, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=self.work, env=e, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {module}")
        shutil.rmtree(os.path.join(self.work, tag + ".md"), ignore_errors=True)
        txt = open(outp).read()
        st = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        if st:
            g, d = int(st[-1][0]), int(st[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", txt)
            g = d = int(m[-1]) if m else 0
        done = "Model checking completed. No error has been found." in txt or ("-simulate" in extra and rc == 0)
        if ok_needed and not done:
            sys.stderr.write(txt[-6000:])
            raise ToolError(f"TLC reports an error in model {module} (exit {rc}), see {outp}")
        if model:
            self.states += d
            self.transitions += g
            self.models.append({"module": module, "states": d, "transitions": g, "s": round(time.time() - t, 1)})
        return txt

    def scripts(self, txt, tag="SCRIPT "):
        out = []
        p = '"' + tag
        for l in txt.splitlines():
            if l.startswith(p):
                out.append(json.loads(json.loads(l.strip())[len(tag):]))
        # TLC's workers print in any order
        return sorted(out, key=lambda s: json.dumps(s, sort_keys=True))

    # ------------------------------------------------------- real code
    def run_harness(self, cmd, lines, timeout=600, threads=8):
        """Runs `lazh cmd` over the lines; an input that ends or hangs the process gives {"died":...}."""
        if self.dead:
            return [{"skipped": True} for _ in lines]
        out = [None] * len(lines)
        todo = list(range(len(lines)))
        rounds = 0
        suspects = []
        while todo:
            rounds += 1
            res, started = self._harness_once(cmd, [lines[i] for i in todo], timeout, threads)
            for k, v in res.items():
                out[todo[k]] = v
            rest = [i for i in todo if out[i] is None]
            if len(rest) == 0:
                break
            # the process ended early: the inputs being worked on are suspects, tried one at a time
            sus = [todo[k] for k in started if out[todo[k]] is None]
            if not sus:
                raise ToolError("the harness ended without starting its inputs")
            for i in sus:
                r1, _ = self._harness_once(cmd, [lines[i]], 200, 1)
                if 0 in r1:
                    out[i] = r1[0]
                else:
                    # one such input decides the check: nothing more is run, so that a hang costs
                    # minutes once and not for each input of each family
                    out[i] = {"died": True}
                    self.dead = True
                    break
            todo = [i for i in rest if out[i] is None]
            if self.dead or rounds > 12:
                for i in todo:
                    out[i] = {"skipped": True}
                break
        return out

    def _harness_once(self, cmd, lines, timeout, threads):
        self.ntlc += 1
        inp = os.path.join(self.work, f"in{self.ntlc}.nd")
        outp = os.path.join(self.work, f"out{self.ntlc}.nd")
        with open(inp, "w") as f:
            for l in lines:
                f.write(json.dumps(l, separators=(",", ":")) + "\n")
        env = dict(os.environ, LAZH_THREADS=str(threads))
        p = subprocess.Popen([BIN, cmd, inp, outp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env,
                             cwd=self.work)
        started = outp + ".started"
        last, lastt, t0 = -1, time.time(), time.time()
        while p.poll() is None:
            try:
                p.wait(0.2)
            except subprocess.TimeoutExpired:
                pass
            n = os.path.getsize(started) if os.path.exists(started) else 0
            now = time.time()
            if n != last:
                last, lastt = n, now
            if now - lastt > 150 or now - t0 > timeout:
                p.kill()
                p.wait()
                break
        res = {}
        if os.path.exists(outp):
            for l in open(outp):
                try:
                    v = json.loads(l)
                    res[v["k"]] = v
                except ValueError:
                    pass
        st = []
        if os.path.exists(started):
            beg, end = [], set()
            for l in open(started):
                a = l.split()
                if len(a) == 2 and a[1].isdigit():
                    (beg.append(int(a[1])) if a[0] == "s" else end.add(int(a[1])))
            st = [k for k in beg if k not in end]
        for f in (inp, outp, started):
            if os.path.exists(f):
                os.unlink(f)
        return res, st

    # ---------------------------------------------------- sessions
    def sessions(self, scripts, what, timeout=600):
        """Replays session scripts on the real code and validates the traces against LazAbs."""
        if not scripts:
            raise ToolError("no sessions for " + what)
        rt = random.Random(f"{self.seed}-{self.prop}-{what}")

        def styles(ops):
            for o in ops:
                if o.get("o") in ("res", "w", "done", "r", "seek") and rt.random() < 0.25:
                    o["t"] = True   # the call goes through the crate's traits
                styles(o.get("do", []))
        for s in scripts:
            s["id"] = self.next_id
            self.next_id += 1
            s["ops"] = json.loads(json.dumps(s["ops"]))   # operations may be shared between sessions
            styles(s["ops"])
        traces = self.run_harness("run", scripts, timeout)
        good = []
        for s, t in zip(scripts, traces):
            if t.get("skipped"):
                continue
            if t.get("died"):
                self.report(s, None, "the process ended or hung while running this session", what)
                continue
            t.pop("k", None)
            good.append((s, t))
        self.validate(good, what)
        for s, t in good[:1]:
            self.samples.append({"what": what, "script": s, "events": t["ev"][:6]})
        self.evals += len(good)
        return traces

    def validate(self, pairs, what, batch_bytes=6_000_000):
        """Trace validation: TLC checks every recorded event against LazAbs."""
        batches, cur, size = [], [], 0
        for s, t in pairs:
            l = json.dumps(t, separators=(",", ":"))
            if cur and size + len(l) > batch_bytes:
                batches.append(cur)
                cur, size = [], 0
            cur.append((s, t, l))
            size += len(l)
            self.events += len(t["ev"])
            self.distinct.add(hashlib.md5(json.dumps([t["ev"], t["fmt"], t["ver"]]).encode()).digest())
        if cur:
            batches.append(cur)
        self.traces += len(pairs)

        def one(b, tag):
            p = os.path.join(self.work, f"trace-{what.replace(' ', '_')}-{tag}.nd")
            with open(p, "w") as f:
                for _, _, l in b:
                    f.write(l + "\n")
            txt = self.evaluate("LazTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", p, 2, "3g")
            os.unlink(p)
            if txt is not None:
                return [txt]
            # some value recorded has no meaning in the specification (a number TLC has no room for,
            # a field of another kind): find the sessions which have it
            if len(b) > 1:
                h = len(b) // 2
                return one(b[:h], tag + "l") + one(b[h:], tag + "r")
            unread.append(b[0])
            return []
        unread = []
        with ThreadPoolExecutor(4) as ex:
            outs = [x for r in ex.map(lambda ib: one(ib[1], str(ib[0])), enumerate(batches)) for x in r]
        byid = {s["id"]: (s, t) for s, t in pairs}
        seen = 0
        for txt in outs:
            for m in re.finditer(r'<<"NOT-A-BEHAVIOUR", (\d+), (\d+), "(\w+)">>', txt):
                i, pos, op = int(m[1]), int(m[2]), m[3]
                s, t = byid[i]
                e = t["ev"][pos - 1]
                if e["op"] == "tool":
                    raise ToolError(f"harness error in session {i}: {e}")
                self.report(s, t, f"event {pos} ({op}) is not a behaviour of the specification: {json.dumps(e)[:300]}", what, pos)
            seen += len(re.findall(r"NOT-A-BEHAVIOUR", txt))
        for s, t, _ in unread:
            self.report(s, t, "the session records values which have no meaning in the specification: "
                        + json.dumps(t["ev"])[:300], what)
        return seen + len(unread)

    def evaluate(self, module, cfg, path, workers, heap):
        """Runs a trace specification; None when TLC cannot evaluate it over what was recorded."""
        txt = self.tlc(module, cfg, env={"LAZ_TRACE": path}, workers=workers, heap=heap, model=False, ok_needed=False)
        if "Model checking completed. No error has been found." in txt:
            return txt
        if "OutOfMemory" in txt or "StackOverflow" in txt or not re.search(r"^Error: |Exception", txt, re.M):
            sys.stderr.write(txt[-3000:])
            raise ToolError(f"TLC ended early on {module}")
        return None

    def table(self, module, events, what, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"):
        """Checks recorded single observations (not sessions) with another trace specification."""
        p = os.path.join(self.work, f"obs-{module}.nd")
        outs, unread = [], []

        def part(es):
            with open(p, "w") as f:
                for e in es:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
            txt = self.evaluate(module, cfg, p, 4, "4g")
            if txt is not None:
                outs.append(txt)
            elif len(es) > 1:
                part(es[:len(es) // 2])
                part(es[len(es) // 2:])
            else:
                unread.append(es[0])
        for i, e in enumerate(events):
            e["id"] = i
        part(events)
        os.unlink(p)
        txt = "\n".join(outs)
        for e in unread:
            self.report(e, None, "the observation has values without a meaning in the specification: " + json.dumps(e)[:300], what)
        self.traces += len(events)
        self.evals += len(events)
        for e in events:
            self.distinct.add(hashlib.md5(json.dumps(e, sort_keys=True).encode()).digest())
        if events:
            self.samples.append({"what": what, "event": events[len(events) // 2]})
        for m in re.finditer(r'<<"NOT-A-BEHAVIOUR", (\d+), "(\w+)">>', txt):
            e = events[int(m[1])]
            self.report(e, None, "the observation is not one the specification allows: " + json.dumps(e)[:300], what)

    # ---------------------------------------------------- reporting
    def report(self, script, trace, why, what, pos=None):
        d = os.path.join(ROOT, "work", "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        p = os.path.join(d, f"{self.prop}-{n}.json")
        if n < 20:
            json.dump({"property": self.prop, "check": what, "why": why, "at_event": pos, "script": script,
                       "trace": trace}, open(p, "w"), indent=1)
        self.violations.append((p, why, what))

    def finish(self, level, rule, exhaustive=None, extra=None):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": rule,
            "models": self.models, "samples": self.samples[:6],
        }
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            for p, why, what in self.violations[:5]:
                print(f"# [{what}] {why}")
            print(f"VIOLATION property={self.prop} replay={self.violations[0][0]}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} states={self.states} traces={self.traces} events={self.events} "
              f"wall={ev['wall_s']}s")
        return 0
