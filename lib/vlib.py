"""Shared machinery of the checks: build the harness from /repo's working tree,
run TLC (model checking, behaviour generation, trace validation), run the
harness, and report evidence, violations and errors as the interface asks."""

import json, os, re, shutil, subprocess, sys, time, random, signal, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
WORK = os.path.join(VERIF, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    """The machinery failed; no verdict (exit 2)."""


class Violation(Exception):
    """The property does not hold: what, and data to reproduce it."""

    def __init__(self, what, data=None):
        super().__init__(what)
        self.what, self.data = what, data


def cargo_env():
    env = dict(os.environ)
    out = subprocess.run(
        ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
        stdout=subprocess.PIPE, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            if k not in ("PWD", "OLDPWD", "SHLVL", "_"):
                env[k] = v
    env.pop("CARGO_TARGET_DIR", None)
    env["CARGO_TERM_COLOR"] = "never"
    return env


_built = {}


# Builds of redharness: profile and features
KINDS = {"none": ("dev", "default"), "mmap": ("dev", "mmap"), "brotli": ("dev", "brotli"),
         "plain": ("plain", "mmap,brotli")}


def build(crate="harness"):
    """Build a harness crate (and so /repo's crates) with cargo."""
    if crate in _built:
        return _built[crate]
    name, _, kind = crate.partition(":")
    d = os.path.join(VERIF, name)
    profile, features = KINDS[kind] if kind else ("dev", "default")
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", profile, "--features", features,
         "--target-dir", os.path.join(d, "target")],
        cwd=d, env=dict(cargo_env(), **({"CARGO_INCREMENTAL": "0"} if kind else {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=800)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        raise ToolError("harness build failed: " + crate)
    out = os.path.join(d, "target", "debug" if profile == "dev" else profile)
    if kind:
        # One place for each kind, since all are built in the same one
        to = os.path.join(d, "target", "kinds", kind)
        os.makedirs(to, exist_ok=True)
        for b in ("bihred", "barc-red"):
            shutil.copy2(os.path.join(out, b), os.path.join(to, b))
        out = to
    _built[crate] = out
    return _built[crate]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r"\D", "", pid) or 0))
        self.work = os.path.join(WORK, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.detail = {}
        self.assumptions = []
        self.level = "model_checking"
        self.exhaustive = None
        self.violations = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    # -- TLC -----------------------------------------------------------------

    def tlc(self, module, cfg=None, args=(), env=None, workers=None, timeout=600,
            heap="3g", tag=None, capture=None):
        """Run TLC on spec/<module>.tla; return (exit code, output, stats).
        capture: file to receive the output instead of memory."""
        tag = tag or (cfg or module)
        meta = os.path.join(self.work, "tlc-" + re.sub(r"\W", "_", tag))
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(env or {})
        e["TMPDIR"] = meta
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
               "-Djava.io.tmpdir=" + meta,
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers or CPUS),
               "-metadir", meta, "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        outp = capture or os.path.join(meta, "out")
        with open(outp, "wb") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f,
                                   stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out after %d s: %s" % (timeout, tag))
        stats = {"generated": 0, "distinct": 0}
        text = None
        if capture:
            with open(outp, "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 20000))
                tail = f.read().decode(errors="replace")
        else:
            with open(outp, errors="replace") as f:
                text = f.read()
            tail = text[-20000:]
        m = re.search(r"([\d,]+) states generated(?:[^\n]*?), ([\d,]+) distinct", tail)
        for m in re.finditer(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", tail):
            stats = {"generated": int(m.group(1).replace(",", "")),
                     "distinct": int(m.group(2).replace(",", ""))}
        m = re.search(r"number of states generated: (\d+)", tail)
        if m:
            stats["generated"] = stats["distinct"] = int(m.group(1))
        shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
        return r.returncode, (text if text is not None else tail), stats

    def model_check(self, module, cfg=None, timeout=600, heap="6g"):
        """The specification itself must satisfy its invariants."""
        code, out, st = self.tlc(module, cfg, timeout=timeout, heap=heap)
        if code != 0:
            raise ToolError("model checking of %s failed (TLC %d):\n%s"
                            % (cfg or module, code, out[-3000:]))
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.detail.setdefault("model_checked", {})[cfg or module] = st
        self.log("model checked %s: %d distinct states" % (cfg or module, st["distinct"]))

    def gen_lines(self, module, cfg, key, args=(), workers=1, timeout=600, heap="4g", env=None):
        """Lines printed as <<key, json...>> by TLC."""
        path = os.path.join(self.work, "gen-" + cfg)
        code, tail, st = self.tlc(module, cfg, args=args, workers=workers,
                                  timeout=timeout, heap=heap, capture=path, env=env)
        if code != 0:
            raise ToolError("generation from %s failed (TLC %d):\n%s" % (cfg, code, tail[-3000:]))
        res = []
        pre = '<<"%s", ' % key
        dec = json.JSONDecoder()
        with open(path, errors="replace") as f:
            for line in f:
                if not line.startswith(pre):
                    continue
                body = line.rstrip()[len(pre):-2]
                items, p = [], 0
                # Each item is a TLA+ string holding JSON
                while p < len(body):
                    s, p = dec.raw_decode(body, p)
                    items.append(s)
                    p += 2
                res.append(items)
        os.remove(path)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.detail.setdefault("generated_from", {})[cfg] = dict(st, lines=len(res))
        return res

    def gen_sim(self, module, cfg, num, depth, key="GEN", timeout=600, seed=None, env=None):
        """Random behaviours, as lists of events."""
        lines = self.gen_lines(
            module, cfg, key, timeout=timeout, env=env,
            args=["-simulate", "num=%d" % num, "-depth", str(depth + 2),
                  "-seed", str(seed if seed is not None else self.seed)])
        self.log("%s: %d behaviours" % (cfg, len(lines)))
        return [json.loads(l[0]) for l in lines]

    def gen_edges(self, module, cfg, timeout=600, maxlen=40, env=None, limit=None):
        """Cover every transition of the state graph with behaviours."""
        lines = self.gen_lines(module, cfg, "EDGE", timeout=timeout, env=env)
        ids, graph, init = {}, {}, None
        nedges = 0
        norm = lambda t: json.dumps(json.loads(t), sort_keys=True)
        for a, e, b in lines:
            a, b, e = norm(a), norm(b), norm(e)
            ka = ids.setdefault(a, len(ids))
            kb = ids.setdefault(b, len(ids))
            graph.setdefault(ka, {}).setdefault((e, kb), False)
        for k in graph:
            nedges += len(graph[k])
        scripts = tours(graph, 0, maxlen, self.rng, limit)
        self.log("%s: %d states, %d transitions, %d tours" % (cfg, len(ids), nedges, len(scripts)))
        self.detail.setdefault("tours", {})[cfg] = {
            "states": len(ids), "transitions": nedges, "tours": len(scripts)}
        return [[json.loads(e) for e in s] for s in scripts]

    # -- harness -------------------------------------------------------------

    def harness(self, sub, scripts, tag=None, crate="harness", binary="bih", timeout=600,
                extra=(), jobs=CPUS):
        """Replay scripts with the harness, in parallel; return traces."""
        tag = tag or sub
        bindir = build(crate)
        jobs = max(1, min(jobs, len(scripts)))
        parts = [scripts[k::jobs] for k in range(jobs)]
        scratch = os.path.join(self.work, "scratch")
        os.makedirs(scratch, exist_ok=True)

        def one(k):
            sp = os.path.join(self.work, "%s-%d.scripts" % (tag, k))
            tp = os.path.join(self.work, "%s-%d.traces" % (tag, k))
            with open(sp, "w") as f:
                for s in parts[k]:
                    f.write(json.dumps(s, separators=(",", ":")) + "\n")
            env = dict(os.environ)
            env["BIH_SCRATCH"] = scratch
            env["TMPDIR"] = scratch
            errp = tp + ".err"
            with open(errp, "wb") as ef:
                try:
                    r = subprocess.run([os.path.join(bindir, binary), sub, sp, tp] + list(extra),
                                       env=env, stdout=ef, stderr=subprocess.STDOUT,
                                       timeout=timeout)
                    code = r.returncode
                except subprocess.TimeoutExpired:
                    code = "timeout"
            return k, code, tp, errp

        traces = []
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, range(jobs)))
        for k, code, tp, errp in results:
            if code != 0:
                with open(errp, errors="replace") as f:
                    err = f.read()[-3000:]
                cur = None
                try:
                    with open(tp + ".cur") as f:
                        cur = parts[k][int(f.read())]
                except Exception:
                    pass
                if "script:" in err or code == 2 or (code == 101 and cur is None):
                    raise ToolError("harness %s failed (%s): %s" % (sub, code, err))
                if code == "timeout" and cur is None:
                    raise ToolError("harness %s timed out" % sub)
                what = ("no progress (hang)" if code in (97, "timeout")
                        else "abnormal end (%s)" % code)
                raise Violation("%s while replaying a behaviour: %s" % (what, err[-600:]),
                                {"script": cur, "sub": sub})
            with open(tp) as f:
                for line in f:
                    traces.append(line)
            os.remove(os.path.join(self.work, "%s-%d.scripts" % (tag, k)))
            os.remove(tp)
        return traces

    # -- trace validation ----------------------------------------------------

    def validate(self, module, traces, cfg=None, timeout=600, per=None, heap="2500m", env=None):
        """Validate trace lines (JSON text) against a Trace module."""
        if not traces:
            raise ToolError("no traces to validate against " + module)
        n = len(traces)
        jobs = 1 if n < 200 else CPUS // 2
        per = per or max(1, -(-n // jobs))
        chunks = [traces[i:i + per] for i in range(0, n, per)]

        def one(k):
            p = os.path.join(self.work, "%s-%d.ndjson" % (cfg or module, k))
            with open(p, "w") as f:
                for t in chunks[k]:
                    f.write(t if t.endswith("\n") else t + "\n")
            code, out, st = self.tlc(module, cfg, env=dict(env or {}, TRACE=p), workers=2,
                                     timeout=timeout, heap=heap,
                                     tag="%s-%d" % (cfg or module, k))
            os.remove(p)
            return k, code, out, st

        with concurrent.futures.ThreadPoolExecutor(CPUS // 2) as ex:
            results = list(ex.map(one, range(len(chunks))))
        bad = None
        tst = {"generated": 0, "distinct": 0}
        for k, code, out, st in results:
            tst["generated"] += st["generated"]
            tst["distinct"] += st["distinct"]
            if code == 0:
                continue
            # 75: an expression could not be evaluated for what was recorded
            if code in (11, 12, 13, 75):
                ti = re.findall(r"^(?:/\\ )?ti = (\d+)", out, re.M)
                l = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
                if not ti:
                    raise ToolError("no trace index in TLC output:\n" + out[-3000:])
                t = json.loads(chunks[k][int(ti[-1]) - 1])
                l = int(l[-1])
                bad = bad or (t, l, out)
            else:
                raise ToolError("validation against %s failed (TLC %d):\n%s"
                                % (module, code, out[-3000:]))
        self.traces += n
        self.states += tst["distinct"]
        self.transitions += tst["generated"]
        self.detail.setdefault("validated", {}).setdefault(cfg or module, 0)
        self.detail["validated"][cfg or module] += n
        if bad:
            t, l, out = bad
            e = t["ev"][l - 1] if 0 < l <= len(t["ev"]) else None
            m = re.findall(r"^Error: (.*)$", out, re.M)
            raise Violation("%s: recorded event %d is not allowed: %s (%s)"
                            % (module, l, json.dumps(e)[:600], "; ".join(m)[:200]),
                            {"module": module, "at": l, "trace": t,
                             "tlc": out[-4000:]})
        self.log("%s: %d traces accepted" % (cfg or module, n))

    # -- result --------------------------------------------------------------

    def evidence(self, nviol):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["none"],
        }
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.detail)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def tours(graph, init, maxlen, rng, limit=None):
    """Walks from init, each at most about maxlen, covering all edges."""
    from collections import deque
    todo = {s: [k for k in graph[s]] for s in graph}
    for s in todo:
        rng.shuffle(todo[s])
    left = sum(len(v) for v in todo.values())
    adj = {s: [(e, t) for (e, t) in graph[s]] for s in graph}
    # Shortest path from init to each state
    par = {init: None}
    q = deque([init])
    order = []
    while q:
        s = q.popleft()
        order.append(s)
        for e, t in adj.get(s, ()):
            if t not in par:
                par[t] = (s, e)
                q.append(t)
    scripts = []
    ptr = 0

    def path_to(t):
        p = []
        while par[t] is not None:
            s, e = par[t]
            p.append((s, e, t))
            t = s
        return p[::-1]

    def near(s, room):
        """Nearest state with an uncovered edge, within room steps"""
        if todo.get(s):
            return []
        seen = {s: None}
        q = deque([(s, 0)])
        n = 0
        while q:
            x, d = q.popleft()
            if d >= room:
                continue
            n += 1
            if n > 300:
                return None
            for e, t in adj.get(x, ()):
                if t in seen:
                    continue
                seen[t] = (x, e)
                if todo.get(t):
                    p = []
                    while seen[t] is not None:
                        y, e2 = seen[t]
                        p.append((y, e2, t))
                        t = y
                    return p[::-1]
                q.append((t, d + 1))
        return None

    covered = set()
    while left > 0 and (limit is None or len(scripts) < limit):
        while ptr < len(order) and not todo.get(order[ptr]):
            ptr += 1
        if ptr >= len(order):
            break
        walk, cur = [], init

        def take(s, e, t):
            nonlocal left
            walk.append(e)
            if (s, e, t) not in covered:
                covered.add((s, e, t))
                left -= 1

        for (s, e, t) in path_to(order[ptr]):
            take(s, e, t)
            cur = t
        while len(walk) < maxlen:
            p = near(cur, min(4, maxlen - len(walk)))
            if p is None:
                break
            for (s, e, t) in p:
                take(s, e, t)
                cur = t
            lst = todo.get(cur)
            while lst and (cur,) + lst[-1] in covered:
                lst.pop()
            if not lst:
                if not any(todo.values()):
                    break
                continue
            e, t = lst.pop()
            take(cur, e, t)
            cur = t
        scripts.append(walk)
    return scripts


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return []


def main(pid, fn):
    c = Check(pid)
    code = 2
    try:
        fn(c)
        c.evidence(0)
        c.log("held: %d states, %d traces validated" % (c.states, c.traces))
        code = 0
    except Violation as v:
        path = os.path.join(EVID, "%s-violation.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "what": v.what, "seed": c.seed, "tier": c.tier,
                       "data": v.data}, f, indent=1)
        c.evidence(1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        code = 1
    except ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout: %s" % e, file=sys.stderr)
    finally:
        if os.environ.get("VERIF_KEEP") is None:
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(code)
