"""Shared machinery of the checks: building the executor from /repo's working tree, running it,
running TLC, splitting traces, reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, min(8, os.cpu_count() or 4))


MISSING = "results are missing"


class ToolError(Exception):
    pass


# signals by which a process ends itself: not those by which another ends it
FATAL = (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL)


class Crashed(Exception):
    """Running one scenario alone ends or hangs the whole executor, repeatedly."""

    def __init__(self, run, scenario, why):
        Exception.__init__(self, why)
        self.run, self.scenario, self.why = run, scenario, why


def tail(text, n=2500):
    """The end of a tool's output, without dumps of the environment."""
    return "\n".join(l[:400] for l in text.splitlines())[-n:]


def fnv64(b):
    h = 0xCBF29CE484222325
    for x in b:
        h = ((h ^ x) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
    return h


def esc(b):
    """Same as util::esc in the executor."""
    if isinstance(b, str):
        b = b.encode()
    return "".join(chr(x) if 0x20 <= x < 0x7F else "\\x%02x" % x for x in b)


def summary(b):
    """Same as util::sum in the executor."""
    if isinstance(b, str):
        b = b.encode()
    if len(b) <= 3000:
        return "t:" + esc(b)
    return "h:%d:%016x" % (len(b), fnv64(b))


def expand(expr):
    """Same as util::expand in the executor."""
    if expr.startswith("@"):
        n, seed = expr[1:].split(":")
        x = (int(seed) + 12345) & 0xFFFFFFFFFFFFFFFF
        abc = b"abcdefghijklmnopqrstuvwxyz0123456789"
        out = bytearray()
        for _ in range(int(n)):
            x = (x * 6364136223846793005 + 1442695040888963407) & 0xFFFFFFFFFFFFFFFF
            out.append(abc[(x >> 33) % 36])
        return bytes(out)
    if expr.startswith("%"):
        return bytes.fromhex(expr[1:])
    return expr.encode()


class Run:
    """One run of one check."""

    def __init__(self, prop, technique=""):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.coverage = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.pool = cf.ThreadPoolExecutor(max_workers=CPUS)
        self.searcher = False
        self.abandoned = set()  # scenarios not run, after too many things that did not happen in time

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ building
    def build(self):
        env = dict(os.environ)
        env.update(
            RUSTUP_TOOLCHAIN="stable",
            CARGO_NET_OFFLINE="true",
            CARGO_TERM_COLOR="never",
            RUSTC_WRAPPER="",
            CARGO_TARGET_DIR=os.path.join(HARNESS, "target"),
        )
        env.pop("RUSTFLAGS", None)
        lock = os.path.join(HARNESS, "Cargo.lock")
        before = open(lock, "rb").read()
        # cargo goes by the times of files: a tree put in place of another one may look older than what was built from that
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk("/repo/src")):
            for f in sorted(fs):
                h.update(os.path.join(d, f).encode() + b"\0" + open(os.path.join(d, f), "rb").read())
        for f in ("/repo/Cargo.toml", "/repo/Cargo.lock"):
            if os.path.exists(f):
                h.update(open(f, "rb").read())
        mark = os.path.join(HARNESS, "target", "built-from")
        if os.path.isdir(os.path.dirname(mark)) and not (os.path.exists(mark) and open(mark).read() == h.hexdigest()):
            subprocess.run(["cargo", "clean", "--offline", "-p", "obsidian"], cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            r = subprocess.run(
                ["cargo", "build", "--offline", "--bin", "executor"],
                cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            )
            if r.returncode != 0:
                raise ToolError("the executor does not build:\n" + r.stdout[-4000:])
            if self.searcher:
                r = subprocess.run(
                    ["cargo", "build", "--offline", "--bin", "searcher"],
                    cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                )
                self.searcher = r.returncode == 0
            open(mark, "w").write(h.hexdigest())
        finally:
            if open(lock, "rb").read() != before:
                open(lock, "wb").write(before)

    # ------------------------------------------------------------ executing
    def execute(self, scenarios, binary="executor", cwd=None, width=8, timeout=300):
        """Runs scenarios; returns {id: result}."""
        out, started, why = self._execute(scenarios, binary, cwd, width, timeout)
        if why is None:
            for sid in [k for k, v in out.items() if v.get("abandoned")]:
                self.abandoned.add(sid)
            return out
        # Which scenario takes the executor down? Those begun but not ended, each alone.
        for sc in [sc for sc in scenarios if sc["id"] in started and sc["id"] not in out][:12]:
            for _ in range(2):
                _, _, w = self._execute([sc], binary, cwd, 1, 30)
                if w is None:
                    break
            else:
                raise Crashed(self, sc, w)
        if why == MISSING:
            # the executor ended well without some results: those once more
            again, _, w = self._execute([sc for sc in scenarios if sc["id"] not in out], binary, cwd, width, timeout)
            if w is None:
                out.update(again)
                for sid in [k for k, v in out.items() if v.get("abandoned")]:
                    self.abandoned.add(sid)
                return out
        if self.died in FATAL:
            # no single scenario does it alone: do they, together, once more?
            _, again, w = self._execute(scenarios, binary, cwd, width, timeout)
            if w is not None and self.died in FATAL:
                raise Crashed(self, [sc for sc in scenarios if sc["id"] in again | started], w)
        raise ToolError(why)

    def _execute(self, scenarios, binary, cwd, width, timeout):
        self._n = getattr(self, "_n", 0) + 1
        src = os.path.join(self.work, "in%d.json" % self._n)
        dst = os.path.join(self.work, "out%d.ndjson" % self._n)
        with open(src, "w") as f:
            json.dump(scenarios, f)
        exe = os.path.join(HARNESS, "target", "debug", binary)
        env = dict(os.environ, RUST_BACKTRACE="0")
        why = None
        self.died = 0
        try:
            r = subprocess.run(
                [exe, src, dst, str(width)],
                cwd=cwd or self.work, env=env, stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout,
            )
            self.died = r.returncode
            if r.returncode != 0:
                why = "the executor failed (%d): %s" % (r.returncode, r.stderr[-2000:].decode("utf8", "replace"))
        except subprocess.TimeoutExpired:
            why = "the executor did not finish in %d s" % timeout
        out = {}
        started = set()
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    try:
                        v = json.loads(line)
                    except ValueError:
                        continue
                    if "id" in v:
                        out[v["id"]] = v
                    else:
                        started.add(v["started"])
        if why is None and any(sc["id"] not in out for sc in scenarios):
            why = MISSING
        return out, started, why

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="2g"):
        self._t = getattr(self, "_t", 0) + 1
        meta = os.path.join(self.work, "tlc%d" % self._t)
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e["VERIF_TIER"] = self.tier
        e["PROP"] = self.prop
        e.update(env or {})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-workers", str(workers),
               "-metadir", meta, "-config", cfg, *extra, module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not finish in %d s" % (cfg, timeout))
        text = r.stdout.decode("utf8", "replace")
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, text, gen, dist

    def model(self, module, cfg, workers=4, timeout=800, extra=()):
        """Exhaustively checks a model of the design; anything but success is an error of ours."""
        code, text, gen, dist = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, heap="4g")
        if code != 0 or "No error has been found" not in text:
            raise ToolError("model %s is broken:\n%s" % (cfg, tail(text)))
        self.states += dist
        self.transitions += gen
        self.coverage.setdefault("models", []).append(
            {"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen})
        return text

    def generate(self, module, cfg, timeout=300, extra=(), env=None):
        """Runs a generator model; returns the JSON records it prints (lines starting with GEN)."""
        code, text, gen, dist = self.tlc(module, cfg, workers=1, timeout=timeout, extra=extra, env=env, heap="4g")
        if code != 0:
            raise ToolError("generator %s is broken:\n%s" % (cfg, tail(text)))
        out = []
        for line in text.splitlines():
            m = re.match(r'^<<"GEN", (".*")>>$', line)
            if m:
                out.append(json.loads(json.loads(m.group(1))))
        self.states += dist
        self.transitions += gen
        self.coverage.setdefault("generators", []).append(
            {"module": module, "config": cfg, "distinct_states": dist, "behaviours": len(out)})
        return out

    # ------------------------------------------------------------ trace validation
    def validate(self, module, blocks, describe, cfg=None, env=None, parts=None, max_violations=5, timeout=600):
        """blocks: list of (key, [trace lines]). Every block starts with a line that resets the
        specification's state. The blocks are spread over several TLC runs. A run stops at the
        first line the specification does not allow; that block is reported and the rest of the
        part is validated again without it. describe(key, line index, line) -> replay content."""
        cfg = cfg or module.replace(".tla", ".cfg")
        blocks = [b for b in blocks if b[1] and not self.skip(b[0])]
        if not blocks:
            return 0
        total = sum(len(b[1]) for b in blocks)
        parts = parts or min(CPUS, max(1, total // 400))
        groups = [[] for _ in range(parts)]
        sizes = [0] * parts
        for b in blocks:
            k = sizes.index(min(sizes))
            groups[k].append(b)
            sizes[k] += len(b[1]) + 1
        groups = [g for g in groups if g]

        def work(item):
            idx, grp = item
            grp = list(grp)
            bad = []
            states = trans = ok = 0
            rounds = 0
            while grp:
                rounds += 1
                path = os.path.join(self.work, "trace-%s-%d-%d.ndjson" % (module[:-4], id(grp), idx))
                with open(path, "w") as f:
                    for _, lines in grp:
                        for l in lines:
                            f.write(json.dumps(l, ensure_ascii=True, separators=(",", ":")) + "\n")
                e = {"TRACE": path}
                e.update(env or {})
                code, text, gen, dist = self.tlc(module, cfg, env=e, timeout=timeout)
                m = re.search(r'<<"TRACE", (\d+), (\d+)>>', text)
                if not m:
                    raise ToolError("trace validation with %s failed:\n%s" % (module, tail(text)))
                done, want = int(m.group(1)), int(m.group(2))
                n = sum(len(l) for _, l in grp)
                if want != n:
                    raise ToolError("trace length mismatch")
                states += dist
                trans += gen
                os.unlink(path)
                if done == want:
                    if code != 0:
                        raise ToolError("trace validation with %s failed:\n%s" % (module, tail(text)))
                    ok += len(grp)
                    break
                at = 0
                for j, (key, lines) in enumerate(grp):
                    if done < at + len(lines):
                        bad.append((key, done - at, lines[done - at], lines))
                        ok += j
                        grp = grp[j + 1:]
                        break
                    at += len(lines)
                if rounds >= max_violations:
                    break
            return bad, states, trans, ok

        bad = []
        for b, s, t, ok in self.pool.map(work, list(enumerate(groups))):
            bad += b
            self.states += s
            self.transitions += t
            self.traces += ok
        for key, k, line, lines in bad[:max_violations]:
            self.violation(describe(key, k, line, lines))
        return len(bad)

    def skip(self, key):
        keys = key if isinstance(key, tuple) else (key,)
        return any(isinstance(k, str) and k in self.abandoned for k in keys)

    # ------------------------------------------------------------ reporting
    def violation(self, content):
        n = len(self.violations) + 1
        path = os.path.join(self.replays, "%s-%d.json" % (self.prop, n))
        content = dict(content)
        content.setdefault("property", self.prop)
        with open(path, "w") as f:
            json.dump(content, f, indent=1)
        self.violations.append(path)

    def crashed(self, e):
        self.violation({"scenario": e.scenario, "note": "running this scenario takes the process down: " + e.why})
        return self.finish()

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def finish(self, level="model_checking", assumptions=()):
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": dict(
                self.coverage,
                states=self.states,
                transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                samples=self.samples,
            ),
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        if not self.violations and self.abandoned:
            raise ToolError("%d scenarios were abandoned" % len(self.abandoned))
        if not self.violations:
            print("ok %s: %d states, %d traces validated, %.1f s"
                  % (self.prop, self.states, self.traces, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def known_findings(prop):
    """Lines 'KNOWN property=<id> <key> : <text>' of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out
