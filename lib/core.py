"""Machinery shared by all checks: builds the harness from /repo, runs TLC, replays cases in the
real code, compares, and writes the evidence."""
import concurrent.futures
import fcntl
import glob
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = 8


class ToolError(Exception):
    """The check itself did not work (never a verdict on the code)."""


class Violation(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def shortened(s, most=40):
    """For the evidence: what is long is cut, and says so"""
    if isinstance(s, str):
        return s if len(s) <= 1000 else s[:1000] + f"... ({len(s)} characters)"
    if isinstance(s, dict):
        return {k: shortened(v, most) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        more = [f"... ({len(s)} in all)"] if len(s) > most else []
        return [shortened(x, max(6, most // 2)) for x in s[:most]] + more
    return s


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = 0
        self.transitions = 0
        self.validated = 0  # behaviours of the spec replayed in, or recorded from, the real code
        self.events = 0
        self.samples = []
        self.models = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(pid)
        self.hook = None
        self.harness = None
        self.export_bin = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building ----

    def build(self):
        self.harness, self.hook = build_harness()
        return self.harness

    # ---- verdicts ----

    def fail(self, what, case=None, expected=None, observed=None, key=None):
        """The property does not hold for this case. `key` identifies it against the known findings."""
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, 0)
            self.known_hit[key] += 1
            return
        if len(self.violations) < 20:
            self.violations.append(
                {"property": self.pid, "what": what, "case": case, "expected": expected, "observed": observed}
            )
        else:
            self.violations.append(None)

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(shortened(s))

    def finish(self):
        for key in sorted(self.known):
            # A listed finding is reported whenever it was exercised by this run
            if key in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {self.known[key]}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples[:5],
            "events_compared": self.events,
            "models": self.models,
        }
        cov.update(self.notes)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        code = 0
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, v in enumerate([v for v in self.violations if v][:5]):
                rp = os.path.join(VERIF, "replays", f"{self.pid}-{i}.json")
                with open(rp, "w") as f:
                    json.dump(v, f, indent=1)
                if i == 0:
                    print(f"VIOLATION property={self.pid} replay={rp}")
                log(f"  violation {i}: {v['what']}")
            print(f"{self.pid}: {len(self.violations)} violations", flush=True)
            code = 1
        else:
            print(
                f"{self.pid}: held. {self.states} model states, {self.validated} behaviours and "
                f"{self.events} observations compared with the real code, {ev['wall_s']} s",
                flush=True,
            )
        return code

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- TLC ----

    def tlc(self, module, cfg=None, consts=None, env=None, workers=None, timeout=700, xmx="6g", simulate=None,
            trace=False):
        """Model-check spec/<module>.tla. Returns the records emitted by PrintT(ToJson(..)).

        A property violated in the model is an error of the model: ToolError. With trace=True the
        result is (accepted, records, number of events matched)."""
        r = run_tlc(self.scratch, module, cfg or module, consts, env, workers, timeout, xmx, simulate)
        if os.environ.get('VERIF_LOG'):
            log(f'{time.time() - self.t0:.1f} s: {cfg or module}: {r["distinct"]} states, {len(r["records"])} records, {r["wall"]} s')
        name = cfg or module
        if trace:
            self.models.append({"trace_spec": name, "states": r["distinct"], "accepted": r["ok"]})
            if not r["ok"] and not r["post_failed"]:
                raise ToolError(f"TLC {name}:\n" + r["tail"])
            self.states += r["distinct"]
            self.transitions += r["generated"]
            return r["ok"], r["records"], r["depth"]
        if not r["ok"]:
            raise ToolError(f"TLC {name}:\n" + r["tail"])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append(
            {"model": name, "states": r["distinct"], "transitions": r["generated"], "emitted": len(r["records"]),
             "wall_s": r["wall"]}
        )
        if not simulate and r["distinct"] < 2 and not r["records"]:
            raise ToolError(f"TLC {name}: vacuous model")
        return r["records"]

    # ---- replay ----

    def run_cases(self, cases, timeout=30):
        return run_cases(self.harness, cases, self.scratch, timeout)


def load_known(pid):
    """known_findings.txt: `known: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


# ---------------------------------------------------------------- building


def cargo_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC"):
        env.pop(k, None)
    home = env["HOME"]
    env["PATH"] = env.get("PATH", "") + f":{home}/.cargo/bin:/root/.cargo/bin"
    return env


def forget(target):
    # cargo judges by modification time: make it recompile osmio and the harness as they are now
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "osmio*")):
        shutil.rmtree(d, ignore_errors=True)


def build_harness():
    target = os.path.join(HARNESS, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        logs = []
        for hook in (True, False):
            forget(target)
            env = cargo_env()
            env["CARGO_TARGET_DIR"] = target
            if hook:
                env["RUSTFLAGS"] = "--cfg osmio_verif"
            r = subprocess.run(
                ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")],
                env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            )
            if r.returncode == 0:
                # a copy of our own: another check may rebuild while this one runs
                src = os.path.join(target, "debug", "osmio-harness")
                dst = os.path.join(target, f"osmio-harness-{os.getpid()}")
                shutil.copy2(src, dst)
                import atexit

                atexit.register(lambda: os.path.exists(dst) and os.unlink(dst))
                return dst, hook
            logs.append(r.stdout[-3000:])
        raise ToolError("cannot build the harness:\n" + "\n".join(logs))


def build_tools(*names):
    """Binaries, from /repo (P22, P26)."""
    target = os.path.join(HARNESS, "target-export")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        forget(target)
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = target
        env["CARGO_PROFILE_DEV_DEBUG"] = "false"
        manifest = "/repo/Cargo.toml"
        had_lock = os.path.exists("/repo/Cargo.lock")
        if not had_lock:
            shutil.copy("/opt/vp/Cargo.lock.saved", "/repo/Cargo.lock")
        r = subprocess.run(
            ["cargo", "build", "--offline", "--manifest-path", manifest, "--features", "with-changeset-sqlite"]
            + [x for n in names for x in ("--bin", n)],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
        if r.returncode != 0:
            raise ToolError(f"cannot build {names}:\n" + r.stdout[-3000:])
        import atexit

        out = []
        for n in names:
            dst = os.path.join(target, f"{n}-{os.getpid()}")
            shutil.copy2(os.path.join(target, "debug", n), dst)
            atexit.register(lambda d=dst: os.path.exists(d) and os.unlink(d))
            out.append(dst)
        return out


# ---------------------------------------------------------------- TLC


def run_tlc(scratch, module, cfg, consts, env, workers, timeout, xmx, simulate):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cfg_path = os.path.join(SPEC, cfg + ".cfg")
    if consts:
        # constants of this run, appended to the committed configuration
        text = open(cfg_path).read() + "\n" + "\n".join(f"CONSTANT {k} = {v}" for k, v in consts.items()) + "\n"
        cfg_path = os.path.join(meta, cfg + "_run.cfg")
        open(cfg_path, "w").write(text)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{xmx}", "-Xss64m", "-cp", TLA_JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers or JOBS), "-config", cfg_path]
    if simulate:
        cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(simulate[2])]
    cover = os.environ.get("VERIF_COVER")  # a directory: tools/coverage.py
    if cover:
        cmd += ["-coverage", "600"]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    t = time.time()
    out_path = os.path.join(meta, "tlc.out")
    with open(out_path, "w") as out:
        try:
            r = subprocess.run(cmd, env=e, stdout=out, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {cfg}: timeout after {timeout} s")
    records, tail = [], []
    gen = dist = depth = 0
    post = False
    with open(out_path) as f:
        for line in f:
            if line.startswith('"{') or line.startswith('"['):
                try:
                    records.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            m = re.search(r"The number of states generated: (\d+)", line)
            if m:
                gen = dist = int(m.group(1))
            m = re.search(r"depth of the complete state graph search is (\d+)", line)
            if m:
                depth = int(m.group(1))
            if "POSTCONDITION" in line or "ostcondition" in line:
                post = True
            tail.append(line)
            if len(tail) > 160:
                tail.pop(0)
    if cover and rc == 0:
        shutil.copy(out_path, os.path.join(cover, f"{cfg}-{os.path.basename(meta)}.out"))
    shutil.rmtree(meta, ignore_errors=True)
    return {"ok": rc == 0, "rc": rc, "records": records, "generated": gen, "distinct": dist, "depth": depth,
            "post_failed": post and rc != 0, "tail": "".join(tail), "wall": round(time.time() - t, 2)}


# ---------------------------------------------------------------- replay


def _limits():
    # A decoder that allocates what damaged data tells it to must not take the sandbox down
    gb = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_part(harness, part, indices, scratch, timeout, results, n):
    d = tempfile.mkdtemp(prefix=f"part{n}-", dir=scratch)
    cf, of = os.path.join(d, "cases"), os.path.join(d, "out")
    with open(cf, "w") as f:
        for c in part:
            f.write(json.dumps(c, separators=(",", ":")))
            f.write("\n")
    first, restarts, done_upto = 0, 0, 0
    env = dict(os.environ)
    env["CASE_TIMEOUT"] = str(timeout)
    while first < len(part):
        open(of, "w").close()
        p = subprocess.run([harness, cf, of, d, str(first)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           preexec_fn=_limits, timeout=850)
        last = first - 1
        with open(of) as f:
            for line in f:
                try:
                    o = json.loads(line)
                except ValueError:
                    break
                results[indices[o["i"]]] = o["r"]
                last = o["i"]
        if p.returncode == 0 and last == len(part) - 1:
            break
        if p.returncode == 3:
            # the last reported case hung
            first = last + 1
        else:
            # the case after the last reported one took the process down
            if last + 1 < len(part):
                results[indices[last + 1]] = {
                    "crash": p.returncode,
                    "stderr": p.stderr.decode("utf-8", "replace")[-300:],
                }
            first = last + 2
        restarts += 1
        if restarts > 3:
            for i in range(first, len(part)):
                results[indices[i]] = {"not_run": "too many hangs or crashes"}
            break
    shutil.rmtree(d, ignore_errors=True)


def run_cases(harness, cases, scratch, timeout=30):
    results = [None] * len(cases)
    jobs = min(JOBS, max(1, len(cases) // 4))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = []
        for j in range(jobs):
            idx = list(range(j, len(cases), jobs))
            futs.append(ex.submit(_run_part, harness, [cases[i] for i in idx], idx, scratch, timeout, results, j))
        for f in futs:
            f.result()
    for c, r in zip(cases, results):
        if r is None:
            raise ToolError("a case has no result")
        if isinstance(r, dict) and "harness_error" in r:
            raise ToolError(f"harness: {r['harness_error']} in {json.dumps(c)[:400]}")
    return results


def bad_run(r):
    """Text if the case did not even complete (hang, crash), else None."""
    if isinstance(r, dict):
        if r.get("hang"):
            return "the call does not return"
        if "crash" in r:
            return f"the process died (status {r['crash']})"
        if "not_run" in r:
            return r["not_run"]
    return None
