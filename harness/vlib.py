"""
Common machinery: running TLC, judging recorded events with it, evidence.

The implementation is only driven and projected here; every verdict on an
event is computed by TLC from a specification in /verif/spec.
"""
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import hashlib
import multiprocessing
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """Machinery failed, neither pass nor violation."""


class CallTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CallTimeout()


class limit:
    """Time limit for one call of the implementation."""

    def __init__(self, secs=10):
        self.secs = secs

    def __enter__(self):
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def outcome(fn, kinds=(), secs=10):
    """
    (value, None) or (None, kind): kind is the name given to the exception
    class in kinds, else the name of its type.
    """
    try:
        with limit(secs):
            return fn(), None
    except CallTimeout:
        return None, "Timeout"
    except BaseException as e:  # whatever the implementation raises is an outcome
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        for cls, name in kinds:
            if isinstance(e, cls):
                return None, name
        return None, type(e).__name__


CTX = None  # the running check


class Ctx:
    def __init__(self, pid, tier, seed):
        global CTX
        CTX = self
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{pid}-{seed}")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.violations = []  # (clauses, event, note)
        self.known_hits = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.mc = []
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.notes = []
        self.known = load_known(pid)

    def path(self, name):
        return os.path.join(self.work, name)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---- TLC -------------------------------------------------------------
    def _tlc(self, module, cfg, env=None, args=(), timeout=800, workers="1", xmx="3g", xss="16m"):
        md = tempfile.mkdtemp(prefix="md", dir=self.work)
        gc = "-XX:+UseParallelGC" if workers != "1" else "-XX:+UseSerialGC"
        cmd = ["java", f"-Xmx{xmx}", f"-Xss{xss}", gc, "-cp", JAVA_CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers),
               "-config", os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module)]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=self.work, env=e, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
        except subprocess.TimeoutExpired as ex:
            raise CheckError(f"TLC timeout {module} {cfg}") from ex
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return p.returncode, p.stdout

    def model_check(self, module, cfg, env=None, timeout=800, workers=NCPU, xmx="6g", expect_violation=None):
        """
        Exhaustive check of a design configuration.  With expect_violation the
        named invariant must fail (shows that the property is not vacuous).
        """
        t = time.time()
        rc, out = self._tlc(module, cfg, env, timeout=timeout, workers=str(workers), xmx=xmx)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if expect_violation:
            if not re.search(r"Invariant %s is violated|property %s is violated|Temporal properties were violated" % (expect_violation, expect_violation), out):
                raise CheckError(f"expected violation of {expect_violation} not found\n{out[-3000:]}")
            self.mc.append(dict(module=module, config=cfg, mutant_caught=expect_violation))
            return out
        if rc != 0 or "No error has been found" not in out or not m:
            raise CheckError(f"design check {module} {cfg} rc={rc}\n{out[-4000:]}")
        gen, dist = int(m[-1][0]), int(m[-1][1])
        self.states += dist
        self.transitions += gen
        self.mc.append(dict(module=module, config=cfg, distinct_states=dist, states_generated=gen,
                            wall_s=round(time.time() - t, 1), **({"env": env} if env else {})))
        return out

    def generate(self, module, cfg, num=100, depth=200, env=None, timeout=600, exhaustive=False, shards=1):
        """Behaviours of a specification, printed by it as @@GEN json."""
        def one(i):
            if exhaustive:
                args = []
            else:
                args = ["-simulate", f"num={num // shards}", "-depth", str(depth), "-seed", str(self.seed * 1000 + i + 1)]
            rc, out = self._tlc(module, cfg, env, args=args, timeout=timeout,
                                workers="1" if not exhaustive else str(NCPU), xss="64m")
            if rc != 0:
                raise CheckError(f"generation {module} {cfg} rc={rc}\n{out[-4000:]}")
            res = []
            for line in out.splitlines():
                if line.startswith('"@@GEN '):
                    res.append(json.loads(json.loads(line)[6:]))
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            if exhaustive and m:
                self.states += int(m[-1][1])
                self.transitions += int(m[-1][0])
            ms = re.findall(r"(?:The number of states generated|Progress): ([\d,]+)", out)
            if not exhaustive and ms:
                self.states += int(ms[-1].replace(",", ""))
                self.transitions += int(ms[-1].replace(",", ""))
            return res
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            parts = list(ex.map(one, range(1 if exhaustive else shards)))
        seen, res = set(), []
        for p in parts:
            for g in p:
                k = json.dumps(g, sort_keys=True)
                if k not in seen:
                    seen.add(k)
                    res.append(g)
        res.sort(key=lambda g: json.dumps(g, sort_keys=True))
        if not res:
            raise CheckError(f"generation {module} {cfg} gave nothing")
        self.mc.append(dict(module=module, config=cfg, behaviours_generated=len(res),
                            mode="exhaustive" if exhaustive else "simulate"))
        return res

    def judge(self, module, events, cfg="Trace.cfg", env=None, shards=None, timeout=800, groups=None, xss="64m"):
        """
        Let TLC judge events (a list of json objects).  groups: with stateful
        traces, list of lists that must stay together; events is then ignored.
        Every event must have been judged, else CheckError.
        """
        if groups is None:
            groups = [[e] for e in events]
        if not groups:
            raise CheckError(f"no events for {module}")
        n = shards or max(1, min(NCPU, sum(len(g) for g in groups) // 40 + 1))
        weight = [0] * n
        parts = [[] for _ in range(n)]
        sized = sorted(range(len(groups)), key=lambda i: -sum(len(json.dumps(e)) for e in groups[i]))
        for i in sized:
            k = weight.index(min(weight))
            weight[k] += sum(len(json.dumps(e)) for e in groups[i]) + 50
            parts[k].append(i)
        parts = [sorted(p) for p in parts if p]

        def one(k):
            evs = [e for i in parts[k] for e in groups[i]]
            fn = self.path(f"trace-{module}-{k}-{time.time_ns()}.ndjson")
            with open(fn, "w") as f:
                for e in evs:
                    f.write(json.dumps({a: b for a, b in e.items() if not a.startswith("_")}) + "\n")
            ev = {"TRACE": fn}
            ev.update(env or {})
            rc, out = self._tlc(module, cfg, ev, timeout=timeout, workers="1", xmx="3g", xss=xss)
            done = re.findall(r'"@@DONE (\d+)', out)
            bad = []
            if rc != 0 or not done or int(done[-1]) != len(evs):
                at = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
                if at and re.search(r"evaluat|Attempted|was not|TLC threw", out) \
                        and not re.search(r"OutOfMemory|StackOverflow|heap space", out):
                    # an outcome outside of what the specification can even evaluate
                    x = evs[int(at[-1]) - 1]
                    why = " ".join(re.findall(r"^(?:Error: )?(Attempted.*|.*was not.*|The .* operator .*)$", out, re.M)[:2])
                    return [(x, ["outcome not in the domain of the specification"], why or out[-800:])], 0, 0
                raise CheckError(f"trace check {module} rc={rc} done={done} of {len(evs)}\n{out[-5000:]}")
            os.unlink(fn)
            m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
            for line in out.splitlines():
                mm = re.match(r'"@@BAD (\d+) (.*)"$', line)
                if mm:
                    cl = sorted(set(re.findall(r'\\?"(.*?)\\?"', mm.group(2)))) or [mm.group(2)]
                    bad.append((evs[int(mm.group(1)) - 1], cl, ""))
            return bad, int(m[-1][1]) if m else 0, int(m[-1][0]) if m else 0
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            res = list(ex.map(one, range(len(parts))))
        for bad, st, tr in res:
            self.states += st
            self.transitions += tr
            for e, cl, note in bad:
                self.violation(cl, e, note)
        self.traces += len(groups)
        self.events += sum(len(g) for g in groups)
        if len(self.samples) < 6:
            for g in groups[:: max(1, len(groups) // 3)][:3]:
                self.samples.append(shorten(g[0] if len(g) == 1 else g))
        for g in groups:
            for e in g:
                k = f"{module[:-4]}:{e.get('op', '')}"
                self.counts[k] = self.counts.get(k, 0) + 1

    # ---- verdicts ----------------------------------------------------------
    def violation(self, clauses, event, note=""):
        rest = []
        for c in clauses:
            if c in self.known:
                self.known_hits[c] = self.known_hits.get(c, 0) + 1
            else:
                rest.append(c)
        if rest:
            self.violations.append((rest, event, note))

    def finish(self):
        wall = time.time() - self.t0
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_judged=self.events, events_by_kind=self.counts,
                                model_checking_runs=self.mc, samples=self.samples or ["none"],
                                notes=self.notes),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, what in self.known.items():
            print(f"KNOWN-FINDING: property={self.pid} {key} {what}"
                  + (f" (seen {self.known_hits[key]} times)" if key in self.known_hits else ""))
        rdir = os.path.join(VERIF, "evidence", "replays")
        if self.violations:
            os.makedirs(rdir, exist_ok=True)
            shown = set()
            for cl, e, note in self.violations:
                key = tuple(cl)
                if key in shown:
                    continue
                shown.add(key)
                if len(shown) > 8:
                    break
                body = json.dumps(dict(property=self.pid, clauses=cl, event=e, note=note,
                                       seed=self.seed, tier=self.tier), indent=1, default=str)
                fn = os.path.join(rdir, f"{self.pid}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json")
                with open(fn, "w") as f:
                    f.write(body)
                print(f"VIOLATION property={self.pid} replay={fn}")
                print(f"   clauses: {'; '.join(cl)}  {note}")
                print(f"   event: {json.dumps(shorten(e), default=str)[:1500]}")
            print(f"{len(self.violations)} violating events in all")
            return 1
        print(f"OK property={self.pid} tier={self.tier} seed={self.seed} states={self.states} "
              f"traces={self.traces} events={self.events} wall={wall:.1f}s")
        return 0


def shorten(x, n=40):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        y = [shorten(v, n) for v in x[:n]]
        if len(x) > n:
            y.append(f"... {len(x)} in all")
        return y
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + "..."
    return x


def load_known(pid):
    known = {}
    with open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8") as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
    return known


def _child(fn, arg, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        q.put(("ok", fn(arg)))
    except BaseException:
        q.put(("err", traceback.format_exc()))


def pmap(fn, args, timeout=700):
    """Run fn over args in forked processes, at most NCPU at a time."""
    args = list(args)
    res = [None] * len(args)
    mpc = multiprocessing.get_context("fork")
    running = {}
    nxt = 0
    t0 = time.time()
    while nxt < len(args) or running:
        while nxt < len(args) and len(running) < NCPU:
            q = mpc.SimpleQueue()
            p = mpc.Process(target=_child, args=(fn, args[nxt], q))
            p.start()
            running[nxt] = (p, q)
            nxt += 1
        for i, (p, q) in list(running.items()):
            if not q.empty():
                st, v = q.get()
                p.join()
                del running[i]
                if st == "err":
                    raise CheckError(f"driver failed:\n{v}")
                res[i] = v
            elif not p.is_alive():
                if q.empty():
                    del running[i]
                    raise CheckError(f"driver process died, exit code {p.exitcode}")
        if time.time() - t0 > timeout:
            for p, q in running.values():
                p.kill()
            raise CheckError("driver timeout")
        time.sleep(0.005)
    return res


def split(seq, n):
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]


def drive(fn, cases, timeout=700):
    """
    fn(case) -> event or list of events, in parallel; order of cases kept.
    A case whose outcome cannot even be recorded is a violation by itself.
    """
    cases = list(cases)
    n = min(NCPU, max(1, len(cases) // 20))

    def one(c):
        try:
            return ("ok", fn(c))
        except CheckError:
            raise
        except Exception:
            return ("fail", traceback.format_exc())

    def run(k):
        return [one(c) for c in cases[k::n]]
    parts = pmap(run, range(n), timeout=timeout)
    out = [None] * len(cases)
    for k in range(n):
        out[k::n] = parts[k]
    res = []
    for c, (st, v) in zip(cases, out):
        if st == "ok":
            res.append(v)
        else:
            CTX.violation(["outcome cannot be recorded"], dict(case=repr(c)[:3000]), v)
    return res
