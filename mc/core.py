"""Stateless, deviation-bounded explorer and check runner.

A *harness* is a function ``run(ch, job)`` that drives the real eth_abi code and asks
``ch.pick(domain)`` whenever something in its environment is not fixed (a value, a word of a
payload, the next operation, the thread to run ...).  Answer 0 is the default answer; any
other answer is a deviation (unless the point is ``free``).  ``explore`` enumerates *every*
answer sequence with at most ``bound`` deviations, executing the real code for each one, and
the harness compares each execution with a reference model.  A violation is recorded with
the answer sequence, which replays it.
"""
import hashlib
import json
import multiprocessing
import os
import pickle
import queue as queue_mod
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
EXEC_TIMEOUT = 60.0


class Violation(Exception):
    """The real code broke the property on this execution."""

    def __init__(self, msg, repro=None):
        super().__init__(msg)
        self.repro = repro


class Divergence(Exception):
    """A recorded prefix could not be replayed: an error of the harness."""


class ExecTimeout(BaseException):
    pass


class Chooser:
    __slots__ = ("prefix", "choices", "points", "ops", "_replay")

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.choices = []
        self.points = []
        self.ops = 0

    def pick(self, domain, free=False):
        n = len(domain)
        i = len(self.choices)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= n:
            raise Divergence(f"choice {idx} of {n} at point {i}")
        self.choices.append(idx)
        self.points.append((n, free))
        return domain[idx]

    def index(self, n, free=False):
        return self.pick(range(n), free)

    def op(self, n=1):
        """Count operations executed on the real code."""
        self.ops += n


class Stats:
    FIELDS = ("executions", "states", "transitions")

    def __init__(self):
        self.executions = 0
        self.states = 0
        self.transitions = 0
        self.outcomes = {}
        self.samples = []
        self.findings = {}
        self.violation = None
        self.error = None
        self.capped = 0
        self.extra = {}

    def merge(self, o):
        self.executions += o.executions
        self.states += o.states
        self.transitions += o.transitions
        self.capped += o.capped
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.findings.items():
            if k not in self.findings:
                self.findings[k] = [0, v[1]]
            self.findings[k][0] += v[0]
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples += o.samples[: 6 - len(self.samples)]


_current = None  # Stats of the running job, for note()/known()


def note(outcome):
    """Record an outcome class of the current execution."""
    o = _current.outcomes
    o[outcome] = o.get(outcome, 0) + 1


def extra(name, n=1):
    _current.extra[name] = _current.extra.get(name, 0) + n


def known(key, detail):
    """A violation that matches an entry of the committed known-findings file."""
    f = _current.findings.setdefault(key, [0, detail])
    f[0] += 1


_known_keys = None


def known_findings():
    """finding key -> (property, text), from the committed file."""
    global _known_keys
    if _known_keys is None:
        _known_keys = {}
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: "):
                    head, _, text = line[len("finding: ") :].partition(" :: ")
                    kv = dict(x.split("=", 1) for x in head.split())
                    _known_keys[kv["key"]] = (kv["property"], text)
    return _known_keys


def is_known(key):
    return key in known_findings()


def _alarm(signum, frame):
    raise ExecTimeout()


def _from_repo(tb):
    root = os.path.join(REPO, "eth_abi") + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(tb))


def explore(run, job, bound, stats=None, cap=None):
    """Enumerate all executions of run(ch, job) with at most `bound` deviations."""
    global _current
    st = stats or Stats()
    _current = st
    stack = [((), 0)]
    while stack:
        prefix, cost = stack.pop()
        if cap is not None and st.executions >= cap:
            st.capped += 1
            break
        ch = Chooser(prefix)
        signal.setitimer(signal.ITIMER_REAL, EXEC_TIMEOUT)
        try:
            sample = run(ch, job)
        except Violation as v:
            st.violation = (list(ch.choices), str(v), v.repro)
        except ExecTimeout:
            st.violation = (list(ch.choices), f"call did not finish in {EXEC_TIMEOUT} s", None)
        except Divergence:
            if not getattr(run, "tolerant", False):
                raise
            # the code ran differently under the same answers (a cache filled meanwhile):
            # the execution was judged as far as it went, its successors are not explored
            st.extra["diverged"] = st.extra.get("diverged", 0) + 1
            st.executions += 1
            continue
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            # on the unchanged tree no execution gets here: the library did something that
            # the harness does not expect from it
            st.violation = (
                list(ch.choices),
                ("unexpected exception out of the library: " if _from_repo(e.__traceback__)
                 else "unexpected exception: ")
                + "".join(traceback.format_exception_only(type(e), e)).strip()[:500]
                + "\n"
                + "".join(traceback.format_tb(e.__traceback__))[-1500:],
                None,
            )
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        st.executions += 1
        st.transitions += max(ch.ops, 1)
        st.states += len(ch.points) - len(prefix) + 1
        if st.violation:
            return st
        if len(ch.choices) < len(prefix):
            if getattr(run, "tolerant", False):
                st.extra["diverged"] = st.extra.get("diverged", 0) + 1
                continue
            raise Divergence("prefix longer than execution")
        if sample is not None and len(st.samples) < 3:
            st.samples.append(sample)
        # alternatives at the points after the prefix; reversed: simplest first
        for i in range(len(ch.points) - 1, len(prefix) - 1, -1):
            n, free = ch.points[i]
            c = cost + (0 if free else 1)
            if c > bound:
                continue
            base = tuple(ch.choices[:i])
            for alt in range(n - 1, 0, -1):
                stack.append((base + (alt,), c))
    return st


# ------------------------------------------------------------------ parallel driver
_work = {}
MEM_LIMIT = 3 << 30
JOB_LIMIT = float(os.environ.get("VERIF_JOB_LIMIT", "400"))  # s; jobs are small, so one this old hangs


def _init(mem=MEM_LIMIT):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


PIN = False  # one processor per worker: switching between its threads is then much cheaper


def _worker(wid, counter, beat, queue, first=None):
    _init()
    if PIN:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[wid % len(cpus)]})
    jobs = _work["jobs"]
    parent = os.getppid()
    while os.getppid() == parent:
        if first is not None:
            idx, first = first, None
        else:
            with counter.get_lock():
                idx = counter.value
                if idx >= len(jobs):
                    break
                counter.value = idx + 1
        beat[2 * wid] = idx
        beat[2 * wid + 1] = time.time()
        fam, job, bound, cap = jobs[idx]
        try:
            st = explore(_work["families"][fam], job, bound, cap=cap)
        except BaseException:
            st = Stats()
            st.error = traceback.format_exc()
        queue.put((idx, st))
        beat[2 * wid] = -1
    queue.put((None, wid))


def run_jobs(families, jobs):
    """jobs: list of (family, job, bound, cap).  Returns merged Stats and per-family stats."""
    _work["families"] = families
    _work["jobs"] = jobs
    total = Stats()
    per = {}
    best = None
    err = None
    ctx = multiprocessing.get_context("fork")
    nproc = min(NPROC, max(1, len(jobs)))
    counter = ctx.Value("l", 0)
    beat = ctx.Array("d", [-1.0] * (2 * nproc))
    queue = ctx.Queue()
    procs = [
        ctx.Process(target=_worker, args=(i, counter, beat, queue)) for i in range(nproc)
    ]
    sys.stdout.flush()
    sys.stderr.flush()
    for p in procs:
        p.start()
    done = 0
    finished = set()
    crashed = []
    last = time.time()
    try:
        while done < nproc:
            try:
                idx, st = queue.get(timeout=1.0)
            except queue_mod.Empty:
                dead = [
                    i
                    for i, p in enumerate(procs)
                    if p.exitcode is not None and i not in finished
                ]
                now = time.time()
                if dead and now - last > 5:
                    idx = int(beat[2 * dead[0]])
                    if procs[dead[0]].exitcode == -signal.SIGSEGV and crashed.count(idx) < 3:
                        # CPython's tracing of bytecodes can crash; the library has no native code.
                        # The job is run again from its start in a new process.
                        crashed.append(idx)
                        procs[dead[0]] = ctx.Process(target=_worker, args=(dead[0], counter, beat, queue, idx if idx >= 0 else None))
                        procs[dead[0]].start()
                        last = now
                        continue
                    msg = f"the process running the library died (exit code {procs[dead[0]].exitcode})"
                    best = (max(idx, 0), ([], msg, None))
                    break
                hung = [
                    int(beat[2 * i])
                    for i in range(nproc)
                    if beat[2 * i] >= 0 and now - beat[2 * i + 1] > JOB_LIMIT
                ]
                if hung:
                    best = (min(hung), ([], "a call into the library hangs", None))
                    break
                continue
            last = time.time()
            if idx is None:
                done += 1
                finished.add(st)
                continue
            if st.error:
                err = st.error
                break
            total.merge(st)
            fam = jobs[idx][0]
            per.setdefault(fam, Stats()).merge(st)
            if st.violation:
                best = (idx, st.violation)
                break
    finally:
        for p in procs:
            p.kill()
        for p in procs:
            p.join()
    if best is not None:
        total.violation = best
    elif err is not None:
        total.error = err
    return total, per


def forked(fn, tries=3):
    """Run fn() in a forked child and return its (picklable) result; a Violation raised in
    the child is raised here, a child that dies is a Violation.  For executions that must
    start from the same process state."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as v:
                out = ("violation", str(v), v.repro)
            except ExecTimeout:
                out = ("violation", "call did not finish in time", None)
            except BaseException as e:
                out = (
                    "violation",
                    "unexpected exception: "
                    + "".join(traceback.format_exception_only(type(e), e)).strip()[:500]
                    + "\n"
                    + "".join(traceback.format_tb(e.__traceback__))[-1500:],
                    None,
                )
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    status = os.waitpid(pid, 0)[1]
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGSEGV and tries:
            return forked(fn, tries - 1)  # see run_jobs
        raise Violation("the process running the library died")
    out = pickle.loads(data)
    if out[0] == "violation":
        raise Violation(out[1], out[2])
    return out[1]


def chunks(seq, n):
    seq = list(seq)
    return [seq[i : i + n] for i in range(0, len(seq), n)]


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def short(x, n=300):
    try:
        r = repr(x)
    except Exception:
        r = object.__repr__(x)
    return r if len(r) <= n else r[: n - 3] + "..."


# ------------------------------------------------------------------ check entry point
class Check:
    """One property: subclass-free description handed to main()."""

    def __init__(self, prop, families, jobs, assumptions, bounds, level="model_checking"):
        self.prop = prop
        self.families = families  # name -> run(ch, job)
        self.jobs = jobs  # f(tier) -> list of (family, job, bound, cap)
        self.assumptions = assumptions
        self.bounds = bounds  # f(tier) -> text
        self.level = level


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".tmp{os.getpid()}"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=repr)
        f.write("\n")
    os.replace(tmp, path)


def main(check, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in argv:
        return replay(check, argv[argv.index("--replay") + 1])
    t0 = time.time()
    jobs = check.jobs(tier)
    if not jobs:
        print("no jobs", file=sys.stderr)
        return 2
    total, per = run_jobs(check.families, jobs)
    wall = time.time() - t0
    if total.error:
        print(total.error, file=sys.stderr)
        print(f"{check.prop}: internal error of the check", file=sys.stderr)
        return 2
    cov = {
        "states": total.states,
        "transitions": total.transitions,
        "traces_validated_against_impl": total.executions,
        "distinct_outcomes": len(total.outcomes),
        "outcomes": dict(sorted(total.outcomes.items(), key=lambda kv: -kv[1])[:25]),
        "jobs": len(jobs),
        "per_family": {
            k: {"executions": v.executions, "states": v.states, "transitions": v.transitions}
            for k, v in sorted(per.items())
        },
        "bounds": check.bounds(tier),
        "counters": total.extra,
        "exhaustive": total.capped == 0 and total.violation is None,
        "capped_jobs": total.capped,
        "samples": total.samples,
        "validation": "every enumerated execution ran the real eth_abi code from /repo and was "
        "compared step by step with the reference model; there is no model-only state",
        "known_findings_observed": {k: v[0] for k, v in total.findings.items()},
    }
    ev = {
        "property": check.prop,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if total.violation else 0,
    }
    write_json(os.path.join(VERIF, "evidence", f"{check.prop}.json"), ev)
    for k, v in sorted(total.findings.items()):
        print(f"KNOWN-FINDING: property={check.prop} {known_findings()[k][1]} ({v[0]} executions, e.g. {v[1]})")
    print(
        f"{check.prop} {tier}: jobs={len(jobs)} executions={total.executions} states={total.states} "
        f"transitions={total.transitions} outcomes={len(total.outcomes)} wall={wall:.1f}s"
    )
    if total.violation:
        idx, (choices, msg, repro) = total.violation
        fam, job, bound, cap = jobs[idx]
        name = f"{check.prop}-{digest((fam, job, choices))}"
        path = os.path.join(VERIF, "replays", name + ".json")
        write_json(
            path,
            {
                "property": check.prop,
                "family": fam,
                "tier": tier,
                "job_index": idx,
                "job": short(job, 2000),
                "choices": choices,
                "message": msg,
                "plain_python": repro,
                "how": f"python checks/run.py {check.prop} --replay {path}",
            },
        )
        print(f"  {msg}"[:2000])
        if repro:
            print("  " + repro[:2000].replace("\n", "\n  "))
        print(f"VIOLATION property={check.prop} replay={path}")
        return 1
    return 0


def replay(check, path):
    """Replay one recorded execution twice and insist on the same observation."""
    global _current
    with open(path) as f:
        r = json.load(f)
    jobs = check.jobs(r["tier"])
    fam, job, bound, cap = jobs[r["job_index"]]
    _init()
    seen = []
    for _ in range(2):
        _current = Stats()
        ch = Chooser(tuple(r["choices"]))
        try:
            check.families[fam](ch, job)
            seen.append("held")
        except Violation as v:
            seen.append(str(v))
        except Divergence:
            raise
        except BaseException as e:
            seen.append(f"exception {type(e).__name__}: {e}")
    print(seen[0])
    if seen[0] != seen[1]:
        print("replay not deterministic", file=sys.stderr)
        return 2
    if seen[0] == "held":
        return 0
    print(f"VIOLATION property={check.prop} replay={path}")
    return 1
