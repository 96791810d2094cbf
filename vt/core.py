"""Runner of the property checks.

A property is a list of Parts. A Part couples a Hypothesis strategy, which yields plain JSON data, with a check,
which builds the inputs for intvalpy from that data, runs the code under test and compares with an oracle. Cases
are generated (and failures shrunk) by Hypothesis in forked workers; a failure is written out as a JSON replay
file, which `run.py --replay` executes without Hypothesis.
"""
import hashlib
import importlib
import json
import mmap
import os
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS = ["C%02d" % k for k in range(1, 100)
         if os.path.exists(os.path.join(HERE, "props", "c%02d.py" % k))]


class Violation(Exception):
    """The code under test contradicts the property."""


class Skip(Exception):
    """The generated data turned out not to be a case of the property."""


class Hang(BaseException):
    """One case used far more processor time than any case may."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    """name: what is examined; strategy: () -> Hypothesis strategy of JSON data; check: case -> label(s) or None.

    check returns None for a trivial case, otherwise a label or a list of labels (the classes the case belongs
    to). `quick`, `thorough`: how many cases each tier generates; `shards`: how many workers share them."""

    def __init__(self, name, strategy, check, quick, thorough=None, shards=1, rule=""):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.shards = shards
        self.rule = rule


CASE_CPU_SECONDS = 60.0       # interrupts Python code
CASE_WALL_SECONDS = 170.0     # ends a worker that sits in compiled code


def _on_alarm(signum, frame):
    raise Hang()


def _loads(text):
    return json.loads(text)


def run_case(part, text):
    """Executes one case. Returns (labels, None) or (None, message of the violation)."""
    import warnings
    import numpy as np
    case = _loads(text)
    np.random.seed(12345)
    signal.signal(signal.SIGPROF, _on_alarm)
    # again and again, because the code under test contains bare except clauses
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS, 0.5)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                labels = part.check(case)
        if labels is None:
            return [], None
        return ([labels] if isinstance(labels, str) else [str(x) for x in labels]), None
    except Skip:
        return None, None
    except Violation as e:
        return None, str(e)
    except Hang:
        return None, "one case did not finish within %d s of processor time" % CASE_CPU_SECONDS
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        own = not any("/intvalpy/" in f.filename or "interval_arithmetics" in f.filename for f in tb)
        if own and isinstance(e, (MemoryError, OSError, ImportError, NameError)):
            raise                                # trouble of the machinery
        return None, "%s: %s (at %s:%d)" % (type(e).__name__, str(e)[:300], os.path.basename(where.filename),
                                          where.lineno)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)


def crashes(part, text):
    """Executes a case that may end the interpreter in a process of its own. Returns the message of the violation or None."""
    sys.stdout.flush()
    board = Board()
    child = os.fork()
    if child == 0:
        status = 0
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            labels, msg = run_case(part, text)
            if msg is not None:
                board.note(msg)
        except BaseException:
            status = 1
        os._exit(status)
    t0 = time.time()
    while True:
        done, st = os.waitpid(child, os.WNOHANG)
        if done:
            break
        if time.time() - t0 > CASE_WALL_SECONDS:
            os.kill(child, signal.SIGKILL)
            os.waitpid(child, 0)
            return None
        time.sleep(0.01)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASHES:
        return "the interpreter was ended by signal %d (%s)" % (os.WTERMSIG(st), signal.Signals(os.WTERMSIG(st)).name)
    return board.text() if board.count() else None


def search(part, n, seed, budget, shrink_budget, note=None):
    """Generates n cases (at most `budget` seconds). Returns a dictionary of results."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    out = {"evaluations": 0, "skipped": 0, "nontrivial": set(), "labels": {}, "samples": [], "violation": None,
           "budget_hit": False}
    state = {"best": None, "first": None, "t0": time.time()}

    def body(case):
        now = time.time()
        if state["first"] is None:
            if now - state["t0"] > budget:
                out["budget_hit"] = True
                return
        elif now - state["first"] > shrink_budget:
            return
        text = json.dumps(case, sort_keys=True)
        if note is not None:
            note(text)
        labels, msg = run_case(part, text)
        if msg is not None:
            if state["first"] is None:
                state["first"] = time.time()
            key = (len(text), text)
            if state["best"] is None or key < state["best"][0]:
                state["best"] = (key, text, msg)
            if msg.startswith("one case did not finish"):
                state["first"] = -1e9           # do not shrink cases that hang
            raise Violation(msg)
        if state["first"] is not None:
            return
        out["evaluations"] += 1
        if labels is None:
            out["skipped"] += 1
        elif labels:
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in out["nontrivial"]:
                out["nontrivial"].add(h)
                if len(out["samples"]) < 3 and len(out["nontrivial"]) % 7 == 1 and len(text) < 1500:
                    out["samples"].append({"part": part.name, "labels": labels, "case": json.loads(text)})
            for lab in labels:
                out["labels"][lab] = out["labels"].get(lab, 0) + 1

    test = given(part.strategy())(body)
    test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False,
                    verbosity=Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except BaseException:
        if state["best"] is None:
            raise
    if state["best"] is not None:
        out["violation"] = {"text": state["best"][1], "message": state["best"][2]}
    out["nontrivial"] = sorted(out["nontrivial"])
    return out


def module(pid):
    return importlib.import_module("props." + pid.lower())


def _seed(*what):
    return int.from_bytes(hashlib.sha256(repr(what).encode()).digest()[:6], "big")


def _known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data["open"] if k["property"] == pid]


class Board:
    """What a worker is at, for the case that it never comes back from compiled code."""
    SIZE = 1 << 18

    def __init__(self):
        self.mem = mmap.mmap(-1, self.SIZE)

    def note(self, text):
        data = text.encode()[:self.SIZE - 16]
        self.mem[8:16] = len(data).to_bytes(8, "big")
        self.mem[16:16 + len(data)] = data
        self.mem[0:8] = ((int.from_bytes(self.mem[0:8], "big") + 1) % 2 ** 63).to_bytes(8, "big")

    def count(self):
        return int.from_bytes(self.mem[0:8], "big")

    def text(self):
        n = int.from_bytes(self.mem[8:16], "big")
        return self.mem[16:16 + n].decode()


def _child(part, n, seed, budget, shrink_budget, path, board):
    status = 0
    try:
        res = search(part, n, seed, budget, shrink_budget, board.note)
    except BaseException:
        res = {"error": traceback.format_exc()[-3000:]}
        status = 3
    with open(path + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(path + ".tmp", path)
    os._exit(status)


# factor on the number of cases of the quick tier that brings every check to about half a minute on 8 cores
SCALE = {"C01": 4, "C02": 4, "C03": 4, "C04": 3, "C05": 1.5, "C06": 3, "C07": 2, "C08": 2, "C09": 1.5,
         "C10": 3, "C11": 1, "C12": 3, "C13": 2, "C14": 2, "C15": 4, "C16": 3, "C17": 3, "C18": 5,
         "C19": 6, "C20": 10, "C21": 15, "C22": 6, "C23": 4, "C24": 6, "C25": 8, "C26": 5, "C27": 3,
         "C28": 8, "C29": 6, "C30": 10, "C31": 3, "C32": 5, "C33": 4, "C34": 1.5, "C35": 6, "C36": 8, "C37": 5, "C38": 8, "C39": 1}


def check(pid, tier, seed, only=None, scale=1.0, jobs_max=None):
    """Runs one property. Returns (exit status, evidence)."""
    t0 = time.time()
    mod = module(pid)
    parts = [p for p in mod.PARTS if only is None or p.name in only]
    known = _known(pid)
    known_cases = set()
    status = 0
    violations = []
    for k in known:
        part = {p.name: p for p in mod.PARTS}[k["part"]]
        text = json.dumps(k["case"], sort_keys=True)
        known_cases.add((k["part"], text))
        labels, msg = run_case(part, text)
        if msg is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: the known finding no longer fails: %s" % k["what"])
    budget, shrink_budget = (150.0, 40.0) if tier == "quick" else (3000.0, 300.0)
    jobs = []
    for p in parts:
        total = max(1, int((p.quick * SCALE.get(pid, 1) if tier == "quick" else p.thorough) * scale))
        shards = p.shards if tier == "quick" else max(p.shards, 8)
        shards = min(shards, total)
        for s in range(shards):
            jobs.append((p, (total + shards - 1) // shards, _seed(seed, pid, p.name, s)))
    tmp = tempfile.mkdtemp(prefix="vt-")
    limit = budget + shrink_budget + CASE_CPU_SECONDS + 60
    running, results, todo = {}, [], list(enumerate(jobs))
    errors = []
    ncpu = jobs_max or min(8, os.cpu_count() or 1)
    try:
        while todo or running:
            while todo and len(running) < ncpu:
                i, (p, n, sd) = todo.pop(0)
                path = os.path.join(tmp, "%d.json" % i)
                sys.stdout.flush()
                board = Board()
                pid_ = os.fork()
                if pid_ == 0:
                    _child(p, n, sd, budget, shrink_budget, path, board)
                running[pid_] = (p, path, time.time(), board, [0, time.time()])
            done, st = os.waitpid(-1, os.WNOHANG)
            if done == 0:
                now = time.time()
                for q, (p, path, start, board, last) in list(running.items()):
                    if board.count() != last[0]:
                        last[:] = board.count(), now
                    stuck = last[0] and now - last[1] > CASE_WALL_SECONDS
                    if stuck or now - start > limit:
                        os.kill(q, signal.SIGKILL)
                        os.waitpid(q, 0)
                        del running[q]
                        if stuck:
                            results.append((p, {"evaluations": 0, "skipped": 0, "nontrivial": [], "labels": {},
                                                "samples": [], "budget_hit": False, "wall": now - start, "violation": {
                                                    "text": board.text(),
                                                    "message": "one case did not finish within %d s" % CASE_WALL_SECONDS}}))
                        else:
                            errors.append("part %s did not finish" % p.name)
                time.sleep(0.01)
                continue
            p, path, start, board, last = running.pop(done)
            if os.path.exists(path):
                with open(path) as f:
                    res = json.load(f)
                os.remove(path)
            else:
                res = {"error": "worker ended with status %d" % st}
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASHES and board.count():
                    msg = crashes(p, board.text()) or "the interpreter was ended by signal %d (not by this case alone)" % os.WTERMSIG(st)
                    res = {"evaluations": 0, "skipped": 0, "nontrivial": [], "labels": {}, "samples": [], "budget_hit": False,
                           "violation": {"text": board.text(), "message": msg}}
            res["wall"] = time.time() - start
            if "error" in res:
                errors.append("part %s: %s" % (p.name, res["error"]))
            results.append((p, res))
    finally:
        for q in running:
            try:
                os.kill(q, signal.SIGKILL)
            except OSError:
                pass
        for n in os.listdir(tmp):
            os.remove(os.path.join(tmp, n))
        os.rmdir(tmp)

    per, samples, distinct, evals = {}, [], 0, 0
    for p in parts:
        mine = [r for q, r in results if q is p and "error" not in r]
        if not mine:
            continue
        labels = {}
        for r in mine:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        nt = set()
        for r in mine:
            nt.update(r["nontrivial"])
        d = {"evaluations": sum(r["evaluations"] for r in mine), "distinct_nontrivial": len(nt),
             "skipped": sum(r["skipped"] for r in mine),
             "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:40]), "rule": p.rule,
             "cpu_s": round(sum(r["wall"] for r in mine), 1)}
        if any(r["budget_hit"] for r in mine):
            d["budget_hit"] = True
        per[p.name] = d
        evals += d["evaluations"]
        distinct += d["distinct_nontrivial"]
        for r in mine:
            samples += r["samples"][:1]
        for r in mine:
            v = r["violation"]
            if v and (p.name, v["text"]) not in known_cases:
                violations.append((p, v))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    seen = set()
    for p, v in violations:
        if p.name in seen:
            continue
        seen.add(p.name)
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        h = hashlib.sha1(v["text"].encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "evidence", "replays", "%s-%s-%s.json" % (pid, p.name, h))
        with open(path, "w") as f:
            json.dump({"property": pid, "part": p.name, "case": json.loads(v["text"]), "message": v["message"]}, f,
                      indent=1)
        print("part %s: %s" % (p.name, v["message"][:600]))
        print("  case: %s" % v["text"][:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    if errors and status == 0:
        status = 2
    for e in errors:
        print("ERROR " + e, file=sys.stderr)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct,
                       "rule": mod.RULE, "samples": samples[:12] or ["none"], "parts": per},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(seen)}
    if only is None:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    return status, ev
