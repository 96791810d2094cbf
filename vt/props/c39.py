"""Calls that run at the same time, in several threads or inside one another, give what they give alone."""
import os
import sys
import threading

import numpy as np
from hypothesis import strategies as st

import intvalpy as ip
import lin
from core import Part, require
from props import c33
from props.c33 import flat, fresh, state

RULE = ("Pairs of calls out of 79 functions and methods, each in a thread of its own, on the same or on separate objects. A tracer "
        "stops a thread after a generated number of lines of the library and lets the other go on, so the interleaving is "
        "part of the case and repeats exactly. Calls of one of them during which the objects are compared with their state before every line. And calls made inside the "
        "functions that globopt, Krawczyk, Hansen-Sengupta and ralgb5 are given. Every result is compared with that of the same call alone, the objects with their "
        "original state. Non-trivial: both calls returned and control changed at least twice in the midst of them.")
ASSUMPTIONS = ["models are not shared between threads (fitting changes them), and numpy's global random generator is not part of the "
               "result (ive is left out)", "threads change between lines of Python only: compiled parts hold the interpreter lock"]
ROOT = os.path.dirname(os.path.abspath(ip.__file__))
OPS = {k: v for k, v in c33.OPS.items() if k != "ive"}
# functions that take many lines or keep things between lines count more
LONG = ["PPS", "PSS", "PSS nu", "PSS x0", "Rohn tol", "Gauss", "GS", "GS x0", "HBR", "Subdiff", "Tol", "Tol C", "Uni", "Uss", "Cheb", "lineqs", "lineqs unbounded",
        "IntLinIncR2", "IntLinIncR2 unbounded", "IntLinIncR2 tol", "WILS", "WILS C", "ISPAE", "globopt", "Krawczyk", "HS", "Neumaier w", "IntLinIncR3",
        "lineqs3D", "lineqs3D unbounded"]


def _space(q):
    G = np.zeros((6, 3))
    G[:3], G[3:] = np.eye(3), -np.eye(3)
    return G, np.concatenate([-np.ones(3), q["w"][:1], [-4.0, -5.0]])


OPS["lineqs3D"] = lambda q: ip.lineqs3D(*_space(q), show=False)
OPS["lineqs3D unbounded"] = lambda q: ip.lineqs3D(_space(q)[0][:3] + 0.25, _space(q)[1][:3], show=False)
OPS["IntLinIncR3"] = lambda q: ip.IntLinIncR3(ip.Interval(np.eye(3) * 2, np.eye(3) * 3), ip.Interval([-1.0, 1.0, -2.0], [1.0, 2.0, 5.0]), show=False)


class Turns:
    """Two threads of which one runs at a time; they change places after the given numbers of lines."""

    def __init__(self, steps):
        self.steps, self.k, self.left, self.changes = steps, 0, steps[0], 0
        self.gates = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.me = threading.local()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.left -= 1
            if self.left <= 0:
                self.k += 1
                self.left = self.steps[self.k % len(self.steps)]
                other = 1 - self.me.i
                if not self.done[other]:
                    self.changes += 1
                    self.gates[other].release()
                    self.gates[self.me.i].acquire()
        return self.line

    def run(self, calls):
        out = [None, None]

        def work(i):
            self.me.i = i
            self.gates[i].acquire()
            sys.settrace(self.trace)
            try:
                try:
                    out[i] = (flat(calls[i]()), None)
                except Exception as e:
                    out[i] = (flat(None), (type(e).__name__, str(e)[:60]))
            finally:
                sys.settrace(None)
                self.done[i] = True
                self.gates[1 - i].release()

        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.gates[0].release()
        for t in ts:
            t.join(300)
            require(not t.is_alive(), "a call did not return within 300 s")
        return out


def alone(name, q):
    try:
        return flat(OPS[name](q)), None
    except Exception as e:
        return flat(None), (type(e).__name__, str(e)[:60])


@st.composite
def strat(draw):
    case = draw(c33.strat())
    op = st.one_of(st.sampled_from(LONG), st.sampled_from(LONG), st.sampled_from(sorted(OPS)))
    names = [draw(op), draw(op)]
    case["ops"] = names
    del case["spoil"]
    case["shared"] = draw(st.booleans())
    # the second call gets other data: what one leaves in common places is wrong for the other
    case["shift"] = draw(st.sampled_from([0.0, 0.0, 3.0, 40.0]))
    case["steps"] = draw(st.lists(st.one_of(st.integers(1, 12), st.integers(10, 80), st.integers(80, 600)), min_size=1, max_size=12))
    return case


def second(case):
    if case["shared"]:
        return case
    d = dict(case, b=[[v[0] + case["shift"], v[1] + case["shift"]] for v in case["b"]])
    return d


def check(case):
    a, b = case["ops"]
    other = second(case)
    want = [alone(a, fresh(case)), alone(b, fresh(other))]
    q = fresh(case)
    p = dict(q, wils=ip.WILS()) if case["shared"] else fresh(other)
    start = state(q), state(p)
    turns = Turns(case["steps"])
    got = turns.run([lambda: OPS[a](q), lambda: OPS[b](p)])
    for k, name in enumerate(case["ops"]):
        require(got[k] == want[k], "%s in a thread beside %s gives %r, alone %r", name, case["ops"][1 - k], got[k], want[k])
    for before, pool in zip(start, (q, p)):
        now = state(pool)
        bad = [key for key in before if now[key] != before[key]]
        require(not bad, "%s and %s in two threads changed %r", a, b, bad)
    if turns.changes < 2 or want[0][1] or want[1][1]:
        return None
    return ["shared" if case["shared"] else "separate", "changes " + ("2-9" if turns.changes < 10 else "10-99" if turns.changes < 100 else "100 and more")]


@st.composite
def strat_nested(draw):
    case = draw(c33.strat())
    case["ops"] = draw(st.lists(st.one_of(st.sampled_from(LONG), st.sampled_from(sorted(OPS))), min_size=1, max_size=3))
    del case["spoil"]
    case["outer"] = draw(st.sampled_from(["globopt", "Krawczyk", "HS", "ralgb5"]))
    return case


def outer(name, q, inner):
    """A call whose function does something else in between."""
    n = q["n"]

    def f(t):
        inner()
        return sum(t[i] ** 2 for i in range(n))

    def F(t):
        inner()
        return ip.asinterval(t) * 3 - q["p"]

    def J(t):
        inner()
        return 3 * np.eye(n)

    def g(t):
        inner()
        k = int(np.argmax(abs(t - q["p"])))
        s = np.zeros(n)
        s[k] = np.sign(t[k] - q["p"][k])
        return float(abs(t[k] - q["p"][k])), s
    if name == "globopt":
        return ip.globopt(f, q["x0"], maxiter=4)
    if name == "ralgb5":
        from intvalpy.kernel.ralgb5 import ralgb5
        return ralgb5(g, q["p"] + 2.0, maxiter=4)
    return (ip.Krawczyk if name == "Krawczyk" else ip.HansenSengupta)(F, J, q["x0"], maxiter=2)


def check_nested(case):
    names = case["ops"]
    want = [alone(nm, fresh(case)) for nm in names]
    plain = flat(outer(case["outer"], fresh(case), lambda: None))
    q = fresh(case)
    start = state(q)
    calls = []

    def inner():
        if len(calls) < 6:
            k = len(calls) % len(names)
            calls.append((k, alone(names[k], q)))

    got = flat(outer(case["outer"], q, inner))
    require(got == plain, "%s whose function calls %r gives %r, otherwise %r", case["outer"], names, got, plain)
    for k, r in calls:
        require(r == want[k], "%s within %s gives %r, alone %r", names[k], case["outer"], r, want[k])
    now = state(q)
    bad = [key for key in start if now[key] != start[key]]
    require(not bad, "%s within %s changed %r", names, case["outer"], bad)
    return case["outer"] if any(not e for _, e in want) and len(calls) >= len(names) else None


def quick(q):
    """What is cheap to compare: addresses of the elements of interval arrays, bytes of numeric arrays."""
    out = []
    for v in q.values():
        if isinstance(v, ip.LinearConstraint):
            out += [v.C.tobytes(), v.b.tobytes(), v.mu]
        elif isinstance(v, ip.ArrayInterval) or isinstance(v, np.ndarray):
            d = v.data if isinstance(v, ip.ArrayInterval) else v
            out += [d.shape, d.tobytes()]
        elif isinstance(v, list):
            out.append([id(e) for e in v])
    return out


class Watch:
    """Compares the objects with their state before every line of the library that is run during a call."""

    def __init__(self, q):
        self.q, self.start, self.lines, self.bad = q, state(q), 0, None
        # elements that are kept cannot be replaced by others at the same addresses
        self.kept = [list(v.data.ravel()) for v in q.values() if isinstance(v, ip.ArrayInterval)]
        self.seen = quick(q)

    def trace(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(ROOT) and not self.bad else None

    def line(self, frame, event, arg):
        if event == "line" and not self.bad:
            self.lines += 1
            if self.lines < 3000 or self.lines % 7 == 0:
                self.look("line %d of %s" % (frame.f_lineno, os.path.basename(frame.f_code.co_filename)))
        return self.line

    def look(self, where):
        try:
            if quick(self.q) == self.seen:
                return
            now = state(self.q)
            keys = [k for k in self.start if now[k] != self.start[k]]
        except Exception as e:
            keys = repr(e)
        if keys:
            self.bad = (where, keys)


@st.composite
def strat_watched(draw):
    case = draw(c33.strat())
    del case["spoil"]
    case["ops"] = [draw(st.one_of(st.sampled_from(LONG), st.sampled_from(sorted(OPS))))]
    return case


def check_watched(case):
    name, = case["ops"]
    q = fresh(case)
    w = Watch(q)
    sys.settrace(w.trace)
    try:
        r = alone(name, q)
    finally:
        sys.settrace(None)
    w.look("the end")
    require(not w.bad, "%s has changed %r before %s", name, *(w.bad or ("", ""))[::-1])
    if r[1] or w.lines < 3:
        return None
    return "lines " + ("3-99" if w.lines < 100 else "100-999" if w.lines < 1000 else "1000 and more")


PARTS = [Part("watched", strat_watched, check_watched, 700, thorough=8000, shards=4, rule="returned after at least three lines"),
         Part("threads", strat, check, 700, thorough=12000, shards=8, rule="both returned, control changed twice"),
         Part("nested", strat_nested, check_nested, 400, thorough=6000, shards=4, rule="the calls inside were made")]
