"""Call histories: nothing a call does is visible to a later one."""
import os
import pickle
import random
import sys
import traceback

import numpy as np

from girth import default_options
from mc import calls

LEVEL = "exploration"
RULE = ("a menu of calls covering every public function, two variants each; histories in fresh processes that make every "
        "ordered pair of calls adjacent (thorough: with every pair of variants), the returned values overwritten in between; "
        "every call followed by its neighbours, which differ in one argument; every call repeated on the same arguments objects with their contents exchanged; every call interrupted at the first "
        "execution of every line of the package it reaches (quick: each line in the first call that reaches it); one "
        "evaluation is one call compared bit for bit with the same call as the first one of a process; distinct by pair, "
        "reuse or line")
ASSUMPTIONS = ["the sparse rotation without a seed draws from the global generator of numpy through scipy: only seeded calls are made",
               "process pools are replaced by stand-ins that run their tasks in this process"]
CASE_SECONDS = 600
PARTS = 4
NAMES = list(calls.MENU)
ROOT = os.path.realpath(os.environ.get("GIRTH_ROOT", "/repo")) + os.sep


def cases(tier):
    out = [(f"reuse-{n}", ["reuse", n]) for n in NAMES]
    out += [(f"near-{n}", ["near", n]) for n in NAMES]
    out += [(f"interrupt-{n}-{j}", ["interrupt", n, tier, j]) for n in NAMES for j in range(PARTS)]
    many = len(NAMES) * (1 if tier == "quick" else 2)
    out += [(f"history-{s}", ["history", s, tier]) for s in range(many)]
    if tier == "thorough":
        out += [(f"aba-{n}", ["aba", n]) for n in NAMES]
    return out


# ------------------------------------------------------------------ isolation
def isolated(fn, *args):
    """fn(*args) in a fork of this process, which itself never calls the package."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = True, fn(*args)
            except BaseException as exc:                     # noqa: B036
                out = False, f"{type(exc).__name__}: {exc}\n{traceback.format_exc()[-1500:]}"
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    finally:
        try:
            os.kill(pid, 9)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("a call ended its process")
    good, value = pickle.loads(data)
    if not good:
        raise RuntimeError(value)
    return value


def surroundings():
    kind, keys, pos, has, cached = np.random.get_state()
    return (kind, keys.tobytes(), pos, has, cached, random.getstate(), np.geterr(), os.getcwd(), dict(os.environ),
            np.get_printoptions(), calls.bits(default_options()), sys.getrecursionlimit())


class Run:
    """One process history."""

    def __init__(self):
        self.trouble = []
        self.before = surroundings()

    def call(self, name, v, args=None):
        """The bits of the result; notes what the call left behind."""
        fn, build = calls.MENU[name]
        a, k = build(v) if args is None else args
        kept = calls.bits([a, k])
        try:
            value = fn(*a, **k)
            got = calls.bits(value)
        except Exception as exc:
            value, got = None, ("raised", type(exc).__name__, str(exc))
        if calls.bits([a, k]) != kept:
            self.trouble.append(["an argument is modified", name, v])
        after = surroundings()
        if after != self.before:
            what = [i for i, (x, y) in enumerate(zip(self.before, after)) if x != y]
            self.trouble.append(["the surroundings are modified", name, v, what])
            self.before = after
        calls.spoil(value)
        return got


def first(name, v):
    run = Run()
    return run.call(name, v), run.trouble


WANT = {}


def want(rec, name, v):
    if (name, v) not in WANT:
        WANT[name, v], trouble = isolated(first, name, v)
        report(rec, trouble)
        if WANT[name, v][0] == "raised":
            rec.fail("a legal call fails", call=name, variant=v, error=WANT[name, v])
    return WANT[name, v]


def report(rec, trouble):
    for what, *info in trouble:
        rec.fail(what, call=info)


def follow(sequence):
    """The bits of every call of a sequence made in one process."""
    run = Run()
    return [run.call(n, v) for n, v in sequence], run.trouble


def near(name, only=None):
    """The call, then its neighbours (or one of them alone)."""
    run = Run()
    out = [] if only is not None else [run.call(name, 0)]
    for i, (what, a, k) in enumerate(calls.neighbours(name)):
        if only is None or i == only:
            out.append((what, run.call(name, 0, (a, k))))
    return out, run.trouble


def reuse(name):
    fn, build = calls.MENU[name]
    run, out = Run(), []
    mine = build(0)
    mine = [list(mine[0]), mine[1]]
    for v in (0, 1, 0):
        a, k = build(v)
        if not calls.pour([list(a), k], mine):
            return None, run.trouble
        out.append(run.call(name, v, (mine[0], mine[1])))
    return out, run.trouble


# ------------------------------------------------------------------ interruption
class Interrupted(BaseException):
    pass


def trace(name, at=None):
    """Calls once; collects the lines reached, or interrupts at the given one."""
    fn, build = calls.MENU[name]
    a, k = build(0)
    kept = calls.bits([a, k])
    lines = []
    seen = set()

    def local(frame, event, arg):
        if event == "line":
            here = (frame.f_code.co_filename, frame.f_lineno)
            if here not in seen:
                seen.add(here)
                lines.append(here)
                if here == at:
                    raise Interrupted
        return local

    def outer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) and "<" not in frame.f_code.co_name else None

    stopped = False
    sys.settrace(outer)
    try:
        fn(*a, **k)
    except Interrupted:
        stopped = True
    finally:
        sys.settrace(None)
    return lines, stopped, calls.bits([a, k]) == kept


def reached():
    return {n: trace(n)[0] for n in NAMES}


LINES = {}


def interrupted(name, at):
    before = surroundings()
    _, stopped, intact = trace(name, at)
    after = surroundings()
    run = Run()
    return stopped, intact, before == after, run.call(name, 0), run.trouble


def run(payload, rec):
    kind = payload[0]
    if kind == "history":
        _, shift, tier = payload
        n = len(NAMES)
        if tier == "quick":
            nodes = [(name, (i + shift) % 2) for i, name in enumerate(NAMES)]
        else:
            nodes = [(name, v) for v in (0, 1) for name in NAMES]
            n *= 2
        left, sequence = set(range(n)), []
        while left:
            x = start = min(left)
            while x in left:
                left.remove(x)
                sequence.append(nodes[x])
                x = (x + shift) % n
            sequence.append(nodes[start])
            if shift == 0 and tier == "quick":
                sequence += [(nodes[start][0], 1), nodes[start]]
        got, trouble = isolated(follow, sequence)
        report(rec, trouble)
        for i, (node, value) in enumerate(zip(sequence, got)):
            rec.count("evaluations")
            rec.key(sequence[i - 1] if i else None, node)
            if value != want(rec, *node):
                rec.fail("result depends on earlier calls", call=node, before=sequence[max(0, i - 3):i], position=i)
    elif kind == "aba":
        for other in NAMES:
            for seq in ([(payload[1], 0), (other, 0), (payload[1], 1)], [(payload[1], 0), (other, 1), (payload[1], 0)]):
                got, trouble = isolated(follow, seq)
                report(rec, trouble)
                for node, value in zip(seq, got):
                    rec.count("evaluations")
                    if value != want(rec, *node):
                        rec.fail("result depends on earlier calls", call=node, history=seq)
                rec.key(seq)
    elif kind == "near":
        name = payload[1]
        got, trouble = isolated(near, name)
        report(rec, trouble)
        for i, (what, value) in enumerate(got[1:]):
            [(_, alone)], trouble = isolated(near, name, i)
            rec.count("evaluations", 2)
            rec.key(name, what)
            rec.count("refused", alone[0] == "raised")
            if value != alone:
                rec.fail("result is that of a similar call", call=name, change=what)
    elif kind == "reuse":
        name = payload[1]
        for v in (0, 1):
            rec.check(isolated(first, name, v)[0] == want(rec, name, v), "two first calls differ", call=name, variant=v)
        got, trouble = isolated(reuse, name)
        report(rec, trouble)
        if got is None:
            rec.count("not_reusable")
            return
        for v, value in zip((0, 1, 0), got):
            rec.count("evaluations")
            rec.key(name, v)
            if value != want(rec, name, v):
                rec.fail("result belongs to earlier contents of the arguments", call=name, variant=v)
    else:
        _, name, tier, part = payload
        if not LINES:
            LINES.update(isolated(reached))
        mine = LINES[name]
        if tier == "quick":
            done = set()
            for n in NAMES[:NAMES.index(name)]:
                done.update(LINES[n])
            mine = [x for x in mine if x not in done]
        for at in mine[part::PARTS]:
            stopped, intact, quiet, value, trouble = isolated(interrupted, name, at)
            report(rec, trouble)
            info = dict(call=name, line=[os.path.relpath(at[0], ROOT), at[1]])
            rec.count("evaluations")
            rec.key(name, info["line"])
            rec.count("interrupted", stopped)
            rec.check(intact, "an interrupted call leaves its arguments modified", **info)
            rec.check(quiet, "an interrupted call leaves the surroundings modified", **info)
            if value != want(rec, name, 0):
                rec.fail("result depends on an interrupted call", **info)
