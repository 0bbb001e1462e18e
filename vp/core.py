"""Common machinery of every check: violations, guarded calls into the code under test,
sub-check declarations.  Cases are plain JSON data; a sub-check is a strategy producing a
case plus a function deciding it, so that a failing case replays without Hypothesis."""
import json, os, sys, hashlib, traceback

REPO_LIB = '/repo/lib'
if REPO_LIB not in sys.path:
    sys.path.insert(0, REPO_LIB)
# hypothesis comes from the pre-installed tool venv: last on the path, so the
# project's own venv wins for every package both have.
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _HYP not in sys.path:
    sys.path.append(_HYP)


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken."""


class Hang(BaseException):
    """A case used far more processor time than any terminating run does."""


class Stop(BaseException):
    """Shrinking has used its time; report the smallest failure seen so far."""


def call(fn, *a, **kw):
    """Call into the code under test: an exception it lets escape is a violation
    (generators only make inputs the property says are accepted)."""
    try:
        return fn(*a, **kw)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/repo/' in f.filename] or list(tb)
        f = where[-1]
        raise Violation("crash in {}:{} ({}): {}: {}".format(
            os.path.basename(f.filename), f.lineno, getattr(fn, '__name__', fn), type(e).__name__, str(e)[:300]))


def rejects(fn, *a, **kw):
    """(True, exc) if the call raised an ordinary exception, else (False, result)."""
    try:
        return (False, fn(*a, **kw))
    except (Violation, HarnessError):
        raise
    except Exception as e:
        return (True, e)


def check(cond, fmt, *a):
    if not cond:
        raise Violation(fmt.format(*a) if a else fmt)


def eq(got, want, what):
    if got != want:
        raise Violation("{}: got {!r}, wanted {!r}".format(what, got, want))


class Ctx(object):
    """Per-case recorder handed to the deciding function."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.reset()

    def reset(self):
        self.nontriv = False
        self.labels = []
        self.n = 0

    def nontrivial(self, cond=True):
        self.nontriv = self.nontriv or bool(cond)

    def label(self, l):
        self.labels.append(str(l))

    def path(self, name):
        """A fresh file path in this shard's scratch directory"""
        self.n += 1
        return os.path.join(self.scratch, name)


class Sub(object):
    """One executable check: `strategy()` builds a Hypothesis strategy (called lazily),
    `run(case, ctx)` decides one case. quick/thorough: examples per shard."""
    def __init__(self, name, strategy, run, quick=300, thorough=5000, qshards=2, tshards=8,
                 cpu=30, fixed=(), exhaustive=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough
        self.qshards, self.tshards = qshards, tshards
        self.cpu = cpu              # seconds of processor time after which one case counts as hung
        self.fixed = fixed          # callable or list of plain cases always run first
        self.exhaustive = exhaustive


class Check(object):
    def __init__(self, pid, title, rule, subs, assumptions=()):
        self.pid, self.title, self.rule = pid, title, rule
        self.subs = subs
        self.assumptions = list(assumptions)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def casehash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]
