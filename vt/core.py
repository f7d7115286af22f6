"""Building blocks of a check: Violation, Ctx, Check, expect()."""
import hashlib
import json
import os
import traceback

from .bootstrap import REPO, VERIF


class Violation(Exception):
    """The code under test broke the property on this case.

    `key` identifies a specific defect, so that a listed known finding is
    recognised and nothing else is.
    """

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    """Something of ours went wrong: never reported as a violation."""


def expect(cond, message, key=None):
    if not cond:
        raise Violation(message() if callable(message) else message, key)


def expect_eq(got, want, what, key=None):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (what, got, want), key)


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.tags = set()
        self.is_nontrivial = False

    def tag(self, name):
        self.tags.add(str(name))

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Check:
    """One generated check: `strategy()` makes JSON-able cases, `run` decides them."""

    def __init__(self, name, strategy, run, quick, thorough, corpus=(), cpu_limit=40):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.corpus = list(corpus)
        self.cpu_limit = cpu_limit


def case_hash(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=repr).encode()
    ).hexdigest()[:16]


def frames_in_repo(tb):
    root = os.path.abspath(REPO) + os.sep
    return [
        f for f in traceback.extract_tb(tb) if os.path.abspath(f.filename).startswith(root)
    ]


def environmental(exc):
    """Not about the code under test."""
    return isinstance(exc, (OSError, MemoryError, ImportError)) or type(exc).__module__.startswith("hypothesis")


def run_case(check, case, ctx):
    """Run one case; map exceptions out of the code under test to Violations."""
    try:
        check.run(case, ctx)
    except (Violation, HarnessError):
        raise
    except Exception as exc:
        frames = traceback.extract_tb(exc.__traceback__)
        own = os.path.join(VERIF, "vt") + os.sep
        inside = frames_in_repo(exc.__traceback__)
        if inside and not os.path.abspath(frames[-1].filename).startswith(own):
            last = inside[-1]
            raise Violation(
                "unexpected %s: %s (raised at %s in %s)"
                % (
                    type(exc).__name__,
                    str(exc)[:400],
                    os.path.basename(last.filename),
                    last.name,
                )
            ) from exc
        if environmental(exc):
            raise HarnessError("".join(traceback.format_exception(exc))[-4000:]) from exc
        # Something has another form than what the oracle is made for, or the
        # code under test has asked a stand-in for something there isn't.
        last = [f for f in frames if os.path.abspath(f.filename).startswith(own)][-1]
        raise Violation(
            "not what it has to be: %s: %s (at %s:%s)"
            % (type(exc).__name__, str(exc)[:400], os.path.basename(last.filename), last.name)
        ) from exc
