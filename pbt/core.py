"""Shared vocabulary of the checks: violations, sub-checks, labels."""
import json


class Violation(AssertionError):
    """The property is broken for the generated case."""


class KnownFinding(Exception):
    """The case shows a defect that known_findings.txt lists (id)."""

    def __init__(self, fid, msg=""):
        super().__init__(f"{fid}: {msg}")
        self.fid = fid


class Runaway(BaseException):
    """The code under test keeps calling the objective far beyond its budget."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub:
    """One generated check: a strategy for JSON-able cases and a predicate over one case.

    ``check(case)`` raises Violation, or returns an iterable of labels (with "nontrivial" among them when the case is
    non-trivial by ``rule``), or a dict {"labels": ..., "stats": {name: [numbers]}} whose stats are summed over all cases.
    """

    def __init__(self, name, strategy, check, quick, thorough=None, rule="", shards=8):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 10
        self.rule, self.shards = rule, shards


def canon(case):
    return json.dumps(case, sort_keys=True)
