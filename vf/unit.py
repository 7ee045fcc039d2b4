"""Proof units: one real function (or loop body, or small call tree) checked
against its contract."""

import time
import traceback

import z3

from .core import (X, Ctl, Unsupported, Infeasible, NeedCarry, ForkSeen)
from . import seqs


class Unit:
    """fn(mods) executes the function under contract on symbolic arguments
    and poses obligations with X.prove; it may return a callable executed
    after... (unused).

    exc: exception types the contract allows the function to raise on the
    explored inputs (checked inside fn by catching them)."""

    def __init__(self, name, fn, functions, prop, timeout=60, bounds=(2,),
                 prove=True, assumes=(), definite=True):
        self.name = name
        self.fn = fn
        self.functions = functions
        self.prop = prop
        self.timeout = timeout
        self.bounds = bounds
        self.proof = prove
        self.assumes = assumes
        self.definite = definite


UNITS = {}


def unit(prop, functions, timeout=60, bounds=(2,), proof=True, assumes=(),
         definite=True, name=None):
    def deco(fn):
        u = Unit(name or fn.__name__, fn, functions, prop, timeout, bounds,
                 proof, assumes, definite)
        UNITS.setdefault(prop, []).append(u)
        return fn
    return deco


def cover(label):
    X.cover_hits.add(label)


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = None      # proved | refuted | undecided
        self.reason = ''
        self.obligations = []
        self.wall = 0.0
        self.solver = 0.0
        self.paths = 0
        self.bound = None
        self.assumptions = []
        self.covers = set()

    def failing(self):
        return [o for o in self.obligations if o.status != 'proved']

    def to_dict(self):
        return {'unit': self.unit.name, 'functions': self.unit.functions,
                'status': self.status, 'reason': self.reason,
                'bound': self.bound,
                'obligations': len(self.obligations),
                'discharged': sum(o.status == 'proved'
                                  for o in self.obligations),
                'labels': sorted({o.label for o in self.obligations})[:60],
                'paths': self.paths, 'solver_s': round(self.solver, 2),
                'wall_s': round(self.wall, 2),
                'failing': [{'label': o.label, 'status': o.status,
                             'model': o.model} for o in self.failing()][:6]}


DEBUG_TB = __import__('os').environ.get('VF_TB')
HARNESS_ERRORS = (AttributeError, NameError, ImportError, NotImplementedError,
                  RecursionError, AssertionError, z3.Z3Exception)


def run_unit(u, mods, bound=None, timeout=None, after=None):
    after = set() if after is None else after
    r = Result(u)
    r.bound = bound
    t0 = time.monotonic()
    for attempt in range(12):
        X.reset()
        X.bound = bound
        X.after_needed = set(after)
        X.deadline = t0 + (timeout or u.timeout)
        seqs._loops.clear()
        problems = []

        def outcome(kind, value, ex):
            if kind == 'exc':
                if isinstance(value, HARNESS_ERRORS) or not X.feasible():
                    if X.feasible():
                        if DEBUG_TB:
                            traceback.print_exception(value)
                        problems.append(_tb(value))
                    return
                if DEBUG_TB:
                    traceback.print_exception(value)
                X.prove(False, f'no exception ({type(value).__name__})')
                if len(problems) < 3 and not isinstance(value, Ctl):
                    X.obligations[-1].where = _tb(value)

        try:
            X.explore(lambda: u.fn(mods), outcome)
        except seqs.NeedAfter as e:
            after.add(e.key)
            continue
        except Unsupported as e:
            r.status, r.reason = 'undecided', f'tool limit: {e}'
            r.tb = traceback.format_exc()
        except NeedCarry as e:
            r.status, r.reason = 'undecided', f'tool limit: carry {e}'
            r.tb = traceback.format_exc()
        except Ctl as e:
            r.status, r.reason = 'undecided', f'tool limit: {e!r}'
        except RecursionError as e:
            r.status, r.reason = 'undecided', f'tool limit: {e!r}'
        except Exception as e:
            r.status, r.reason = 'undecided', f'engine error: {e!r}'
            r.tb = traceback.format_exc()
        break
    r.obligations = list(X.obligations)
    r.solver = X.solver_time
    r.paths = X.paths
    r.covers = set(X.cover_hits)
    r.dead = sorted(k for k, v in X.live.items() if v is not True)
    r.assumptions = sorted(X.assumptions)
    r.wall = time.monotonic() - t0
    if r.status is None:
        if problems:
            r.status, r.reason = 'undecided', f'tool limit: {problems[0]}'
        elif not r.obligations:
            r.status, r.reason = 'undecided', 'no obligations (vacuous)'
        elif r.dead and all(o.status == 'proved' for o in r.obligations):
            r.status = 'undecided'
            r.reason = f'vacuous obligations: {r.dead}'
        elif all(o.status == 'proved' for o in r.obligations):
            r.status = 'proved'
        elif any(o.status == 'refuted' for o in r.obligations):
            r.status = 'refuted'
        else:
            r.status, r.reason = 'undecided', 'solver unknown'
    elif any(o.status == 'refuted' for o in r.obligations):
        r.reason += ' (with refuted obligations)'
    return r


def _tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    tail = tb[-1] if tb else None
    mine = [i for i in tb if "units" in i.filename or "hat/event" in i.filename]
    if mine and tail is not mine[-1]:
        return (f"{type(e).__name__}: {e} at {tail.filename.rsplit('/', 1)[-1]}:{tail.lineno} < {mine[-1].filename.rsplit('/', 1)[-1]}:{mine[-1].lineno}")
    return (f'{type(e).__name__}: {e} at '
            f'{tail.filename.rsplit("/", 1)[-1]}:{tail.lineno}'
            if tail else repr(e))
