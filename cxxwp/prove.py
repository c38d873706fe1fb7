"""Generate and discharge the obligations of specification modules."""
import os
import time
import z3
from .ast import Unit, ToolLimit
from .interp import Interp
from .exec import Obligation, TRUE, FALSE
from . import solve

_units = {}


def unit(source, filters, flags=()):
    key = (source, tuple(filters), tuple(flags))
    if key not in _units:
        _units[key] = Unit(source, filters, flags)
    return _units[key]


class Module:
    """Contracts over one translation unit. All contracts without `assumed` are verified."""

    def __init__(self, name, source, contracts, externals=None, filters=("ClingoDL",), flags=(), prepare=None, note="",
                 lemmas=()):
        self.name, self.source, self.contracts = name, source, contracts
        self.externals, self.filters, self.flags = externals or {}, filters, flags
        self.prepare = prepare
        self.note = note
        self.lemmas = lemmas       # (name, facts, goal): facts about the specification functions


class FuncReport:
    def __init__(self, module, func):
        self.module, self.func = module, func
        self.obls, self.results = [], []
        self.error = None          # tool limit
        self.inlined, self.used, self.assumptions = set(), set(), set()
        self.vacuous = None


def generate(m, select=lambda c: True):
    reps = []
    if m.lemmas:
        r = FuncReport(m.name, "lemmas")
        r.canary = []
        r.obls = [Obligation("lemma." + nm, facts, goal, "lemma", "lemmas") for nm, facts, goal in m.lemmas]
        reps.append(r)
    u = unit(m.source, m.filters, m.flags)
    for c in m.contracts:
        if c.assumed or c.skip or not select(c):
            continue
        r = FuncReport(m.name, c.name)
        reps.append(r)
        try:
            ex = Interp(u, externals=m.externals)
            if m.prepare:
                m.prepare(ex)
            for k in m.contracts:
                ex.register(k)
            r.obls = ex.verify(c)
            for o in r.obls:
                o.name = "%s::%s" % (c.name.split("::")[-1], o.name)
            r.inlined, r.used, r.assumptions = ex.inlined, ex.used_contracts - {c.name}, ex.assumptions
            # vacuity canaries: the preconditions and the end of the function must not be contradictory
            r.canary = []
            r.canary.append(Obligation("canary.pre", list(ex.pre_facts), FALSE, "canary", c.name))
            if ex.final_facts is not None:
                r.canary.append(Obligation("canary.post", list(ex.final_facts), FALSE, "canary", c.name))
        except ToolLimit as e:
            r.error = str(e)
            r.obls = []
        except Exception as e:   # construct the engine does not expect
            if os.environ.get("CHECK_DEBUG"):
                raise
            r.error = "internal: %s: %s" % (type(e).__name__, e)
            r.obls = []
    return reps


def prove(modules, timeout=30, jobs=8, deadline=None, canaries=True):
    reps = []
    for m in modules:
        try:
            reps += generate(m)
        except ToolLimit as e:
            r = FuncReport(m.name, "*")
            r.error = str(e)
            reps.append(r)
    allo, idx = [], []
    for r in reps:
        for o in r.obls:
            allo.append(o)
            idx.append(r)
    cans = [(r, o) for r in reps if not r.error for o in r.canary] if canaries else []
    res = solve.discharge(allo, timeout, jobs, deadline)
    for r, x in zip(idx, res):
        r.results.append(x)
    cres = solve.discharge([o for _, o in cans], 2, jobs, deadline, quick=True)
    for (r, o), x in zip(cans, cres):
        if x.status == "unsat":
            r.vacuous = o.name
    return reps
