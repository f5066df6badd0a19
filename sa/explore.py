"""Runs a scenario along all combinations of the outcomes that the source leaves open."""
import sys
import threading
import time

from .values import *
from .engine import Interp, Diverges
from . import world

MAX_PATHS = {'quick': 40000, 'thorough': 2000000}


class Result(object):
    """What a set of scenarios has covered and found; picklable."""
    def __init__(self):
        self.paths = self.infeasible = self.obligations = self.events = self.steps = 0
        self.problems = {}
        self.rules = {}
        self.visited = set()
        self.reached = set()    # statements
        self.scenarios = {}
        self.sample = {}
        self.longest = {}       # steps of the longest path, per scenario

    def problem(self, rule, message, loc, scenario, conds, trail):
        k = (rule, message)
        if k not in self.problems:
            self.problems[k] = dict(rule=rule, message=message, location=loc, scenario=scenario, path=list(conds), functions_left=trail)

    def merge(self, o):
        for a in ('paths', 'infeasible', 'obligations', 'events', 'steps'):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        for k, v in o.problems.items():
            self.problems.setdefault(k, v)
        for k, v in o.rules.items():
            self.rules[k] = self.rules.get(k, 0) + v
        self.visited |= o.visited
        self.reached |= o.reached
        for k, (n, f) in o.scenarios.items():
            a, b = self.scenarios.get(k, (0, 0))
            self.scenarios[k] = (a + n, b + f)
        for k, v in o.sample.items():
            self.sample.setdefault(k, v)
        for k, v in o.longest.items():
            self.longest[k] = max(v, self.longest.get(k, 0))


def explore(src, res, name, scenario, scripts=((),), budget=None, max_paths=MAX_PATHS['thorough'], **opts):
    """scenario(I) interprets the client and states its obligations through I.require().

    Explores the paths below the given decision prefixes; with a budget (seconds) it may stop early and returns the prefixes left."""
    queue = [list(s) for s in scripts]
    n = feas = 0
    end = None if budget is None else time.time() + budget
    try:
        while queue:
            if end is not None and n and time.time() > end:
                return queue
            script = queue.pop()
            n += 1
            if n > max_paths:
                raise AnalysisError('scenario %s: more than %d paths' % (name, max_paths))
            I = Interp(src, script)
            world.install(I)
            for k, v in opts.items():
                setattr(I, k, v)
            bad = False
            try:
                scenario(I)
            except Infeasible:
                res.infeasible += 1
                bad = True
                I.problems = []
            except RaiseSig as s:
                I.problems.append(('no-unexpected-exception', 'raises %s' % exc_name(s.value), s.loc or '?', I.trail()))
            except Diverges as d:
                I.problems.append(('terminates', 'does not terminate: loop or recursion in the analysed code has no exit on this path', str(d), I.trail()))
            except AnalysisError as e:
                raise AnalysisError('scenario %s: %s [%s]' % (name, e, ' / '.join(I.where()[-3:])))
            finally:
                I.finish()
            queue.extend(I.pending)
            res.paths += 1
            res.steps += I.steps
            res.longest[name] = max(I.steps, res.longest.get(name, 0))
            res.events += len(I.events)
            res.reached |= set(src.stmts[s] for s in I.reached if s in src.stmts)
            res.visited |= set(src.names[f] for f in I.visited if f in src.names)
            if bad:
                continue
            feas += 1
            res.obligations += I.obligations
            for k, v in I.rules.items():
                res.rules[k] = res.rules.get(k, 0) + v
            if name not in res.sample:
                res.sample[name] = [str(c) for c in I.conditions()][:12]
            for rule, msg, loc, trail in I.problems:
                res.problem(rule, msg, str(loc), name, [str(c) for c in I.conditions()], trail)
        return []
    finally:
        a, b = res.scenarios.get(name, (0, 0))
        res.scenarios[name] = (a + n, b + feas)


def exc_name(v):
    if isinstance(v, Inst):
        return '%s(%s)' % (v.cls.name, show(v.attrs.get('args', ())))
    return '%s(%s)' % (type(v).__name__, ', '.join(show(a) for a in v.args))


def big_stack(f):
    """Runs f in a thread with a large stack."""
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def run():
        try:
            out.append((True, f()))
        except BaseException as e:
            out.append((False, e))
    t = threading.Thread(target=run)
    t.start()
    threading.stack_size(64 * 1024 * 1024)
    t.join()
    ok, v = out[0]
    if not ok:
        raise v
    return v
