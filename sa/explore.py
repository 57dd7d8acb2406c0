"""Partitioned analysis of one scenario.

A scenario is a specification function whose inputs are abstract values.  It is
evaluated once per partition class; when a question cannot be answered inside
the class, the class is refined and its parts are analysed separately.  Every
check() of every final class is one obligation."""

import math
import mmap
import os
import pickle
import random
import struct
import time
import traceback
from fractions import Fraction

from .domain import *
from .world import World, NeedModulus
from .interp import Interp, ReturnSig
from . import layout

MODULES = ('relations', 'restrictions', 'logic', 'data', 'exceptions', 'utils', 'words', 'transformators',
           'constructors', 'dictionary', 'lexicon', 'templates')


# the one-number classes tried where the domain of integers is too coarse
MEMBERS = (0, 1, -1, 2, 5, 11, -12, 21, 104, 112, 1000, -1001, 9999, 10000, 10001, 12345, 999999, 1000000, 1000001, -1000000,
           123456789, 1000000000, 1000000021, 2147483648, 4294967297, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63 + 2, 10 ** 15 + 11, 10 ** 18 + 1, 10 ** 22 + 3,
           10 ** 30 + 12)
AGAIN = 30.0            # seconds a scenario that writes to lasting state is evaluated twice in a row
AFTER_FINDING = 25.0    # seconds a scenario goes on after its first finding


class Finding(object):
    def __init__(self, scenario, rule, message, inputs, construct):
        self.scenario, self.rule, self.message, self.inputs, self.construct = scenario, rule, message, inputs, construct

    def text(self):
        return '[%s] %s\n    rule: %s\n    class of inputs: %s\n    construct: %s' % (
            self.scenario, self.message, self.rule, self.inputs, self.construct)


class Result(object):
    def __init__(self, name):
        self.name = name
        self.classes = 0            # final classes (all obligations of the class decided)
        self.refinements = 0
        self.obligations = 0
        self.discharged = 0
        self.stateful = None        # something that outlives an evaluation was written to
        self.again = 0              # classes evaluated twice in a row
        self.undecided = []
        self.findings = []
        self.touched = {}
        self.samples = []
        self.wall = 0.0
        self.messages = {}
        self.draws = {}             # situation -> (labels of a fair draw, {label: probability}, construct)
        self.doc = name

    def add(self, finding):
        key = (finding.message, finding.construct)
        if key not in [(f.message, f.construct) for f in self.findings]:
            self.findings.append(finding)

    def draw(self, key, labels, label, chance, construct):
        chances = self.draws.setdefault(key, (labels, {}, construct))[1]
        chances[label] = chances.get(label, 0) + chance

    def judge_draws(self, doc):
        """the draws of each situation, all its classes taken together"""
        for (situation, labels), (_, chances, construct) in sorted(self.draws.items(), key=repr):
            if sum(chances.values()) != 1:
                self.undecided.append('a draw whose outcomes do not partition the source of chance [%s]' % situation[:200])
                continue
            self.obligations += 1
            for label in sorted(set(labels) | set(chances), key=repr):
                fair = Fraction(labels.count(label), len(labels))
                if chances.get(label, 0) != fair:
                    self.add(Finding(self.name, doc, 'outcome %s has the chance %s, not %s' % (label, chances.get(label, 0), fair), situation, construct))
                    break
            else:
                self.discharged += 1

    def stop(self, max_findings):
        return len(self.findings) >= max_findings or len(self.undecided) >= 5

    def merge(self, other):
        self.stateful = self.stateful or other.stateful
        for k in ('again', 'classes', 'refinements', 'obligations', 'discharged'):
            setattr(self, k, getattr(self, k) + getattr(other, k))
        self.undecided.extend(other.undecided)
        for f in other.findings:
            self.add(f)
        self.touched.update(other.touched)
        self.samples = (self.samples + other.samples)[:6]
        for key, (labels, chances, construct) in other.draws.items():
            for label, chance in chances.items():
                self.draw(key, labels, label, chance, construct)
        for m, n in other.messages.items():
            self.messages[m] = self.messages.get(m, 0) + n


class Explorer(object):

    def __init__(self, repo, specs, use_layout=True, thorough=False):
        self.thorough = thorough
        self.I = Interp(repo, specs, layout.OVERRIDES if use_layout else {})
        self.I.explorer = self
        self.covered = set()
        self.draws = []
        self.run = None
        self.repeat = True
        self.twice = None           # a source of order while scenarios are evaluated twice
        self.found = None           # when the first finding was made, shared by the workers

    def load(self, modules):
        for m in modules:
            self.I.load(m)

    # called by check() of a specification
    def check(self, I, cond, msg, args):
        if isinstance(msg, tuple):
            msg, args = msg[0], msg[1:]
        ok = I.truth(cond)
        text = msg
        if not ok:
            w = I.world
            shown = ', '.join(w.show(a) for a in args)
            raise Violated((msg + (': ' + shown if shown else ''), self.construct()))
        self.run.append(text)

    def construct(self):
        I = self.I
        sites, seen = [], set()
        for site in reversed(I.returns):
            if site not in seen:
                seen.add(site)
                sites.append('%s:%d (%s)' % site)
            if len(sites) == 4:
                break
        return ' <- '.join(sites) or I.where()

    def scenario(self, name, fn, modulus=100, max_classes=400000, deadline=None, max_findings=3, jobs=1):
        """Analyse the whole input space of one scenario."""
        start = time.time()
        self.I.deadline = deadline
        import ast
        doc = name
        if fn.node.body and isinstance(fn.node.body[0], ast.Expr) and isinstance(fn.node.body[0].value, ast.Constant):
            doc = ' '.join(str(fn.node.body[0].value.value).split())
        res = Result(name)
        if self.found is None:
            self.found = mmap.mmap(-1, 8)
        self.found[:] = struct.pack('d', 0.0)
        try:
            stack = [()]
            # breadth first until there is enough independent work
            while stack and jobs > 1 and len(stack) < 6 * jobs and not res.stop(max_findings) and res.classes < 400:
                self.step(fn, doc, stack.pop(0), res, modulus, stack)
            if jobs > 1 and len(stack) >= jobs:
                self.parallel(fn, doc, stack, res, modulus, jobs, max_classes, deadline, max_findings)
            else:
                self.drain(fn, doc, stack, res, modulus, max_classes, deadline, max_findings)
        except NeedModulus as e:
            m = modulus * e.modulus // math.gcd(modulus, e.modulus)
            if m > 100000:
                res.undecided.append('modulus %d' % m)
            else:
                return self.scenario(name, fn, m, max_classes, deadline, max_findings, jobs)
        if not res.findings:
            res.judge_draws(doc)
        if res.stateful and self.repeat and not res.findings:
            self.second(fn, doc, res, modulus, deadline, max_findings, jobs)
        res.doc = doc
        res.wall = time.time() - start
        return res

    def second(self, fn, doc, res, modulus, deadline, max_findings, jobs):
        """The scenario wrote to something that outlives it.  It is evaluated
        twice in a row, with the same inputs and with one of them changed, in
        an order that reaches all parts of the input space early."""
        limit = time.time() + (AGAIN if not self.thorough else 10 * AGAIN)
        sub = Result(res.name)
        self.twice = random.Random(1)
        try:
            self.scenario_part(fn, doc, sub, modulus, min(limit, deadline) if deadline is not None else limit, max_findings, jobs)
        except NeedModulus:
            pass
        finally:
            self.twice = None
        res.again += sub.classes
        res.obligations += sub.obligations
        res.discharged += sub.discharged
        res.touched.update(sub.touched)
        for f in sub.findings:
            res.add(f)

    def scenario_part(self, fn, doc, res, modulus, deadline, max_findings, jobs):
        saved, self.I.deadline = self.I.deadline, deadline
        try:
            stack = [()]
            while stack and jobs > 1 and len(stack) < 6 * jobs and not res.findings and res.classes < 400 and time.time() < deadline:
                self.step(fn, doc, stack.pop(0), res, modulus, stack)
                res.undecided = []
            if jobs > 1 and len(stack) >= jobs:
                self.parallel(fn, doc, stack, res, modulus, jobs, 400000, deadline, max_findings)
            else:
                self.drain(fn, doc, stack, res, modulus, 400000, deadline, max_findings)
        finally:
            self.I.deadline = saved

    def drain(self, fn, doc, stack, res, modulus, max_classes, deadline, max_findings):
        while stack:
            if deadline is not None and time.time() > deadline:
                res.undecided.append('time budget exhausted with %d classes left' % len(stack))
                return
            if res.findings:
                if not struct.unpack('d', self.found[:])[0]:
                    self.found[:] = struct.pack('d', time.time())
            first = struct.unpack('d', self.found[:])[0]
            if first and time.time() > first + AFTER_FINDING:
                return
            if res.classes + res.refinements > max_classes:
                res.undecided.append('class budget exhausted with %d classes left' % len(stack))
                return
            todo = []
            if self.twice is not None:
                n = self.twice.randrange(len(stack))
                stack[n], stack[-1] = stack[-1], stack[n]
                res.undecided = []
            self.step(fn, doc, stack.pop(), res, modulus, todo)
            stack.extend(reversed(todo))
            if res.stop(max_findings):
                return

    def parallel(self, fn, doc, stack, res, modulus, jobs, max_classes, deadline, max_findings):
        children = []
        for n in range(jobs):
            part = stack[n::jobs]
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                sub = Result(res.name)
                try:
                    try:
                        self.drain(fn, doc, list(reversed(part)), sub, modulus, max_classes, deadline, max_findings)
                        out = ('ok', sub)
                    except NeedModulus as e:
                        out = ('modulus', e.modulus)
                    except BaseException:
                        out = ('error', traceback.format_exc())
                    with os.fdopen(wr, 'wb') as f:
                        pickle.dump(out, f)
                finally:
                    os._exit(0)
            os.close(wr)
            children.append((pid, rd))
        modulus_needed, error = None, None
        for pid, rd in children:
            with os.fdopen(rd, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                error = error or 'analysis worker died'
                continue
            kind, value = pickle.loads(data)
            if kind == 'ok':
                res.merge(value)
            elif kind == 'modulus':
                modulus_needed = value
            else:
                error = value
        if modulus_needed:
            raise NeedModulus(modulus_needed)
        if error:
            raise RuntimeError(error)

    def step(self, fn, doc, facts, res, modulus, todo):
        I = self.I
        name = res.name
        saved, I.touched = I.touched, res.touched
        self.run = []
        self.draws = []
        try:
            world = World((), modulus)
            try:
                for fact in facts:
                    world.assert_fact(fact)
                world.facts = list(facts)
                I.begin(world)
                I.explore_set_orders = True
                I.call(fn, [], {})
                if self.twice is not None:
                    labels = tuple(I.labels)
                    changed = world.symbol('changed the second time, of %s' % (labels,), (None,) + labels)
                    I.changed = world.concretize(changed) if isinstance(changed, Fin) else changed
                    I.call(fn, [], {})
            finally:
                if I.undo and not res.stateful:
                    res.stateful = [type(o).__name__ for o, state in I.undo][:3]
                I.explore_set_orders = False
                I.rollback()
                I.touched = saved
            res.classes += 1
            res.obligations += len(self.run)
            res.discharged += len(self.run)
            for label, labels, construct in self.draws if self.twice is None else ():
                chance = Fraction(1)
                for symbol in world.domains:
                    if symbol.startswith(('choice#', 'shuffle#')) and symbol in world.fin_region:
                        chance *= Fraction(len(world.fin_region[symbol]), len(world.domains[symbol]))
                situation = '; '.join(sorted('%s in %s' % (f[1], sorted(f[2])) if f[0] == 'fin' else repr(f) for f in facts if not (f[0] == 'fin' and f[1].startswith(('choice#', 'shuffle#')))))
                res.draw((situation, labels), labels, label, chance, construct)
            for m in self.run:
                res.messages[m] = res.messages.get(m, 0) + 1
            shown = '%s | %s | %d obligations' % (name, world.describe()[:400], len(self.run))
            if res.classes % 97 == 1 and len(res.samples) < 5 and self.run:
                res.samples.append(shown)
        except NeedSplit as e:
            res.refinements += 1
            for alt in e.alternatives:
                todo.append(facts + tuple(alt))
        except Infeasible:
            pass
        except (Violated, PyExc) as e:
            if world.contradictory():
                return
            if any("'~" in repr(f) for f in facts):
                # the class was formed by guessing the printed form of an object
                res.undecided.append('printed form of an object [%s] at %s' % (world.describe()[:200], I.where()))
            else:
                self.report(e, res, name, doc, world)
        except Unsupported as e:
            if world.contradictory():
                return
            res.undecided.append('%s [%s] at %s' % (e, world.describe()[:200], I.where()))
            self.members(fn, doc, facts, res, modulus, world)
        except RecursionError:
            res.undecided.append('recursion in the analyser at %s' % I.where())
        except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
            # a fault of the analyser itself: no verdict on this class
            res.undecided.append('analyser: %s: %s [%s] at %s' % (type(e).__name__, e, world.describe()[:200], I.where()))

    def late(self):
        return self.I.deadline is not None and time.time() > self.I.deadline

    def members(self, fn, doc, facts, res, modulus, world):
        """A class the domain of integers is too coarse for stays undecided; a
        few one-number parts of it are within reach."""
        if self.late() or self.twice is not None:
            return
        for name in sorted(world.ints):
            if '%' in name or name in world.int_alias or world.ints[name][0] == world.ints[name][1] is not None:
                continue
            found = 0
            for n in MEMBERS:
                todo = [facts + (('int', name, 'eq', n, True),)]
                while todo and len(res.findings) < 3 and not self.late():
                    self.step(fn, doc, todo.pop(), res, modulus, todo)
                    found += 1
                if found > 60:
                    break
            return

    def report(self, e, res, name, doc, world):
        I = self.I
        if isinstance(e, Violated):
            res.obligations += len(self.run) + 1
            res.discharged += len(self.run)
            msg, construct = e.args[0]
            res.add(Finding(name, doc, msg, world.describe(), construct))
        else:
            v = e.value
            res.obligations += len(self.run) + 1
            res.discharged += len(self.run)
            shown = ', '.join(world.show(a) for a in v.attrs.get('args', ()))[:200]
            res.add(Finding(name, doc, 'unexpected %s(%s)' % (v.cls.name, shown), world.describe(), v.name or I.where()))
