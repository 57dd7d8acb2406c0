"""Abstract interpreter for the Python subset used by the analysed project.

It evaluates the syntax tree of the CURRENT source over the abstract domains of
world.py; no module of the analysed project is imported or executed."""

import ast
import os
import re as host_re
import sys
import time
import warnings

from .domain import *
from .world import World, is_pua, PUA, WS, ALPHABET, NeedModulus
from . import builtins_model as bm

warnings.simplefilter("ignore", SyntaxWarning)

STEP_LIMIT = 3000000          # of one class
LOAD_LIMIT = 60000000         # of loading the package
STRIDE = 20000                # steps between two looks at the clock


class ReturnSig(Exception):
    pass


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Frame(object):
    __slots__ = ('vars', 'module', 'func', 'parent', 'sent', 'ret', 'cls', 'is_class', 'globals_', 'nonlocals')

    def __init__(self, module, func=None, parent=None):
        self.vars = {}
        self.module = module
        self.func = func
        self.parent = parent
        self.sent = None
        self.ret = None
        self.cls = None
        self.is_class = False
        self.globals_ = ()
        self.nonlocals = ()


def assigned_names(node):
    """Names bound in a function body (not in nested scopes)."""
    names, globs, nonl = set(), set(), set()
    gen = [False]

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    names.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for stmt in node.body if isinstance(node.body, list) else [node.body]:
        visit(stmt)
    return names - globs - nonl, globs, nonl, gen[0]


class Interp(object):

    def __init__(self, repo, specs, overrides=None):
        self.repo = repo                    # directory containing package utg
        self.specs = specs
        self.modules = {}
        self.epoch = 0
        self.undo = []
        self.steps = 0
        self.step_limit = LOAD_LIMIT
        self.step_stop = STRIDE
        self.deadline = None                # of the clock
        self.depth = 0
        self.world = World()
        self.world.I = self
        self.touched = {}                   # qual name -> (file, line)
        self.returns = []
        self.cur_line = None
        self.line_stack = []
        self.overrides = overrides or {}
        self.hooks = {}
        self.native_calls = {}
        self.explore_set_orders = False     # set by the explorer for class runs
        self.reverse_sets = False           # iteration order of sets while modules are loaded
        self.explorer = None
        self.current_exc = None
        self.sent = None
        self.closing = False
        self.labels = []                    # inputs asked for by the scenario
        self.changed = None                 # the input that differs in the second evaluation
        self.guest = None                   # an operation that may run between two steps of another
        Heap.runtime = self
        bm.install(self)
        self._stmt = {k[5:]: getattr(self, k) for k in dir(self) if k.startswith('stmt_')}
        self._expr = {k[5:]: getattr(self, k) for k in dir(self) if k.startswith('expr_')}

    # -- runs ----------------------------------------------------------------

    def begin(self, world):
        self.epoch += 1
        self.undo = []
        self.steps = 0
        self.step_limit = STEP_LIMIT
        self.step_stop = STRIDE
        self.depth = 0
        self.returns = []
        self.world = world
        world.I = self
        self.line_stack = []
        self.guest = None
        self.labels = []
        self.changed = None

    def label(self, name):
        """the name of an input; in a second evaluation of a scenario one input may be another one"""
        if name not in self.labels:
            self.labels.append(name)
        return name + ' (then)' if name == self.changed else name

    def pause(self):
        if self.steps > self.step_limit:
            raise Unsupported('step budget exhausted')
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime('time budget exhausted')
        self.step_stop = min(self.steps + STRIDE, self.step_limit)

    def rollback(self):
        for obj, state in reversed(self.undo):
            obj.restore(state)
            obj.epoch = 0
        self.undo = []

    # -- modules -------------------------------------------------------------

    def module_path(self, name):
        if name.split('.')[0] == 'specs':
            base = self.specs
            parts = name.split('.')[1:]
        else:
            base = self.repo
            parts = name.split('.')
        p = os.path.join(base, *parts)
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        native = bm.native_module(self, name)
        if native is not None:
            self.modules[name] = native
            return native
        path = self.module_path(name)
        if path is None:
            raise self.exc('ModuleNotFoundError', 'No module named %r' % name)
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        m = AModule(name, path, is_spec=name.split('.')[0] == 'specs')
        m.env['__name__'] = name
        m.env['__doc__'] = None
        self.modules[name] = m
        if os.path.exists(path):
            with open(path, encoding='utf-8') as f:
                m.tree = ast.parse(f.read(), path)
            if m.is_spec:
                bm.spec_builtins(self, m)
            try:
                self.run_module(m)
            except BaseException:
                self.modules.pop(name, None)
                raise
        m.loaded = True
        if parent is not None:
            parent.touch()
            parent.env[name.rsplit('.', 1)[1]] = m
        for key, fn in self.overrides.items():
            if key[0] == name:
                m.env[key[1]] = Native(key[1], fn)
        return m

    def run_module(self, m):
        frame = Frame(m)
        frame.vars = m.env
        self.line_stack.append([m, None, '<module>'])
        for stmt in m.tree.body:
            self.exec_stmt(stmt, frame)
        self.line_stack.pop()

    # -- exceptions ----------------------------------------------------------

    def exc(self, cls, *args):
        c = self.builtins[cls] if isinstance(cls, str) else cls
        inst = AInst(c)
        inst.attrs['args'] = tuple(args)
        inst.name = self.where()
        return PyExc(inst)

    def where(self):
        for m, line, fn in reversed(self.line_stack):
            if not m.is_spec and line is not None and m.path:
                return '%s:%s (%s)' % (self.rel(m.path), line, fn)
        if self.line_stack:
            m, line, fn = self.line_stack[-1]
            if m.path:
                return '%s:%s (%s)' % (os.path.basename(m.path), line, fn)
        return '?'

    def rel(self, path):
        return os.path.relpath(path, self.repo) if path.startswith(self.repo) else os.path.basename(path)

    # -- statements ----------------------------------------------------------

    def exec_body(self, body, frame):
        for stmt in body:
            self.exec_stmt(stmt, frame)

    def exec_stmt(self, node, frame):
        self.steps += 1
        if self.steps > self.step_stop:
            self.pause()
        if self.line_stack:
            self.line_stack[-1][1] = node.lineno
            if self.guest is not None:
                self.interrupt(node)
        handler = self._stmt.get(type(node).__name__)
        if handler is None:
            raise Unsupported('statement %s at %s' % (type(node).__name__, self.where()))
        handler(node, frame)

    def interrupt(self, node):
        """Before every statement of the package, at its first and second
        execution, the guest may run as a whole."""
        m = self.line_stack[-1][0]
        if m.is_spec:
            return
        fn, visits = self.guest
        key = (m.name, node.lineno, node.col_offset)
        n = visits[key] = visits.get(key, 0) + 1
        if n > 2:
            return
        now = self.world.symbol('runs before %s:%d:%d time %d' % (m.name, node.lineno, node.col_offset, n), [False, True])
        if isinstance(now, Fin):
            self.world.concretize(now)
        if now is True:
            self.guest = None
            saved, self.current_exc = self.current_exc, None
            try:
                self.call(fn, [], {})
            except PyExc as e:
                raise Violated(('the other operation fails: %s' % e.value.cls.name, e.value.name or self.where()))
            finally:
                self.current_exc = saved

    def stmt_Expr(self, node, frame):
        if isinstance(node.value, ast.Constant):
            return
        self.eval(node.value, frame)

    def stmt_Pass(self, node, frame):
        pass

    def stmt_Return(self, node, frame):
        frame.ret = self.eval(node.value, frame) if node.value is not None else None
        m, line, fn = self.line_stack[-1]
        if not m.is_spec:
            self.returns.append((self.rel(m.path), node.lineno, fn))
            if len(self.returns) > 40:
                del self.returns[:20]
        raise ReturnSig()

    def stmt_Break(self, node, frame):
        raise BreakSig()

    def stmt_Continue(self, node, frame):
        raise ContinueSig()

    def stmt_Assign(self, node, frame):
        value = self.eval(node.value, frame)
        for t in node.targets:
            self.assign(t, value, frame)

    def stmt_AnnAssign(self, node, frame):
        if frame.is_class and isinstance(node.target, ast.Name):
            notes = frame.vars.get('__annotations__')
            if notes is None:
                notes = frame.vars['__annotations__'] = ADict()
            self.dict_set(notes, node.target.id, None)
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, frame), frame)

    def stmt_AugAssign(self, node, frame):
        t = node.target
        op = type(node.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, frame)
            self.assign(t, self.inplace(op, old, self.eval(node.value, frame)), frame)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, frame)
            old = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.inplace(op, old, self.eval(node.value, frame)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, frame)
            idx = self.eval(t.slice, frame)
            old = self.getitem(obj, idx)
            self.setitem(obj, idx, self.inplace(op, old, self.eval(node.value, frame)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        if op == 'Add' and isinstance(a, AList):
            a.touch()
            a.items.extend(self.iterate(b))
            return a
        if isinstance(a, ASet) and not a.frozen and op in ('BitOr', 'BitAnd', 'Sub'):
            r = self.binop(op, a, b)
            a.touch()
            a.d, a.symbolic = r.d, r.symbolic
            return a
        if op == 'BitOr' and isinstance(a, ADict):
            for k in self.iterate(b):
                self.dict_set(a, k, self.getitem(b, k))
            return a
        if isinstance(a, AInst):
            r = bm.dunder(self, a, '__i%s__' % bm.OPERATOR_METHODS[op], b)
            if r is not MISSING and r is not NOTIMPL:
                return r
        if isinstance(a, ASet) and not a.frozen and op == 'BitXor':
            r = self.binop(op, a, b)
            a.touch()
            a.d, a.symbolic = r.d, r.symbolic
            return a
        return self.binop(op, a, b)

    def assign(self, t, value, frame):
        if isinstance(t, ast.Name):
            self.bind(t.id, value, frame)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(value)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise self.exc('ValueError', 'not enough values to unpack')
                for e, v in zip(t.elts[:i], items[:i]):
                    self.assign(e, v, frame)
                self.assign(t.elts[i].value, AList(items[i:len(items) - after]), frame)
                for e, v in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, v, frame)
                return
            if len(items) != len(t.elts):
                raise self.exc('ValueError', 'wrong number of values to unpack')
            for e, v in zip(t.elts, items):
                self.assign(e, v, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, frame), t.attr, value)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, frame)
            if isinstance(t.slice, ast.Slice):
                if not isinstance(obj, AList):
                    raise Unsupported('slice assignment')
                lo, hi, st = [None if x is None else self.eval(x, frame) for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                obj.touch()
                obj.items[slice(lo, hi, st)] = self.iterate(value)
                return
            self.setitem(obj, self.eval(t.slice, frame), value)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, value, frame)
        else:
            raise Unsupported('assignment target')

    def bind(self, name, value, frame):
        if name in frame.globals_:
            frame.module.touch()
            frame.module.env[name] = value
            return
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None:
                if name in f.vars:
                    f.vars[name] = value
                    return
                f = f.parent
        if frame.vars is frame.module.env:
            frame.module.touch()
            frame.module.env[name] = value
            return
        frame.vars[name] = value

    def stmt_Delete(self, node, frame):
        for t in node.targets:
            if isinstance(t, ast.Name):
                if t.id in frame.vars:
                    if frame.vars is frame.module.env:
                        frame.module.touch()
                        del frame.module.env[t.id]
                    else:
                        del frame.vars[t.id]
                else:
                    raise self.exc('NameError', t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, frame), t.attr)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, frame)
                if isinstance(t.slice, ast.Slice):
                    if isinstance(obj, AList):
                        lo, hi, st = [None if x is None else self.eval(x, frame) for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                        obj.touch()
                        del obj.items[slice(lo, hi, st)]
                        continue
                    raise Unsupported('del slice')
                bm.delitem(self, obj, self.eval(t.slice, frame))
            else:
                raise Unsupported('del')

    def stmt_If(self, node, frame):
        if self.truth(self.eval(node.test, frame)):
            self.exec_body(node.body, frame)
        else:
            self.exec_body(node.orelse, frame)

    def stmt_While(self, node, frame):
        n = 0
        while self.truth(self.eval(node.test, frame)):
            n += 1
            if n > 20000:
                raise Unsupported('loop bound')
            try:
                self.exec_body(node.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_body(node.orelse, frame)

    def stmt_For(self, node, frame):
        it = self.eval(node.iter, frame)
        if isinstance(it, ARange) and len(it) > BIG_RANGE:
            if self.summarise_append(node, it, frame):
                return
        for item in self.iterator(it):
            self.steps += 1
            if self.steps > self.step_stop:
                self.pause()
            self.assign(node.target, item, frame)
            try:
                self.exec_body(node.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_body(node.orelse, frame)

    def summarise_append(self, node, rng, frame):
        """for i in <big range>: X.append(e)  /  X[i] = e, X fresh and empty"""
        if not isinstance(node.target, ast.Name) or node.orelse:
            return False
        pre, last = node.body[:-1], node.body[-1]
        if not all(isinstance(s, (ast.Assign, ast.AnnAssign, ast.Pass)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) for s in pre):
            return False
        if not all(isinstance(t, ast.Name) for s in pre if isinstance(s, ast.Assign) for t in s.targets):
            return False
        var = node.target.id

        def element(expr):
            def fn(i):
                sub = Frame(frame.module, frame.func, frame)
                sub.vars[var] = i
                for s in pre:
                    self.exec_stmt(s, sub)
                return self.eval(expr, sub)
            return fn
        if isinstance(last, ast.Expr) and isinstance(last.value, ast.Call) and isinstance(last.value.func, ast.Attribute) \
                and last.value.func.attr == 'append' and isinstance(last.value.func.value, ast.Name) and len(last.value.args) == 1:
            name = last.value.func.value.id
            cur = self.lookup(name, frame)
            if isinstance(cur, AList) and not cur.items:
                self.bind(name, LazyMap(rng, element(last.value.args[0])), frame)
                return True
        if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Subscript) \
                and isinstance(last.targets[0].value, ast.Name) and isinstance(last.targets[0].slice, ast.Name) \
                and last.targets[0].slice.id == var:
            name = last.targets[0].value.id
            cur = self.lookup(name, frame)
            if isinstance(cur, ADict) and not cur.d:
                self.bind(name, LazyDict(rng, element(last.value)), frame)
                return True
        return False

    def stmt_Try(self, node, frame):
        try:
            try:
                self.exec_body(node.body, frame)
            except PyExc as e:
                for h in node.handlers:
                    if self.matches(h.type, e.value, frame):
                        if h.name:
                            self.bind(h.name, e.value, frame)
                        prev = getattr(self, 'current_exc', None)
                        self.current_exc = e
                        try:
                            self.exec_body(h.body, frame)
                        finally:
                            self.current_exc = prev
                        break
                else:
                    raise
            else:
                self.exec_body(node.orelse, frame)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            if node.finalbody:
                saved = frame.ret
                self.exec_body(node.finalbody, frame)
                frame.ret = saved
            raise
        else:
            if node.finalbody:
                self.exec_body(node.finalbody, frame)

    def matches(self, type_node, value, frame):
        if type_node is None:
            return True
        t = self.eval(type_node, frame)
        for c in (t if isinstance(t, tuple) else (t,)):
            if isinstance(c, AClass) and value.cls.subclass_of(c):
                return True
        return False

    def stmt_Raise(self, node, frame):
        if node.exc is None:
            if getattr(self, 'current_exc', None):
                raise self.current_exc
            raise self.exc('RuntimeError', 'No active exception to reraise')
        v = self.eval(node.exc, frame)
        if isinstance(v, AClass):
            v = self.call(v, [], {})
        if not isinstance(v, AInst) or not v.cls.subclass_of(self.builtins['BaseException']):
            raise self.exc('TypeError', 'exceptions must derive from BaseException')
        v.touch()
        v.name = self.where()
        if node.cause is not None:
            v.attrs['<cause>'] = self.eval(node.cause, frame)
        raise PyExc(v)

    def stmt_Assert(self, node, frame):
        if not self.truth(self.eval(node.test, frame)):
            raise self.exc('AssertionError', *([] if node.msg is None else [self.eval(node.msg, frame)]))

    def stmt_Global(self, node, frame):
        pass

    def stmt_Nonlocal(self, node, frame):
        pass

    def stmt_Import(self, node, frame):
        for a in node.names:
            m = self.load(a.name)
            if a.asname:
                self.bind(a.asname, m, frame)
            else:
                self.bind(a.name.split('.')[0], self.load(a.name.split('.')[0]), frame)

    def stmt_ImportFrom(self, node, frame):
        base = node.module or ''
        if node.level:
            pkg = frame.module.name
            if not (frame.module.path or '').endswith('__init__.py'):
                pkg = pkg.rsplit('.', 1)[0]
            for _ in range(node.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            base = pkg + ('.' + base if base else '')
        m = self.load(base)
        for a in node.names:
            if a.name == '*':
                names = m.env.get('__all__')
                names = self.iterate(names) if names is not None else [n for n in m.env if not n.startswith('_')]
                for n in names:
                    self.bind(n, m.env[n], frame)
                continue
            if a.name in m.env:
                v = m.env[a.name]
            elif not m.native and self.module_path(base + '.' + a.name):
                v = self.load(base + '.' + a.name)
            else:
                if m.native and base.split('.')[0] in sys.stdlib_module_names:
                    v = self.load(base + '.' + a.name) if (base + '.' + a.name) in ('collections.abc', 'os.path') else bm.unmodelled('%s.%s' % (base, a.name))
                    self.bind(a.asname or a.name, v, frame)
                    continue
                if m.native:
                    raise Unsupported('import %s.%s' % (base, a.name))
                raise self.exc('ImportError', 'cannot import name %r from %r' % (a.name, base))
            self.bind(a.asname or a.name, v, frame)

    def make_func(self, node, frame, name=None):
        f = AFunc()
        f.node = node
        f.name = name or node.name
        f.module = frame.module
        f.frame = frame
        args = node.args
        f.defaults = [self.eval(d, frame) for d in args.defaults]
        f.kwdefaults = [None if d is None else self.eval(d, frame) for d in args.kw_defaults]
        f.cls = None
        f.locals, f.globals_, f.nonlocals, f.is_gen = self.scope_info(node)
        prefix = ''
        fr = frame
        if fr.is_class:
            prefix = fr.cls + '.'
        f.qual = '%s.%s%s' % (frame.module.name, prefix, f.name)
        f.memo = None
        f.attrs = {}
        return f

    def scope_info(self, node):
        info = getattr(node, '_sa_scope', None)
        if info is None:
            info = node._sa_scope = assigned_names(node)
        return info

    def stmt_FunctionDef(self, node, frame):
        v = self.make_func(node, frame)
        for d in reversed(node.decorator_list):
            dec = self.eval(d, frame)
            v = self.call(dec, [v], {})
        self.bind(node.name, v, frame)

    def stmt_ClassDef(self, node, frame):
        bases = []
        for b in node.bases:
            bv = self.eval(b, frame)
            if isinstance(bv, AInst) and bv.cls.name == 'typing':
                continue
            if not isinstance(bv, AClass):
                raise Unsupported('base class')
            bases.append(bv)
        keywords = {}
        abstract = False
        for k in node.keywords:
            v = self.eval(k.value, frame)
            if k.arg == 'metaclass' and v is self.builtins['type']:
                continue
            if k.arg == 'metaclass' and isinstance(v, AClass) and v.name == 'ABCMeta':
                abstract = True
                continue
            if k.arg in (None, 'metaclass'):
                raise Unsupported('metaclass')
            keywords[k.arg] = v
        sub = Frame(frame.module, frame.func, frame)
        sub.is_class = True
        sub.cls = node.name
        self.exec_body(node.body, sub)
        if any(isinstance(b, RelClass) for b in bases):
            cls = bm.build_relation(self, node.name, bases, sub.vars, frame.module)
        else:
            if not bases:
                bases = [self.builtins['object']]
            named = [b for b in bases if b.name == 'NamedTuple' and b.module is not None and b.module.name == 'typing']
            if named:
                notes = sub.vars.pop('__annotations__', None)
                fields = [k for k, _ in notes.d.values()] if notes is not None else []
                cls = bm.namedtuple_class(self, node.name, fields, [sub.vars[f] for f in fields if f in sub.vars],
                                          {k: v for k, v in sub.vars.items() if k not in fields}, frame.module)
            else:
                cls = AClass(node.name, bases, dict(sub.vars), frame.module)
        cls.node = node
        if abstract:
            cls.env['<abstract>'] = True
        for k, v in sub.vars.items():
            self.set_owner(v, cls)
            if isinstance(v, ACached) and v.name is None:
                v.name = k
            if isinstance(v, AInst) and v.cls.lookup('__set_name__') is not MISSING:
                bm.dunder(self, v, '__set_name__', cls, k)
        if any('<enum>' in c.env for c in cls.mro):
            bm.enum_members(self, cls)
        for c in cls.mro[1:]:
            hook = c.env.get('__init_subclass__')
            if hook is not None:
                self.call(hook.func if isinstance(hook, AClassMethod) else hook, [cls], keywords)
                keywords = {}
                break
        if keywords:
            raise self.exc('TypeError', '%s.__init_subclass__() takes no keyword arguments' % node.name)
        value = cls
        for d in reversed(node.decorator_list):
            value = self.call(self.eval(d, frame), [value], {})
        self.bind(node.name, value, frame)

    def set_owner(self, v, cls):
        if isinstance(v, AFunc):
            if v.cls is None:
                v.cls = cls
        elif isinstance(v, (AClassMethod, AStaticMethod)):
            self.set_owner(v.func, cls)
        elif isinstance(v, ACached):
            self.set_owner(v.func, cls)
        elif isinstance(v, AProperty):
            for x in (v.fget, v.fset, v.fdel):
                self.set_owner(x, cls)

    def enter(self, item, frame):
        m = self.eval(item.context_expr, frame)
        v = self.call(self.getattr(m, '__enter__'), [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, frame)
        return m

    def leave(self, managers, exc, frame):
        """leave the managers; True when the exception is suppressed"""
        saved = frame.ret
        for m in reversed(managers):
            args = [None, None, None] if exc is None else [exc.value.cls, exc.value, None]
            if self.truth(self.call(self.getattr(m, '__exit__'), args, {})) and exc is not None:
                exc = None
        frame.ret = saved
        return exc is None and bool(managers)

    def stmt_With(self, node, frame, first=0):
        if first == len(node.items):
            self.exec_body(node.body, frame)
            return
        m = self.enter(node.items[first], frame)
        try:
            self.stmt_With(node, frame, first + 1)
        except PyExc as e:
            if self.leave([m], e, frame):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.leave([m], None, frame)
            raise
        self.leave([m], None, frame)

    def stmt_Match(self, node, frame):
        subject = self.eval(node.subject, frame)
        for case in node.cases:
            if self.match_pattern(case.pattern, subject, frame):
                if case.guard is None or self.truth(self.eval(case.guard, frame)):
                    self.exec_body(case.body, frame)
                    return

    def match_pattern(self, p, v, frame):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.eval(p.value, frame)))
        if isinstance(v, Fin) and not isinstance(p, ast.MatchAs):
            v = self.world.concretize(v)
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, frame):
                return False
            if p.name:
                self.bind(p.name, v, frame)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, frame) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            u = bm.unwrap(v)
            if not isinstance(u, (tuple, AList)):
                if isinstance(v, (Opq, LazyMap, OrdT)) or (isinstance(v, AInst) and v.partial):
                    raise Unsupported('match of an opaque value')
                return False
            items = self.iterate(u)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i, after = star[0], len(p.patterns) - star[0] - 1
                if len(items) < len(p.patterns) - 1:
                    return False
                if not all(self.match_pattern(q, x, frame) for q, x in zip(p.patterns[:i], items[:i])):
                    return False
                if p.patterns[i].name:
                    self.bind(p.patterns[i].name, AList(items[i:len(items) - after]), frame)
                return all(self.match_pattern(q, x, frame) for q, x in zip(p.patterns[i + 1:], items[len(items) - after:]))
            return len(items) == len(p.patterns) and all(self.match_pattern(q, x, frame) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchMapping):
            u = bm.unwrap(v)
            if not isinstance(u, ADict):
                if isinstance(v, (Opq, LazyDict)) or (isinstance(v, AInst) and v.partial):
                    raise Unsupported('match of an opaque value')
                return False
            keys = [self.eval(k, frame) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                if not self.truth(bm.dict_has(self, u, k)) or not self.match_pattern(q, self.dict_get(u, k), frame):
                    return False
            if p.rest:
                rest = ADict()
                for k, x in list(u.d.values()):
                    if not any(self.world.decide(bm.truthy_eq(self, k, y)) for y in keys):
                        self.dict_set(rest, k, x)
                self.bind(p.rest, rest, frame)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, frame)
            if not self.truth(bm.isinstance_(self, v, c)):
                return False
            if p.patterns:
                if len(p.patterns) == 1 and c.native and c.name in ('bool', 'bytes', 'dict', 'float', 'frozenset', 'int', 'list', 'set', 'str', 'tuple'):
                    if not self.match_pattern(p.patterns[0], v, frame):
                        return False
                else:
                    names = c.lookup('__match_args__')
                    if names is MISSING:
                        names = c.lookup('_fields')
                    if names is MISSING:
                        raise Unsupported('match arguments')
                    if not all(self.match_pattern(q, self.getattr(v, n), frame) for q, n in zip(p.patterns, self.iterate(names))):
                        return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.truth(bm.b_hasattr(self, [v, n], {})) or not self.match_pattern(q, self.getattr(v, n), frame):
                    return False
            return True
        raise Unsupported('match pattern')

    # -- names ---------------------------------------------------------------

    def lookup(self, name, frame):
        f = frame
        if name in f.vars:
            return f.vars[name]
        if f.func is not None and name in f.func.locals and not f.is_class and f.parent is f.func.frame:
            raise self.exc('UnboundLocalError', name)
        f = f.parent
        while f is not None:
            if not f.is_class and name in f.vars:
                return f.vars[name]
            f = f.parent
        env = frame.module.env
        if name in env:
            return env[name]
        if name in self.builtins:
            return self.builtins[name]
        import builtins
        if hasattr(builtins, name):
            raise Unsupported('builtin %s' % name)
        raise self.exc('NameError', "name %r is not defined" % name)

    # -- expressions ---------------------------------------------------------

    def eval(self, node, frame):
        self.steps += 1
        if self.steps > self.step_stop:
            self.pause()
        handler = self._expr.get(node.__class__.__name__)
        if handler is None:
            raise Unsupported('expression %s at %s' % (type(node).__name__, self.where()))
        return handler(node, frame)

    def expr_Constant(self, node, frame):
        v = node.value
        if v is Ellipsis:
            raise Unsupported('ellipsis')
        return v

    def expr_Name(self, node, frame):
        v = frame.vars.get(node.id, MISSING)
        if v is not MISSING:
            return v
        return self.lookup(node.id, frame)

    def expr_Attribute(self, node, frame):
        return self.getattr(self.eval(node.value, frame), node.attr)

    def expr_Tuple(self, node, frame):
        if len(node.elts) == 1 and isinstance(node.elts[0], ast.Starred):
            whole = self.eval(node.elts[0].value, frame)
            return whole.take('tuple') if isinstance(whole, LazyMap) else tuple(self.iterate(whole))
        return tuple(self.eval_items(node.elts, frame))

    def expr_List(self, node, frame):
        if len(node.elts) == 1 and isinstance(node.elts[0], ast.Starred):
            whole = self.eval(node.elts[0].value, frame)
            return whole.take('list') if isinstance(whole, LazyMap) else AList(self.iterate(whole))
        return AList(self.eval_items(node.elts, frame))

    def expr_Set(self, node, frame):
        s = ASet()
        for v in self.eval_items(node.elts, frame):
            self.set_add(s, v)
        return s

    def eval_items(self, elts, frame):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, frame)))
            else:
                out.append(self.eval(e, frame))
        return out

    def expr_Dict(self, node, frame):
        d = ADict()
        for k, v in zip(node.keys, node.values):
            if k is None:
                m = self.eval(v, frame)
                for key in self.iterate(self.call(self.getattr(m, 'keys'), [], {})):
                    self.dict_set(d, key, self.getitem(m, key))
            else:
                key = self.eval(k, frame)
                self.dict_set(d, key, self.eval(v, frame))
        return d

    def expr_Lambda(self, node, frame):
        return self.make_func(node, frame, name='<lambda>')

    def expr_IfExp(self, node, frame):
        if self.truth(self.eval(node.test, frame)):
            return self.eval(node.body, frame)
        return self.eval(node.orelse, frame)

    def expr_BoolOp(self, node, frame):
        is_and = isinstance(node.op, ast.And)
        v = None
        for i, e in enumerate(node.values):
            v = self.eval(e, frame)
            if i + 1 < len(node.values):
                t = self.truth(v)
                if t != is_and:
                    return v if not isinstance(v, Fin) else (t if self.is_bool(v) else v)
        return v

    def is_bool(self, v):
        return isinstance(v, bool) or (isinstance(v, Fin) and all(isinstance(x, bool) for x in v.table.values()))

    def expr_UnaryOp(self, node, frame):
        v = self.eval(node.operand, frame)
        if isinstance(node.op, ast.Not):
            if isinstance(v, Fin) and self.is_bool(v):
                return self.world.fin_apply(lambda x: not x, [v])
            return not self.truth(v)
        if isinstance(node.op, ast.USub):
            if isinstance(v, IntT):
                return IntT(v.sym, -v.sgn, -v.off)
            if isinstance(v, Fin):
                return self.world.fin_apply(lambda x: -x, [v])
            if isinstance(v, (int, float)):
                return -v
        if isinstance(v, AInst):
            r = bm.dunder(self, v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(node.op).__name__])
            if r is not MISSING:
                return r
        if v is None or isinstance(v, (str, AStr, tuple, AList, ADict, ASet)):
            raise self.exc('TypeError', 'bad operand type for unary operator')
        if isinstance(node.op, ast.USub):
            raise Unsupported('unary minus')
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(v, int):
            return ~v
        raise Unsupported('unary op')

    def expr_BinOp(self, node, frame):
        a = self.eval(node.left, frame)
        b = self.eval(node.right, frame)
        return self.binop(type(node.op).__name__, a, b)

    def expr_Compare(self, node, frame):
        left = self.eval(node.left, frame)
        result = True
        n = len(node.ops)
        for i, (op, right_node) in enumerate(zip(node.ops, node.comparators)):
            right = self.eval(right_node, frame)
            result = self.compare(type(op).__name__, left, right)
            if i + 1 < n and not self.truth(result):
                return False
            left = right
        return result

    def expr_Call(self, node, frame):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args and 'super' not in frame.vars:
            f = frame
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported('super()')
            first = f.func.node.args.args[0].arg
            return ASuper(f.func.cls, f.vars[first])
        fn = self.eval(node.func, frame)
        args = self.eval_items(node.args, frame)
        kwargs = {}
        for k in node.keywords:
            if k.arg is None:
                m = self.eval(k.value, frame)
                for key in self.iterate(self.call(self.getattr(m, 'keys'), [], {})):
                    if not isinstance(key, str):
                        raise Unsupported('symbolic keyword')
                    kwargs[key] = self.getitem(m, key)
            else:
                kwargs[k.arg] = self.eval(k.value, frame)
        if self.line_stack:
            line = self.line_stack[-1][1]
        return self.call(fn, args, kwargs)

    def expr_Subscript(self, node, frame):
        obj = self.eval(node.value, frame)
        if isinstance(node.slice, ast.Slice):
            lo, hi, st = [None if x is None else self.eval(x, frame) for x in (node.slice.lower, node.slice.upper, node.slice.step)]
            return bm.getslice(self, obj, lo, hi, st)
        return self.getitem(obj, self.eval(node.slice, frame))

    def expr_Slice(self, node, frame):
        raise Unsupported('slice')

    def expr_JoinedStr(self, node, frame):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, frame)
            spec = self.eval(v.format_spec, frame) if v.format_spec is not None else ''
            if v.conversion == 114:
                x = bm.repr_(self, x)
            elif v.conversion in (115, 97):
                x = bm.str_(self, x)
            parts.append(bm.format_(self, x, spec))
        enc = ''.join(self.world.enc_of(p) for p in parts)
        return self.world.mkstr(enc)

    def expr_NamedExpr(self, node, frame):
        v = self.eval(node.value, frame)
        f = frame
        while f.func is None and f.parent is not None and not f.is_class:
            f = f.parent                    # the target of := in a comprehension is a variable of the enclosing function
        self.bind(node.target.id, v, f)
        return v

    def expr_Starred(self, node, frame):
        raise Unsupported('starred')

    def comp(self, node, frame, leaf, first=MISSING):
        """Run the generators of a comprehension, calling leaf(frame)."""
        sub = Frame(frame.module, None, frame)

        def rec(i, fr):
            if i == len(node.generators):
                leaf(fr)
                return
            g = node.generators[i]
            it = first if i == 0 and first is not MISSING else self.eval(g.iter, frame if i == 0 else fr)
            for item in self.iterator(it):
                self.steps += 1
                if self.steps > self.step_stop:
                    self.pause()
                inner = fr
                self.assign(g.target, item, inner)
                if all(self.truth(self.eval(c, inner)) for c in g.ifs):
                    rec(i + 1, inner)
        rec(0, sub)

    def lazy_comp(self, node, frame, first, *exprs):
        """Comprehension over one big concrete range without filter: the range
        and, for each expression, its value as a function of the number."""
        lazy = bm.lazily(first) if len(node.generators) == 1 and not node.generators[0].ifs else None
        if not lazy:
            return None
        rng, (element,), _ = lazy

        def value(expr):
            def fn(i):
                sub = Frame(frame.module, None, frame)
                self.assign(node.generators[0].target, element(i), sub)
                return self.eval(expr, sub)
            return fn
        return [rng] + [value(e) for e in exprs]

    def names_number(self, node, expr, first):
        """is the expression the number of the range itself?"""
        target = node.generators[0].target
        if isinstance(first, LazyMap):
            target = target.elts[0] if first.keyed and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 else None
        return isinstance(target, ast.Name) and isinstance(expr, ast.Name) and expr.id == target.id

    def expr_ListComp(self, node, frame):
        first = self.eval(node.generators[0].iter, frame)
        lazy = self.lazy_comp(node, frame, first, node.elt)
        if lazy:
            return LazyMap(*lazy)
        out = []
        self.comp(node, frame, lambda fr: out.append(self.eval(node.elt, fr)), first)
        return AList(out)

    def expr_SetComp(self, node, frame):
        s = ASet()
        self.comp(node, frame, lambda fr: self.set_add(s, self.eval(node.elt, fr)))
        return s

    def expr_DictComp(self, node, frame):
        first = self.eval(node.generators[0].iter, frame)
        if self.names_number(node, node.key, first):
            lazy = self.lazy_comp(node, frame, first, node.value)
            if lazy:
                return LazyDict(*lazy)
        d = ADict()

        def leaf(fr):
            k = self.eval(node.key, fr)
            self.dict_set(d, k, self.eval(node.value, fr))
        self.comp(node, frame, leaf, first)
        return d

    def expr_GeneratorExp(self, node, frame):
        first = self.eval(node.generators[0].iter, frame)
        lazy = self.lazy_comp(node, frame, first, node.elt)
        if lazy:
            pair = isinstance(node.elt, ast.Tuple) and len(node.elt.elts) == 2
            return LazyMap(*lazy, kind='gen', keyed=pair and self.names_number(node, node.elt.elts[0], first))
        def thunk():
            def rec(i, fr):
                if i == len(node.generators):
                    yield self.eval(node.elt, fr)
                    return
                g = node.generators[i]
                for item in (source if i == 0 else self.iterator(self.eval(g.iter, fr))):
                    self.steps += 1
                    if self.steps > self.step_stop:
                        self.pause()
                    self.assign(g.target, item, fr)
                    if all(self.truth(self.eval(c, fr)) for c in g.ifs):
                        for x in rec(i + 1, fr):
                            yield x
            return rec(0, Frame(frame.module, None, frame))
        source = self.iterator(first)
        return AGen(thunk)

    def expr_Yield(self, node, frame):
        raise Unsupported('yield inside an expression')

    expr_YieldFrom = expr_Yield

    # -- bodies of generator functions: host generators -------------------------

    def has_yield(self, node):
        r = getattr(node, '_sa_yield', None)
        if r is None:
            r = isinstance(node, (ast.Yield, ast.YieldFrom)) or (
                not isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef))
                and any(self.has_yield(c) for c in ast.iter_child_nodes(node)))
            node._sa_yield = r
        return r

    def gen_body(self, body, frame):
        for stmt in body:
            if not self.has_yield(stmt):
                self.exec_stmt(stmt, frame)
                continue
            self.steps += 1
            if self.line_stack:
                self.line_stack[-1][1] = stmt.lineno
            handler = getattr(self, 'gen_' + type(stmt).__name__, None)
            if handler is None:
                raise Unsupported('yield inside %s at %s' % (type(stmt).__name__, self.where()))
            yield from handler(stmt, frame)

    def gen_value(self, node, frame):
        """evaluate an expression which may be a yield: yields, then leaves the value in frame.sent"""
        if isinstance(node, ast.Yield):
            frame.sent = None
            yield self.eval(node.value, frame) if node.value is not None else None
            frame.sent, self.sent = self.sent, None
        elif isinstance(node, ast.YieldFrom):
            src = self.eval(node.value, frame)
            if isinstance(src, AInst):
                src = bm.b_iter(self, [src], {})
            if isinstance(src, AGen):
                while True:
                    try:
                        x = src.advance(self.sent)
                    except StopIteration:
                        break
                    self.sent = None
                    yield x
                frame.sent = src.ret
            else:
                for x in self.iterator(src):
                    yield x
                frame.sent = None
        elif self.has_yield(node):
            raise Unsupported('yield inside an expression')
        else:
            frame.sent = self.eval(node, frame)

    def gen_Expr(self, node, frame):
        return self.gen_value(node.value, frame)

    def gen_Assign(self, node, frame):
        yield from self.gen_value(node.value, frame)
        value = frame.sent
        for t in node.targets:
            self.assign(t, value, frame)

    def gen_AugAssign(self, node, frame):
        if not isinstance(node.target, ast.Name):
            raise Unsupported('yield inside an augmented assignment')
        old = self.lookup(node.target.id, frame)
        yield from self.gen_value(node.value, frame)
        self.assign(node.target, self.inplace(type(node.op).__name__, old, frame.sent), frame)

    def gen_AnnAssign(self, node, frame):
        yield from self.gen_value(node.value, frame)
        self.assign(node.target, frame.sent, frame)

    def gen_Return(self, node, frame):
        yield from self.gen_value(node.value, frame)
        frame.ret = frame.sent
        raise ReturnSig()

    def gen_If(self, node, frame):
        body = node.body if self.truth(self.eval(node.test, frame)) else node.orelse
        return self.gen_body(body, frame)

    def gen_Match(self, node, frame):
        subject = self.eval(node.subject, frame)
        for case in node.cases:
            if self.match_pattern(case.pattern, subject, frame):
                if case.guard is None or self.truth(self.eval(case.guard, frame)):
                    return self.gen_body(case.body, frame)
        return iter(())

    def gen_While(self, node, frame):
        n = 0
        while self.truth(self.eval(node.test, frame)):
            n += 1
            if n > 20000:
                raise Unsupported('loop bound')
            try:
                yield from self.gen_body(node.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                continue
        yield from self.gen_body(node.orelse, frame)

    def gen_For(self, node, frame):
        for item in self.iterator(self.eval(node.iter, frame)):
            self.steps += 1
            if self.steps > self.step_stop:
                self.pause()
            self.assign(node.target, item, frame)
            try:
                yield from self.gen_body(node.body, frame)
            except BreakSig:
                return
            except ContinueSig:
                continue
        yield from self.gen_body(node.orelse, frame)

    def gen_Try(self, node, frame):
        try:
            try:
                yield from self.gen_body(node.body, frame)
            except PyExc as e:
                for h in node.handlers:
                    if self.matches(h.type, e.value, frame):
                        if h.name:
                            self.bind(h.name, e.value, frame)
                        prev = self.current_exc
                        self.current_exc = e
                        try:
                            yield from self.gen_body(h.body, frame)
                        finally:
                            self.current_exc = prev
                        break
                else:
                    raise
            else:
                yield from self.gen_body(node.orelse, frame)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            saved = frame.ret
            yield from self.gen_body(node.finalbody, frame)
            frame.ret = saved
            raise
        except GeneratorExit:
            if self.closing:
                self.exec_body(node.finalbody, frame)
            raise
        else:
            yield from self.gen_body(node.finalbody, frame)

    def gen_With(self, node, frame):
        managers = []
        for item in node.items:
            managers.append(self.enter(item, frame))
        try:
            yield from self.gen_body(node.body, frame)
        except PyExc as e:
            if self.leave(managers, e, frame):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.leave(managers, None, frame)
            raise
        except GeneratorExit:
            if self.closing:
                self.leave(managers, None, frame)
            raise
        self.leave(managers, None, frame)

    def generator(self, f, node, frame):
        def drive():
            inner = self.gen_body(node.body, frame)
            thrown = None
            while True:
                self.line_stack.append([f.module, node.lineno, f.qual])
                n = len(self.line_stack)
                self.depth += 1
                if self.depth > 220:
                    self.depth -= 1
                    raise Unsupported('recursion bound')
                try:
                    if thrown is not None:
                        exc, thrown = thrown, None
                        x = inner.throw(exc)
                    else:
                        x = next(inner)
                except StopIteration:
                    return frame.ret
                except ReturnSig:
                    return frame.ret
                except PyExc as e:
                    if e.value.cls.name == 'StopIteration':
                        raise self.exc('RuntimeError', 'generator raised StopIteration')
                    raise
                finally:
                    self.depth -= 1
                    del self.line_stack[n - 1:]
                try:
                    self.sent = yield x
                except GeneratorExit:
                    inner.close()
                    raise
                except PyExc as e:
                    thrown = e
        return AGen(drive)

    # -- calls ---------------------------------------------------------------

    def call(self, fn, args, kwargs):
        t = type(fn)
        if t is AFunc:
            return self.call_func(fn, args, kwargs)
        if t is BoundMethod:
            return self.call(fn.func, [fn.self] + list(args), kwargs)
        if t is Native:
            if self.builtins.get(fn.name) is fn:
                return bm.call_builtin(self, fn, args, kwargs)
            return fn.fn(self, args, kwargs)
        if t is BoundNative:
            return bm.call_method(self, fn.obj, fn.name, args, kwargs)
        if t is RelClass:
            return bm.relation_lookup(self, fn, *args)
        if t is AClass:
            return self.instantiate(fn, args, kwargs)
        if t is AInst:
            m = fn.cls.lookup('__call__')
            if m is not MISSING:
                return self.call(self.bind_attr(m, fn, fn.cls), args, kwargs)
            if fn.partial:
                raise Unsupported('call of a partial object')
            raise self.exc('TypeError', '%s object is not callable' % fn.cls.name)
        if t is Fin:
            self.world.concretize(fn)
        if t is AStaticMethod or t is AClassMethod:
            return self.call(fn.func, args, kwargs)
        if fn is None or isinstance(fn, (int, str, tuple, AList, ADict, ASet, Rec)):
            raise self.exc('TypeError', 'object is not callable')
        raise Unsupported('call of %s' % t.__name__)

    def instantiate(self, cls, args, kwargs):
        new = bm.CONSTRUCTORS.get(cls.name) if cls.native else None
        if new is not None:
            return new(self, args, kwargs)
        members = cls.env.get('<enum members>')
        if members is not None:
            for _, m in list(members.d.values()):
                if self.world.decide(bm.truthy_eq(self, m.attrs['_value_'], args[0])):
                    return m
            raise self.exc('ValueError', '%s is not a valid %s' % ('value', cls.name))
        maker = cls.lookup('__new__')
        base = bm.builtin_base(cls)
        init = cls.lookup('__init__')
        if maker is not MISSING:
            maker = maker.func if isinstance(maker, (AStaticMethod, AClassMethod)) else maker
            inst = self.call(maker, [cls] + list(args), kwargs)
            if not (isinstance(inst, AInst) and inst.cls.subclass_of(cls)):
                return inst
            if init is not MISSING:
                self.call(self.bind_attr(init, inst, inst.cls), args, kwargs)
            elif isinstance(inst.attrs.get(bm.PAYLOAD), Heap):
                bm.fill_payload(self, inst, args, kwargs)
            return inst
        if base is None and bm.still_abstract(cls):
            raise self.exc('TypeError', "Can't instantiate abstract class %s" % cls.name)
        inst = bm.raw_new(self, cls, args, kwargs) if base is not None else AInst(cls)
        if init is MISSING:
            if base is not None:
                if base != 'tuple':
                    bm.fill_payload(self, inst, args, kwargs)
                return inst
            if cls.subclass_of(self.builtins['BaseException']):
                inst.attrs['args'] = tuple(args)
                return inst
            if args or kwargs:
                raise self.exc('TypeError', '%s() takes no arguments' % cls.name)
            return inst
        if cls.subclass_of(self.builtins['BaseException']):
            inst.attrs['args'] = tuple(args)
        self.call(self.bind_attr(init, inst, cls), args, kwargs)
        return inst

    def call_func(self, f, args, kwargs):
        if f.memo is not None:
            return bm.call_memo(self, f, args, kwargs)
        return self.call_plain(f, args, kwargs)

    def call_plain(self, f, args, kwargs):
        node = f.node
        a = node.args
        frame = Frame(f.module, f, f.frame)
        frame.globals_ = f.globals_
        frame.nonlocals = f.nonlocals
        names = [x.arg for x in a.posonlyargs + a.args]
        env = frame.vars
        args = list(args)
        for n, v in zip(names, args):
            env[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                raise self.exc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names[len(a.posonlyargs):] or k in kwonly:
                if k in env:
                    raise self.exc('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise self.exc('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, k))
        if a.kwarg is not None:
            d = ADict()
            for k, v in extra.items():
                self.dict_set(d, k, v)
            env[a.kwarg.arg] = d
        ndef = len(f.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - ndef)
                if j < 0:
                    raise self.exc('TypeError', '%s() missing required argument: %r' % (f.name, n))
                env[n] = f.defaults[j]
        for n, d, dn in zip(kwonly, f.kwdefaults, a.kw_defaults):
            if n not in env:
                if dn is None:
                    raise self.exc('TypeError', '%s() missing keyword-only argument: %r' % (f.name, n))
                env[n] = d
        self.depth += 1
        if self.depth > 220:
            self.depth -= 1
            raise Unsupported('recursion bound')
        if not f.module.is_spec:
            if f.qual not in self.touched:
                self.touched[f.qual] = (self.rel(f.module.path), node.lineno)
        self.line_stack.append([f.module, node.lineno, f.qual])
        depth = len(self.line_stack)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            if f.is_gen:
                return self.generator(f, node, frame)
            try:
                self.exec_body(node.body, frame)
            except ReturnSig:
                return frame.ret
            return None
        finally:
            self.depth -= 1
            del self.line_stack[depth - 1:]

    # -- attributes ----------------------------------------------------------

    def bind_attr(self, v, obj, cls):
        if isinstance(v, (AFunc, Native)):
            return BoundMethod(v, obj)
        if isinstance(v, AClassMethod):
            return BoundMethod(v.func, cls)
        if isinstance(v, AStaticMethod):
            return v.func
        return v

    def getattr(self, obj, name):
        t = type(obj)
        if t is AInst:
            cv = obj.cls.lookup(name)
            if isinstance(cv, AProperty):
                if name in obj.attrs and obj.partial:
                    return obj.attrs[name]
                if cv.fget is None:
                    raise self.exc('AttributeError', name)
                return self.call(cv.fget, [obj], {})
            if isinstance(cv, AInst) and cv.cls.lookup('__set__') is not MISSING and cv.cls.lookup('__get__') is not MISSING:
                return bm.dunder(self, cv, '__get__', obj, obj.cls)
            if name in obj.attrs:
                return obj.attrs[name]
            if isinstance(cv, ACached):
                if bm.slots_of(self, obj.cls) is not None:
                    raise self.exc('TypeError', "No '__dict__' attribute to cache")
                v = self.call(cv.func, [obj], {})
                obj.touch()
                obj.attrs[name] = v
                return v
            if isinstance(cv, AInst) and cv.cls.lookup('__get__') is not MISSING:
                return self.call(self.bind_attr(cv.cls.lookup('__get__'), cv, cv.cls), [obj, obj.cls], {})
            if cv is not MISSING:
                return self.bind_attr(cv, obj, obj.cls)
            if name == '__class__':
                return obj.cls
            if name == '__dict__':
                return bm.instance_dict(self, obj)
            v = bm.object_attr(self, obj, name) if bm.PAYLOAD in obj.attrs else MISSING
            if v is not MISSING:
                return v
            ga = obj.cls.lookup('__getattr__')
            if ga is not MISSING:
                return self.call(self.bind_attr(ga, obj, obj.cls), [name], {})
            v = bm.object_attr(self, obj, name)
            if v is not MISSING:
                return v
            if obj.partial:
                raise Unsupported('attribute %s of a partial %s' % (name, obj.cls.name))
            raise self.exc('AttributeError', '%s object has no attribute %r' % (obj.cls.name, name))
        if t is Rec:
            return bm.rec_attr(self, obj, name)
        if t is AClass or t is RelClass:
            v = obj.lookup(name)
            if v is not MISSING:
                if isinstance(v, AClassMethod):
                    return BoundMethod(v.func, obj)
                if isinstance(v, AStaticMethod):
                    return v.func
                if isinstance(v, AInst) and v.cls.lookup('__get__') is not MISSING:
                    return bm.dunder(self, v, '__get__', None, obj)
                return v
            return bm.class_attr(self, obj, name)
        if t is AModule:
            if name in obj.env:
                return obj.env[name]
            if name == '__dict__':
                return bm.module_dict(self, obj)
            if obj.native:
                raise Unsupported('%s.%s' % (obj.name, name))
            raise self.exc('AttributeError', 'module %r has no attribute %r' % (obj.name, name))
        if t is Fin:
            vals = obj.values()
            if all(isinstance(v, (Rec, AClass)) for v in vals):
                return self.world.fin_apply(lambda v: self.getattr(v, name), [obj])
            if all(isinstance(v, (str, int, ASet, tuple)) for v in vals):
                kinds = set(type(v) for v in vals)
                if len(kinds) > 1:
                    self.world.concretize(obj)
                bm.check_method(self, vals[0], name)
                return BoundNative(obj, name)
            self.world.concretize(obj)
        if t is ASuper:
            mro = (obj.obj.cls if isinstance(obj.obj, AInst) else obj.obj).mro
            for c in mro[mro.index(obj.cls) + 1:]:
                if name in c.env:
                    v = c.env[name]
                    if name == '__new__':
                        return v.func if isinstance(v, (AStaticMethod, AClassMethod)) else v
                    if isinstance(v, AClassMethod):
                        return BoundMethod(v.func, obj.obj.cls if isinstance(obj.obj, AInst) else obj.obj)
                    if isinstance(v, AProperty):
                        return self.call(v.fget, [obj.obj], {})
                    if not isinstance(obj.obj, AInst) and name != '__init_subclass__':
                        return v.func if isinstance(v, AStaticMethod) else v
                    return self.bind_attr(v, obj.obj, c)
            v = bm.object_attr(self, obj.obj, name)
            if v is not MISSING:
                return v
            raise self.exc('AttributeError', name)
        if t is AFunc:
            return bm.func_attr(self, obj, name)
        if t is BoundMethod:
            if name == '__self__':
                return obj.self
            if name == '__func__':
                return obj.func
            return self.getattr(obj.func, name)
        if t is AProperty:
            if name in ('fget', 'fset', 'fdel'):
                return getattr(obj, name)
            if name in ('setter', 'deleter', 'getter'):
                return Native(name, lambda I, a, k: AProperty(a[0] if name == 'getter' else obj.fget,
                                                             a[0] if name == 'setter' else obj.fset,
                                                             a[0] if name == 'deleter' else obj.fdel))
        if t is AMatch and name in ('string', 're', 'lastindex', 'lastgroup', 'pos', 'endpos', 'expand'):
            raise Unsupported('match.%s' % name)
        if t is AMatch or t is ARegex:
            return BoundNative(obj, name) if not (t is ARegex and name == 'pattern') else obj.pattern
        if t is Native:
            if name == '__name__':
                return obj.name
            raise Unsupported('attribute %s of %s' % (name, obj.name))
        bm.check_method(self, obj, name)
        if name == '__class__':
            return bm.type_of(self, obj)
        return BoundNative(obj, name)

    def setattr(self, obj, name, value):
        if isinstance(obj, AInst):
            cv = obj.cls.lookup(name)
            if isinstance(cv, AProperty):
                if cv.fset is None:
                    raise self.exc('AttributeError', "can't set attribute %r" % name)
                self.call(cv.fset, [obj, value], {})
                return
            sa = obj.cls.lookup('__setattr__')
            if isinstance(sa, AFunc):
                self.call(sa, [obj, name, value], {})
                return
            if isinstance(cv, AInst) and cv.cls.lookup('__set__') is not MISSING:
                bm.dunder(self, cv, '__set__', obj, value)
                return
            self.raw_setattr(obj, name, value)
        elif isinstance(obj, (AClass, AModule)):
            obj.touch()
            obj.env[name] = value
        elif isinstance(obj, AFunc):
            obj.attrs[name] = value
        elif isinstance(obj, Fin):
            self.world.concretize(obj)
        elif isinstance(obj, Rec):
            raise Unsupported('assignment to a relation record')
        else:
            raise self.exc('AttributeError', name)

    def raw_setattr(self, obj, name, value):
        slots = bm.slots_of(self, obj.cls)
        if slots is not None and name not in slots:
            raise self.exc('AttributeError', '%s object has no attribute %r' % (obj.cls.name, name))
        obj.touch()
        obj.attrs[name] = value

    def raw_delattr(self, obj, name):
        if name not in obj.attrs:
            raise self.exc('AttributeError', name)
        obj.touch()
        del obj.attrs[name]

    def delattr(self, obj, name):
        if isinstance(obj, AInst):
            cv = obj.cls.lookup(name)
            if isinstance(cv, AProperty):
                if cv.fdel is None:
                    raise self.exc('AttributeError', "can't delete attribute %r" % name)
                self.call(cv.fdel, [obj], {})
                return
            da = obj.cls.lookup('__delattr__')
            if isinstance(da, AFunc):
                self.call(da, [obj, name], {})
                return
            if isinstance(cv, AInst) and cv.cls.lookup('__delete__') is not MISSING:
                bm.dunder(self, cv, '__delete__', obj)
                return
            self.raw_delattr(obj, name)
        elif isinstance(obj, (AClass, AModule)):
            if name not in obj.env:
                raise self.exc('AttributeError', name)
            obj.touch()
            del obj.env[name]
        else:
            raise Unsupported('delattr')

    # -- protocol helpers (delegated) ----------------------------------------

    def truth(self, v):
        return bm.truth(self, v)

    def eq(self, a, b):
        return bm.eq(self, a, b)

    def is_(self, a, b):
        return bm.is_(self, a, b)

    def compare(self, op, a, b):
        return bm.compare(self, op, a, b)

    def binop(self, op, a, b):
        return bm.binop(self, op, a, b)

    def getitem(self, obj, idx):
        return bm.getitem(self, obj, idx)

    def setitem(self, obj, idx, value):
        bm.setitem(self, obj, idx, value)

    def iterate(self, v):
        return list(self.iterator(v))

    def iterator(self, v):
        return bm.iterator(self, v)

    def dict_set(self, d, k, v):
        bm.dict_set(self, d, k, v)

    def dict_get(self, d, k):
        return bm.dict_get(self, d, k)

    def set_add(self, s, v):
        bm.set_add(self, s, v)
