"""The abstract state of one partition class: what is known about the symbols,
and the decision procedures of each abstract domain (value sets, intervals and
residues, order atoms, free-monoid strings, opaque sets).

There is no solver: every question is answered from the facts of the class, or
the class is refined (NeedSplit) and analysed again."""

import itertools
import math

from .domain import *

PUA = 0xF0000
PRODUCT_LIMIT = 20000

RUS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'
ALPHABET = tuple(RUS + RUS.upper() + 'qQz7 -%') # letters + representatives of the rest
WS = frozenset(' \t\n\r\x0b\x0c')


class NeedModulus(Exception):
    def __init__(self, modulus):
        self.modulus = modulus


def is_pua(ch):
    return ord(ch) >= PUA


class World(object):

    def __init__(self, facts=(), modulus=100):
        self.I = None
        self.modulus = modulus
        self.fin_region = {}
        self.preds = {}
        self.less = set()          # (a, b): a < b
        self.same = {}             # union-find of order atoms
        self.ints = {}             # name -> [lo, hi, holes]
        self.int_alias = {}
        self.mod_of = {}           # symbol of a large remainder -> (term, modulus)
        self.subst = {}            # atom name -> enc
        self.neq = []              # (atom name, literal)
        self.differ = []           # (atom name, atom name): known to be different texts
        self.eq_known = []         # (enc, enc, answer) of equalities decided as a whole
        self.nonempty = set()
        self.measured = set()           # tokens whose place in a text was counted
        self.expanded = set()           # tokens taken apart from the start
        self.empty = set()
        self.const = {}            # atom name -> literal
        self.atom_alias = {}
        self.derived = {}          # atom name -> (letter case mapping, atom it is applied to)
        self.facts = list(facts)
        self.domains = {}          # symbol -> tuple of values
        self.pieces = []           # index -> Atom | Fin | term
        self.piece_index = {}
        self.atoms = {}
        for fact in facts:
            self.assert_fact(fact)

    # -- facts ---------------------------------------------------------------

    def assert_fact(self, fact):
        kind = fact[0]
        if kind == 'fin':
            _, name, region = fact
            old = self.fin_region.get(name)
            new = region if old is None else old & region
            if not new:
                raise Infeasible()
            self.fin_region[name] = new
        elif kind == 'pred':
            _, key, value = fact
            if self.preds.get(key, value) != value:
                raise Infeasible()
            self.preds[key] = value
            if not value and isinstance(key, tuple) and key[0] == 'same':
                self.differ.append(key[1:])
        elif kind == 'lt':
            self.less.add((fact[1], fact[2]))
        elif kind == 'ordeq':
            ra, rb = self.ord_root(fact[1]), self.ord_root(fact[2])
            if ra != rb:
                self.same[rb] = ra
        elif kind == 'int':
            _, name, op, c, value = fact
            region = self.ints.setdefault(name, [None, None, set()])
            lo, hi, holes = region
            if op == 'lt':
                if value:
                    region[1] = c - 1 if hi is None else min(hi, c - 1)
                else:
                    region[0] = c if lo is None else max(lo, c)
            else:
                if value:
                    if (lo is not None and c < lo) or (hi is not None and c > hi) or c in holes:
                        raise Infeasible()
                    region[0] = region[1] = c
                else:
                    holes.add(c)
            self.int_consistent(name)
        elif kind == 'intsame':
            self.int_alias[fact[1]] = fact[2]
        elif kind == 'empty':
            if fact[2]:
                self.empty.add(fact[1])
            else:
                self.nonempty.add(fact[1])
        elif kind == 'const':
            _, name, literal, value = fact
            if value:
                if self.const.get(name, literal) != literal:
                    raise Infeasible()
                self.const[name] = literal
            else:
                self.neq.append((name, literal))
        elif kind == 'atomsame':
            self.atom_alias[fact[1]] = fact[2]
        elif kind == 'expanded':
            self.expanded.add(fact[1])
        else:
            raise AssertionError(fact)

    def describe(self):
        out = []
        for name, region in sorted(self.fin_region.items()):
            if name.startswith('%'):
                values = sorted(region)
                shown = [str(v) for v in values[:6]]
                more = len(values) - 6
                out.append('%s mod %d in {%s%s}' % (name[1:], self.modulus, ','.join(shown), ',...' if more > 0 else ''))
                continue
            domain = self.domains.get(name)
            if domain is None:
                continue
            values = [self.show(domain[i]) for i in sorted(region)]
            if len(values) > 6:
                values = values[:6] + ['...']
            out.append('%s in {%s}' % (name, ', '.join(values)) if len(values) > 1 else '%s=%s' % (name, values[0]))
        for key, value in self.preds.items():
            out.append('%s%s' % ('' if value else 'not ', ' '.join(str(k) for k in key) if isinstance(key, tuple) else key))
        for a, b in sorted(self.less):
            out.append('%s<%s' % (a, b))
        for b, a in sorted(self.same.items()):
            out.append('%s==%s' % (a, b))
        for name, (lo, hi, holes) in sorted(self.ints.items()):
            if lo is not None and lo == hi:
                out.append('%s=%d' % (name, lo))
            else:
                out.append('%s in [%s,%s]%s' % (name, '-inf' if lo is None else lo, '+inf' if hi is None else hi,
                                               (' minus %s' % sorted(holes)) if holes else ''))
        for name in sorted(self.empty):
            out.append("%s=''" % name)
        for name in sorted(self.nonempty):
            out.append("%s nonempty" % name)
        for name, literal in sorted(self.const.items()):
            out.append('%s=%r' % (name, literal))
        for name, literal in self.neq:
            out.append('%s!=%r' % (name, literal))
        for a, b in sorted(self.atom_alias.items()):
            out.append('%s==%s' % (a, b))
        for name in sorted(self.expanded):
            out.append('%s longer than a character' % name)
        return '; '.join(out) or 'all inputs'

    def show(self, v, depth=3):
        if isinstance(v, (str, int, float, bool, type(None))):
            return repr(v)
        if depth == 0:
            return '...'
        if isinstance(v, Rec):
            return repr(v)
        if isinstance(v, AStr):
            return self.show_enc(v.enc)
        if isinstance(v, Fin):
            vals = v.values()
            return 'one of {%s}(%s)' % (', '.join(sorted(set(self.show(x, depth - 1) for x in vals[:8]))), ','.join(v.syms))
        if isinstance(v, IntT):
            return ('%s' if v.sgn > 0 else '-%s') % v.sym + ('%+d' % v.off if v.off else '')
        if isinstance(v, (OrdT, Opq)):
            return v.name
        if isinstance(v, tuple):
            return '(' + ', '.join(self.show(x, depth - 1) for x in v) + ')'
        if isinstance(v, AList):
            return '[' + ', '.join(self.show(x, depth - 1) for x in v.items) + ']'
        if isinstance(v, ADict):
            return '{' + ', '.join('%s: %s' % (self.show(k, depth - 1), self.show(x, depth - 1)) for k, x in v.d.values()) + '}'
        if isinstance(v, ASet):
            return '{' + ', '.join(self.show(k, depth - 1) for k in v.d.values()) + '}'
        if isinstance(v, AInst):
            return '<%s %s>' % (v.cls.name, ', '.join('%s=%s' % (k, self.show(x, depth - 1)) for k, x in sorted(v.attrs.items()))[:200])
        if isinstance(v, AClass):
            return v.name
        if isinstance(v, SetT):
            return str(v.expr)
        return '<%s>' % type(v).__name__

    def show_enc(self, enc):
        out = []
        for ch in enc:
            if is_pua(ch):
                p = self.pieces[ord(ch) - PUA]
                out.append('<%s>' % (p.name if isinstance(p, Atom) else self.show(p, 2)))
            else:
                out.append(ch)
        return 'text(%s)' % ''.join(out)

    # -- finite symbols ------------------------------------------------------

    def symbol(self, name, domain):
        domain = tuple(domain)
        if name in self.domains and len(self.domains[name]) != len(domain):
            raise Unsupported('symbol %s redefined' % name)
        self.domains[name] = domain
        region = self.fin_region.get(name)
        if region is None:
            region = self.fin_region[name] = frozenset(range(len(domain)))
        return self.mk_fin((name,), {(i,): domain[i] for i in sorted(region)})

    def mk_fin(self, syms, table):
        values = list(table.values())
        first = values[0]
        if all(self.same_value(first, v) for v in values[1:]):
            return first
        return Fin(syms, table)

    def same_value(self, a, b):
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is not tb:
            return False
        if ta in (str, int, bool, float, bytes):
            return a == b
        if ta is tuple:
            return len(a) == len(b) and all(self.same_value(x, y) for x, y in zip(a, b))
        if ta is AStr:
            return a.enc == b.enc
        if ta is IntT:
            return (a.sym, a.sgn, a.off) == (b.sym, b.sgn, b.off)
        if ta is OrdT or ta is Opq:
            return a.name == b.name
        if ta is Fin:
            return a.syms == b.syms and a.table.keys() == b.table.keys() and all(self.same_value(a.table[k], b.table[k]) for k in a.table)
        if ta is ASet and a.frozen and b.frozen and not a.symbolic and not b.symbolic:
            return a.d.keys() == b.d.keys()
        if ta is BoundNative:
            return a.name == b.name and self.same_value(a.obj, b.obj)
        return False

    def region(self, sym):
        return sorted(self.fin_region[sym])

    def fin_apply(self, fn, args):
        """Pointwise application of fn; refines when outcomes differ in kind."""
        syms = []
        for a in args:
            if isinstance(a, Fin):
                for s in a.syms:
                    if s not in syms:
                        syms.append(s)
        if not syms:
            return fn(*args)
        regions = [self.region(s) for s in syms]
        size = 1
        for r in regions:
            size *= len(r)
        if size > PRODUCT_LIMIT:
            self.split_fins(args)
        pos = {s: i for i, s in enumerate(syms)}
        plans = []
        for a in args:
            plans.append([pos[s] for s in a.syms] if isinstance(a, Fin) else None)
        table, errors = {}, {}
        for combo in itertools.product(*regions):
            vals = [a if p is None else a.table[tuple(combo[i] for i in p)] for a, p in zip(args, plans)]
            try:
                table[combo] = fn(*vals)
            except PyExc as e:
                errors[combo] = e
            except NeedSplit:
                self.split_fins(args)
        if errors:
            if table:
                flags = {c: True for c in table}
                flags.update({c: False for c in errors})
                self.split_on(Fin(tuple(syms), flags))
            kinds = set(e.value.cls.name for e in errors.values())
            if len(kinds) > 1:
                self.split_symbol(syms[0])
            raise next(iter(errors.values()))
        return self.mk_fin(tuple(syms), table)

    def split_symbol(self, sym):
        region = self.region(sym)
        if len(region) < 2:
            raise Unsupported('cannot refine %s' % sym)
        raise NeedSplit([(('fin', sym, frozenset((i,))),) for i in region])

    def value_key(self, v):
        """equal keys only for values that same_value() finds the same"""
        t = type(v)
        if t in (str, int, bool, float, bytes):
            return (t, v)
        if t is tuple:
            return (t,) + tuple(self.value_key(x) for x in v)
        if t is AStr:
            return (t, v.enc)
        if t is IntT:
            return (t, v.sym, v.sgn, v.off)
        if t is OrdT or t is Opq:
            return (t, v.name)
        return id(v)

    def split_fins(self, args):
        """Refine one symbol of the given values, keeping together what makes no difference to any of them."""
        rows = {}
        for n, fin in enumerate(args):
            if not isinstance(fin, Fin):
                continue
            for at, s in enumerate(fin.syms):
                per = rows.setdefault(s, {i: [] for i in self.region(s)})
                for combo, value in fin.table.items():
                    if combo[at] in per:
                        per[combo[at]].append((n, combo[:at] + combo[at + 1:], self.value_key(value)))
        best = None
        for s, per in rows.items():
            groups = {}
            for i, row in per.items():
                groups.setdefault(frozenset(row), []).append(i)
            if len(groups) > 1 and (best is None or len(groups) < len(best[1])):
                best = (s, list(groups.values()))
        if best is None:
            self.split_symbol(min(rows, key=lambda s: len(self.fin_region[s])))
        raise NeedSplit([(('fin', best[0], frozenset(g)),) for g in best[1]])

    def split_on(self, fin):
        """Refine so that a boolean-valued Fin gets decided."""
        best = None
        for n, s in enumerate(fin.syms):
            rows = {}
            for combo, value in fin.table.items():
                rows.setdefault(combo[n], []).append((combo[:n] + combo[n + 1:], value))
            groups = {}
            for i, row in rows.items():
                groups.setdefault(tuple(sorted(row)), []).append(i)
            if len(groups) > 1:
                # prefer the split which leaves fewest undecided groups
                undecided = sum(1 for g in groups if len(set(v for _, v in g)) > 1)
                score = (undecided, len(groups))
                if best is None or score < best[0]:
                    best = (score, s, list(groups.values()))
        if best is None:
            raise Unsupported('cannot refine %s' % (fin.syms,))
        raise NeedSplit([(('fin', best[1], frozenset(g)),) for g in best[2]])

    def concretize(self, v):
        """Refine until a Fin is a single value."""
        if isinstance(v, Fin):
            # split by distinct values on one symbol
            if len(v.syms) == 1:
                groups = []
                for (i,), x in v.table.items():
                    for g in groups:
                        if self.same_value(g[0], x):
                            g[1].append(i)
                            break
                    else:
                        groups.append((x, [i]))
                raise NeedSplit([(('fin', v.syms[0], frozenset(g)),) for _, g in groups])
            self.split_fins([v])
        return v

    # -- predicates ----------------------------------------------------------

    def pred(self, key):
        if key in self.preds:
            return self.preds[key]
        raise NeedSplit([(('pred', key, True),), (('pred', key, False),)])

    # -- integers ------------------------------------------------------------

    def integer(self, name, lo=None, hi=None):
        region = self.ints.setdefault(name, [None, None, set()])
        if lo is not None:
            region[0] = lo if region[0] is None else max(lo, region[0])
        if hi is not None:
            region[1] = hi if region[1] is None else min(hi, region[1])
        self.fin_region.setdefault('%' + name, frozenset(range(self.modulus)))
        self.domains['%' + name] = tuple(range(self.modulus))
        self.int_consistent(name)
        return self.int_norm(IntT(name, 1, 0))

    def residues(self, name):
        """(modulus, residues) known of an integer symbol, or None"""
        if name in self.mod_of:
            t, m = self.mod_of[name]
            known = self.residues(t.sym)
            if known is None:
                return None
            g = math.gcd(known[0], m)
            return g, frozenset((t.sgn * r + t.off) % g for r in known[1])
        region = self.fin_region.get('%' + name)
        return None if region is None else (self.modulus, region)

    def candidates(self, name):
        """the few values of an integer symbol, or None"""
        lo, hi, holes = self.ints[name]
        if lo is None or hi is None or hi - lo >= 2 * self.modulus:
            return None
        known = self.residues(name)
        return [x for x in range(lo, hi + 1) if x not in holes and (known is None or x % known[0] in known[1])]

    def int_consistent(self, name):
        xs = self.candidates(name)
        if xs is not None and not xs:
            raise Infeasible()

    def int_norm(self, t):
        if isinstance(t, IntT):
            while t.sym in self.int_alias:
                t = IntT(self.int_alias[t.sym], t.sgn, t.off)
            xs = self.candidates(t.sym)
            if xs is not None:
                if not xs:
                    raise Infeasible()
                if len(xs) == 1:
                    return t.sgn * xs[0] + t.off
        return t

    def int_bounds(self, t):
        lo, hi, holes = self.ints[t.sym]
        if t.sgn > 0:
            return (None if lo is None else lo + t.off, None if hi is None else hi + t.off)
        return (None if hi is None else -hi + t.off, None if lo is None else -lo + t.off)

    def int_cmp(self, t, op, c):
        """t op c with op in '<', '==' and a host integer (or float) c."""
        t = self.int_norm(t)
        if not isinstance(t, IntT):
            return t < c if op == '<' else t == c
        if isinstance(c, float):
            if op == '==':
                if c != int(c):
                    return False
                c = int(c)
            else:
                c = math.ceil(c)
        lo, hi = self.int_bounds(t)
        if op == '<':
            if hi is not None and hi < c:
                return True
            if lo is not None and lo >= c:
                return False
            if t.sgn > 0:      # n + off < c  <=>  n < c - off
                k = c - t.off
                raise NeedSplit([(('int', t.sym, 'lt', k, True),), (('int', t.sym, 'lt', k, False),)])
            k = t.off - c      # -n + off < c <=> n > off - c <=> not n < off - c + 1
            raise NeedSplit([(('int', t.sym, 'lt', k + 1, False),), (('int', t.sym, 'lt', k + 1, True),)])
        n = (c - t.off) * t.sgn
        nlo, nhi, holes = self.ints[t.sym]
        if (nlo is not None and n < nlo) or (nhi is not None and n > nhi) or n in holes:
            return False
        known = self.residues(t.sym)
        if known is not None and n % known[0] not in known[1]:
            return False
        raise NeedSplit([(('int', t.sym, 'eq', n, True),), (('int', t.sym, 'eq', n, False),)])

    def int_mod(self, t, m):
        t = self.int_norm(t)
        if not isinstance(t, (IntT, DivT)):
            return t % m
        if not isinstance(m, int) or m <= 0:
            raise Unsupported('modulus')
        div = 1
        if isinstance(t, DivT):
            div, t = t.div, t.base
        if t.sym in self.mod_of:
            base, big = self.mod_of[t.sym]
            if t.sgn == 1 and big % (m * div) == 0:
                # (base % big + off) // div % m, and m * div divides big
                t = IntT(base.sym, base.sgn, base.off + t.off)
                return self.int_mod(DivT(t, div) if div > 1 else t, m)
            raise Unsupported('remainder of a remainder')
        if self.modulus % (m * div):
            if self.modulus * m * div // math.gcd(self.modulus, m * div) <= 2000:
                raise NeedModulus(m * div)
            if div > 1:
                raise Unsupported('digit of a large number')
            return self.large_mod(t, m)
        name = '%' + t.sym
        return self.mk_fin((name,), {(r,): ((t.sgn * r + t.off) // div) % m for r in self.region(name)})

    def large_mod(self, t, m):
        """t % m as an integer of its own, exact on intervals within one period"""
        lo, hi = self.int_bounds(t)
        if lo is not None and hi is not None and lo // m == hi // m:
            return self.int_norm(IntT(t.sym, t.sgn, t.off - lo // m * m))
        for edge in (0, m, 2 * m, -m, -2 * m):
            # single out the first periods; beyond them every remainder occurs
            if (lo is None or lo < edge) and (hi is None or hi >= edge):
                self.int_cmp(t, '<', edge)
        if lo is not None and hi is not None and hi - lo < 2 * m:
            self.int_cmp(t, '<', (lo // m + 1) * m)
        name = '%s%%%d%s%+d' % (t.sym, m, '' if t.sgn > 0 else '-', t.off)
        self.mod_of[name] = (t, m)
        region = self.ints.setdefault(name, [None, None, set()])
        region[0] = 0 if region[0] is None else max(0, region[0])
        region[1] = m - 1 if region[1] is None else min(m - 1, region[1])
        self.int_consistent(name)
        return self.int_norm(IntT(name, 1, 0))

    # -- order atoms ---------------------------------------------------------

    def ord_root(self, name):
        while name in self.same:
            name = self.same[name]
        return name

    def ord_less(self, a, b):
        """True / False / None"""
        ra, rb = self.ord_root(a), self.ord_root(b)
        if ra == rb:
            return False
        edges = {}
        for x, y in self.less:
            edges.setdefault(self.ord_root(x), set()).add(self.ord_root(y))

        def reach(x, y):
            seen, todo = set(), [x]
            while todo:
                k = todo.pop()
                for z in edges.get(k, ()):
                    if z == y:
                        return True
                    if z not in seen:
                        seen.add(z)
                        todo.append(z)
            return False
        if reach(ra, rb):
            return True
        if reach(rb, ra):
            return False
        return None

    def ord_split(self, a, b):
        raise NeedSplit([(('lt', a, b),), (('ordeq', a, b),), (('lt', b, a),)])

    # -- strings -------------------------------------------------------------

    def piece(self, obj, key):
        n = self.piece_index.get(key)
        if n is None:
            n = self.piece_index[key] = len(self.pieces)
            self.pieces.append(obj)
        return chr(PUA + n)

    def atom(self, name, **kw):
        a = self.atoms.get(name)
        if a is None:
            a = self.atoms[name] = Atom(name, **kw)
        return a

    def atom_enc(self, a):
        return self.piece(a, ('atom', a.name))

    def fin_key(self, fin):
        if fin._key is None:
            fin._key = ('fin', fin.syms, tuple((k, self.struct(v)) for k, v in sorted(fin.table.items(), key=lambda kv: kv[0])))
        return fin._key

    def struct(self, v):
        """Structural key of an (immutable) value."""
        if isinstance(v, Fin):
            return self.fin_key(v)
        if isinstance(v, AStr):
            return ('s', tuple(self.struct_piece(ch) for ch in self.resolve(v.enc)))
        if isinstance(v, IntT):
            return ('i', v.sym, v.sgn, v.off)
        if isinstance(v, (OrdT, Opq)):
            return ('o', v.name)
        if isinstance(v, tuple):
            return ('t',) + tuple(self.struct(x) for x in v)
        if isinstance(v, (str, int, float, bool, type(None), bytes)):
            return (type(v).__name__, v)
        if isinstance(v, Rec):
            return ('rec', v.rel.name, v.index)
        if isinstance(v, AClass):
            return ('class', v.name)
        if isinstance(v, SetT):
            return ('set', v.expr)
        if isinstance(v, AList):
            return ('l',) + tuple(self.struct(x) for x in v.items)
        if isinstance(v, ADict):
            return ('d',) + tuple((self.struct(k), self.struct(x)) for k, x in v.d.values())
        if isinstance(v, ASet):
            return ('fs',) + tuple(sorted((self.struct(k) for k in v.d.values()), key=repr))
        return ('id', id(v))

    def struct_piece(self, ch):
        if not is_pua(ch):
            return ch
        p = self.pieces[ord(ch) - PUA]
        return ('atom', p.name) if isinstance(p, Atom) else self.struct(p)

    def enc_of(self, v):
        """Encoding of a string value."""
        if isinstance(v, str):
            return v
        if isinstance(v, AStr):
            return self.resolve(v.enc)
        if isinstance(v, Fin):
            if all(isinstance(x, str) for x in v.table.values()):
                return self.piece(v, self.fin_key(v))
            raise NeedSplit(self.alternatives_of(v))
        raise Unsupported('not a string: %r' % (v,))

    def alternatives_of(self, v):
        try:
            self.concretize(v)
        except NeedSplit as e:
            return e.alternatives

    def mkstr(self, enc):
        enc = self.resolve(enc)
        for ch in enc:
            if is_pua(ch):
                break
        else:
            return enc
        if len(enc) == 1:
            p = self.pieces[ord(enc) - PUA]
            if isinstance(p, Fin):
                return p
        return AStr(enc)

    def resolve(self, enc):
        for ch in enc:
            if is_pua(ch):
                break
        else:
            return enc
        out = []
        for ch in enc:
            if not is_pua(ch):
                out.append(ch)
                continue
            p = self.pieces[ord(ch) - PUA]
            if isinstance(p, Atom):
                r = self.resolve_atom(p)
                out.append(ch if r is None else self.resolve(r))
            elif isinstance(p, Fin) and p.syms:
                out.append(ch)
            else:
                out.append(ch)
        return ''.join(out)

    def resolve_atom(self, a):
        name = a.name
        if name in self.const:
            return self.const[name]
        if name in self.empty:
            return ''
        if name in self.derived:
            op, base = self.derived[name]
            r = self.resolve_atom(base)
            return None if r is None else ''.join(self.case_piece(ch, op) for ch in self.resolve(r))
        if name in self.atom_alias:
            other = self.atoms.get(self.atom_alias[name])
            if other is not None:
                # same text: both sets of constraints apply
                other.forbids = other.forbids | a.forbids
                other.lower = other.lower or a.lower
                other.stripped = other.stripped or a.stripped
                if name in self.nonempty:
                    self.nonempty.add(other.name)
                return self.atom_enc(other)
        return self.subst.get(name)

    def piece_of(self, ch):
        return self.pieces[ord(ch) - PUA]

    def case_piece(self, ch, op):
        """one piece of a text in another letter case"""
        if not is_pua(ch):
            return getattr(ch, op)()
        p = self.piece_of(ch)
        if isinstance(p, Fin):
            return self.enc_of(self.fin_apply(lambda x: getattr(x, op)(), [p]))
        if isinstance(p, IntT):
            return ch
        if isinstance(p, Atom):
            if op in ('lower', 'casefold') and p.lower or p.name.startswith(op + '('):
                return ch
            a = self.atom('%s(%s)' % (op, p.name), forbids=frozenset(c for c in p.forbids if not c.isalpha()), lower=(op == 'lower'), stripped=p.stripped)
            self.derived.setdefault(a.name, (op, p))
            return self.atom_enc(a)
        raise Unsupported('letter case of %s' % self.show(p))

    def atom_nonempty(self, a):
        if a.name in self.derived:
            return self.atom_nonempty(self.derived[a.name][1])
        if a.name in self.nonempty:
            return True
        if a.name in self.empty:
            return False
        return None

    def measure(self, enc):
        """positions are being taken in the text: its tokens count as one character from now on"""
        for ch in enc:
            if is_pua(ch) and isinstance(self.piece_of(ch), Atom):
                self.measured.add(self.piece_of(ch).name)

    def still(self, a):
        """the token is about to be taken apart: no position may have been taken in a text containing it"""
        if a.name in self.measured:
            if a.name in self.expanded or a.name.count('.rest') >= 2 or '.rest' not in a.name and '.' in a.name:
                raise Unsupported('positions in an opaque string')
            raise NeedSplit([(('expanded', a.name),)])

    def expand_first(self, a):
        """a is known to be non empty: a := first + rest"""
        if a.name in self.derived:
            return self.expand_first(self.derived[a.name][1])
        self.still(a)
        first = self.char(a.name + '.first', a)
        rest = self.atom(a.name + '.rest', forbids=a.forbids, lower=a.lower, alphabet=a.alphabet)
        if a.name in self.expanded:
            self.nonempty.add(rest.name)
            if rest.name in self.expanded:
                self.expand_first(rest)
        self.subst[a.name] = self.enc_of(first) + self.atom_enc(rest)

    def expand_last(self, a):
        if a.name in self.derived:
            return self.expand_last(self.derived[a.name][1])
        self.still(a)
        init = self.atom(a.name + '.init', forbids=a.forbids, lower=a.lower, alphabet=a.alphabet)
        last = self.char(a.name + '.last', a)
        self.subst[a.name] = self.atom_enc(init) + self.enc_of(last)

    def occurs(self, a, c):
        """does the opaque text contain the character; afterwards it excludes it, or is split at its first occurrence"""
        if c in a.forbids or (a.lower and c.lower() != c) or (a.alphabet and c not in a.alphabet):
            return False
        if a.name in self.derived and c.lower() == c == c.upper():
            return self.occurs(self.derived[a.name][1], c)
        if '(' in a.name or a.stripped:
            return self.pred(('contains', a.name, c))
        if a.name.count('.after') >= 2:
            raise Unsupported('many occurrences in an opaque string')
        if not self.pred(('contains', a.name, c)):
            a.forbids = frozenset(a.forbids) | {c}
            return False
        if a.name not in self.subst:
            self.still(a)
            before = self.atom(a.name + '.before', forbids=frozenset(a.forbids) | {c}, lower=a.lower, alphabet=a.alphabet)
            after = self.atom(a.name + '.after', forbids=a.forbids, lower=a.lower, alphabet=a.alphabet)
            self.subst[a.name] = self.atom_enc(before) + c + self.atom_enc(after)
        return True

    def locate(self, enc, c):
        """the text with every opaque part either free of the character or split at its occurrences"""
        while True:
            enc = self.resolve(enc)
            for ch in enc:
                if is_pua(ch) and isinstance(self.piece_of(ch), Atom):
                    a = self.piece_of(ch)
                    if self.occurs(a, c):
                        if self.resolve_atom(a) is None:
                            raise Unsupported('occurrence in an opaque string')
                        break
            else:
                return enc

    def char(self, name, a):
        alphabet = a.alphabet or ALPHABET
        domain = [c for c in alphabet if c not in a.forbids and (not a.lower or c.lower() == c)
                  and not (a.stripped and c in WS)]
        return self.symbol(name, domain)

    def is_char_piece(self, ch):
        """a literal character or a Fin over single characters"""
        if not is_pua(ch):
            return True
        p = self.piece_of(ch)
        return isinstance(p, Fin) and all(len(v) == 1 for v in p.table.values())

    def char_value(self, ch):
        return ch if not is_pua(ch) else self.piece_of(ch)

    def split_empty(self, a):
        while a.name in self.derived:
            a = self.derived[a.name][1]
        raise NeedSplit([(('empty', a.name, False),), (('empty', a.name, True),)])

    def first_char(self, enc):
        """(char value, rest enc) or None when empty; refines as needed."""
        while True:
            enc = self.resolve(enc)
            if not enc:
                return None
            ch = enc[0]
            if self.is_char_piece(ch):
                return self.char_value(ch), enc[1:]
            p = self.piece_of(ch)
            if isinstance(p, Atom):
                ne = self.atom_nonempty(p)
                if ne is None:
                    self.split_empty(p)
                self.expand_first(p)
                continue
            if isinstance(p, Fin):
                self.concretize(p)
            raise Unsupported('character of %s' % self.show(p))

    def last_char(self, enc):
        while True:
            enc = self.resolve(enc)
            if not enc:
                return None
            ch = enc[-1]
            if self.is_char_piece(ch):
                return self.char_value(ch), enc[:-1]
            p = self.piece_of(ch)
            if isinstance(p, Atom):
                ne = self.atom_nonempty(p)
                if ne is None:
                    self.split_empty(p)
                self.expand_last(p)
                continue
            if isinstance(p, Fin):
                self.concretize(p)
            raise Unsupported('character of %s' % self.show(p))

    def str_empty(self, enc):
        """True / False, refining"""
        enc = self.resolve(enc)
        if not enc:
            return True
        pending = None
        for ch in enc:
            if not is_pua(ch):
                return False
            p = self.piece_of(ch)
            if isinstance(p, Atom):
                ne = self.atom_nonempty(p)
                if ne:
                    return False
                pending = pending or p
            elif isinstance(p, Fin):
                lens = set(bool(v) for v in p.table.values())
                if lens == {True}:
                    return False
                if len(lens) > 1:
                    self.split_on(Fin(p.syms, {k: bool(v) for k, v in p.table.items()}))
            else:
                return False   # str(number) and other never-empty terms
        if pending is None:
            return True
        self.split_empty(pending)

    def excludes(self, enc, chars, refine=True):
        """No piece of enc can contain any of chars (literal characters aside)."""
        chars = frozenset(chars)
        for ch in enc:
            if not is_pua(ch):
                continue
            p = self.piece_of(ch)
            if isinstance(p, Atom):
                if chars - p.forbids and not (p.alphabet and not (chars & frozenset(p.alphabet))):
                    return False
            elif isinstance(p, Fin):
                flags = {k: bool(chars & set(v)) for k, v in p.table.items()}
                if any(flags.values()):
                    if refine and not all(flags.values()):
                        self.split_on(Fin(p.syms, flags))
                    if refine:
                        self.concretize(p)
                    return False
            elif isinstance(p, IntT):
                if chars & set('-0123456789'):
                    return False
            else:
                return False
        return True

    def eq_str(self, ea, eb):
        ea, eb = self.resolve(ea), self.resolve(eb)
        if ea == eb:
            return True
        for x, y in self.differ:
            # what was told apart as a whole stays apart, however its parts were refined since
            if x in self.atoms and y in self.atoms:
                x, y = self.resolve(self.atom_enc(self.atoms[x])), self.resolve(self.atom_enc(self.atoms[y]))
                if (x, y) in ((ea, eb), (eb, ea)):
                    return False
        for x, y, answer in self.eq_known:
            x, y = self.resolve(x), self.resolve(y)
            if (x, y) in ((ea, eb), (eb, ea)):
                return answer
        for x, y in ((ea, eb), (eb, ea)):
            if not any(is_pua(c) for c in y):
                for name, literal in self.neq:
                    if literal == y and name in self.atoms and self.resolve(self.atom_enc(self.atoms[name])) == x:
                        return False
        a, b = ea, eb
        while a and b:
            if a[0] == b[0]:
                a, b = a[1:], b[1:]
            elif a[-1] == b[-1]:
                a, b = a[:-1], b[:-1]
            else:
                break
        if not a and not b:
            return True
        if not a or not b:
            rest = a or b
            return self.str_empty(rest)
        # quick refutation by first / last characters
        for i in (0, -1):
            ca, cb = a[i], b[i]
            if self.is_char_piece(ca) and self.is_char_piece(cb):
                if self.disjoint_chars(ca, cb):
                    return False
            elif self.is_char_piece(ca) or self.is_char_piece(cb):
                c, o = (ca, cb) if self.is_char_piece(ca) else (cb, ca)
                p = self.piece_of(o)
                if isinstance(p, Atom) and self.atom_nonempty(p):
                    values = [c] if not is_pua(c) else list(self.piece_of(c).table.values())
                    if all(v in p.forbids or (p.lower and v.lower() != v) for v in values):
                        return False
                elif isinstance(p, IntT) and not is_pua(c) and c not in '-0123456789':
                    return False
        # length reasoning
        la, lb = self.len_bounds(a), self.len_bounds(b)
        if (la[1] is not None and lb[0] > la[1]) or (lb[1] is not None and la[0] > lb[1]):
            return False
        # a definite character one side which the other side cannot contain
        for x, y in ((a, b), (b, a)):
            for ch in x:
                if not is_pua(ch) and ch not in y and self.excludes(y, (ch,), refine=False):
                    return False
        if self.is_char_piece(a[0]) and self.is_char_piece(b[0]):
            e = self.fin_apply(lambda x, y: x == y, [self.char_value(a[0]), self.char_value(b[0])])
            if len(a) == 1 and len(b) == 1:
                return e
            if not self.decide(e):
                return False
            return self.eq_str(a[1:], b[1:])
        if self.is_char_piece(a[-1]) and self.is_char_piece(b[-1]):
            e = self.fin_apply(lambda x, y: x == y, [self.char_value(a[-1]), self.char_value(b[-1])])
            if not self.decide(e):
                return False
            return self.eq_str(a[:-1], b[:-1])
        if len(a) == 1 and len(b) == 1 and is_pua(a) and is_pua(b):
            pa, pb = self.piece_of(a), self.piece_of(b)
            if isinstance(pa, Fin) and isinstance(pb, Fin):
                return self.fin_apply(lambda x, y: x == y, [pa, pb])
            if isinstance(pa, IntT) and isinstance(pb, IntT):
                return self.I.eq(pa, pb)
            if isinstance(pa, Atom) and isinstance(pb, Atom):
                key = ('same',) + tuple(sorted((pa.name, pb.name)))
                if key in self.preds and not self.preds[key]:
                    return False
                if '(' in pa.name or '(' in pb.name: # derived atoms: no substitution
                    return self.pred(key)
                raise NeedSplit([(('atomsame', pb.name, pa.name),), (('pred', key, False),)])
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and is_pua(x):
                p = self.piece_of(x)
                if isinstance(p, Fin):
                    if any(is_pua(c) for c in y):
                        self.concretize(p)
                    return self.fin_apply(lambda v: v == y, [p])
                if isinstance(p, IntT):
                    if not any(is_pua(c) for c in y):
                        try:
                            n = int(y)
                        except ValueError:
                            return False
                        if str(n) != y:
                            return False
                        return self.I.eq(p, n)
                    return self.pred(('eq', self.struct_key(x), self.struct_key(y)))
                if isinstance(p, Atom):
                    if not any(is_pua(c) for c in y):
                        if (set(y) & p.forbids) or (p.lower and y.lower() != y) or (p.stripped and y.strip() != y):
                            return False
                        if p.alphabet and not set(y) <= set(p.alphabet):
                            return False
                        if (p.name, y) in self.neq:
                            return False
                        if '(' in p.name:
                            return self.pred(('eq', p.name, y))
                        raise NeedSplit([(('const', p.name, y, True),), (('const', p.name, y, False),)])
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and is_pua(x) and isinstance(self.piece_of(x), Atom) and any(self.is_char_piece(c) for c in y):
                p = self.piece_of(x)
                if '(' in p.name:
                    break
                # compare by characters
                if self.str_empty(x):
                    return self.str_empty(y)
                if self.is_char_piece(y[0]):
                    self.expand_first(p)
                elif self.is_char_piece(y[-1]):
                    self.expand_last(p)
                else:
                    break
                return self.eq_str(x, y)
        for x in (a, b):
            for ch in x:
                if is_pua(ch) and isinstance(self.piece_of(ch), Fin):
                    self.concretize(self.piece_of(ch))
        for x, y in ((a, b), (b, a)):
            if self.is_char_piece(y[0]) and is_pua(x[0]) and isinstance(self.piece_of(x[0]), Atom) and '(' not in self.piece_of(x[0]).name:
                p = self.piece_of(x[0])
                if self.atom_nonempty(p) is None:
                    self.split_empty(p)
                self.expand_first(p)
                return self.eq_str(x, y)
            if self.is_char_piece(y[-1]) and is_pua(x[-1]) and isinstance(self.piece_of(x[-1]), Atom) and '(' not in self.piece_of(x[-1]).name:
                p = self.piece_of(x[-1])
                if self.atom_nonempty(p) is None:
                    self.split_empty(p)
                self.expand_last(p)
                return self.eq_str(x, y)
        answer = self.pred(('eq',) + tuple(sorted((self.struct_key(a), self.struct_key(b)))))
        self.eq_known.append((a, b, answer))
        return answer

    def contradictory(self):
        """texts that were told apart have become the same: the class contains no execution"""
        def whole(name):
            return self.resolve(self.atom_enc(self.atoms[name]))
        for x, y in self.differ:
            if x in self.atoms and y in self.atoms and whole(x) == whole(y):
                return True
        for name, literal in self.neq:
            if name in self.atoms and whole(name) == literal:
                return True
        for x, y, answer in self.eq_known:
            x, y = self.resolve(x), self.resolve(y)
            if (x == y) != answer and (x == y or not any(is_pua(c) for c in x + y)):
                return True
        for name, a in list(self.atoms.items()):
            if a.forbids and '(' not in name and a.forbids & set(whole(name)):
                return True
            if name in self.nonempty and whole(name) == '':
                return True
        return False

    def struct_key(self, enc):
        return repr(self.struct(AStr(enc)))

    def len_bounds(self, enc):
        lo, hi = 0, 0
        for ch in enc:
            if not is_pua(ch):
                lo += 1
                hi = None if hi is None else hi + 1
                continue
            p = self.piece_of(ch)
            if isinstance(p, Fin):
                lens = [len(v) for v in p.table.values()]
                lo += min(lens)
                hi = None if hi is None else hi + max(lens)
            elif isinstance(p, Atom):
                if self.atom_nonempty(p):
                    lo += 1
                hi = None
            else:
                lo += 1
                hi = None
        return lo, hi

    def disjoint_chars(self, ca, cb):
        va = {ca} if not is_pua(ca) else set(self.piece_of(ca).table.values())
        vb = {cb} if not is_pua(cb) else set(self.piece_of(cb).table.values())
        return not (va & vb)

    def decide(self, v):
        """Host boolean of True / False / Fin(bool), refining."""
        if isinstance(v, Fin):
            vals = set(bool(x) for x in v.table.values())
            if len(vals) == 1:
                return vals.pop()
            self.split_on(Fin(v.syms, {k: bool(x) for k, x in v.table.items()}))
        return bool(v)

    # -- symbolic sets -------------------------------------------------------

    EMPTY = ('empty',)

    def set_op(self, op, a, b):
        if op == 'and':
            if self.set_is_empty_known(a) or self.set_is_empty_known(b):
                return self.EMPTY
            if a == b or self.subset_known(a, b):
                return a
            if self.subset_known(b, a):
                return b
            return ('and',) + tuple(sorted((a, b), key=repr))
        if op == 'or':
            if self.set_is_empty_known(a) or self.subset_known(a, b):
                return b
            if self.set_is_empty_known(b) or self.subset_known(b, a):
                return a
            return ('or',) + tuple(sorted((a, b), key=repr))
        if op == 'sub':
            if self.set_is_empty_known(a) or self.subset_known(a, b):
                return self.EMPTY
            if self.set_is_empty_known(b):
                return a
            return ('sub', a, b)
        raise Unsupported('set operation %s' % op)

    def set_is_empty_known(self, a):
        return a == self.EMPTY or self.preds.get(('empty', a)) is True

    def subset_known(self, a, b):
        if a == b or self.set_is_empty_known(a):
            return True
        if self.preds.get(('subset', a, b)) is True:
            return True
        if a[0] == 'and' and (a[1] == b or a[2] == b):
            return True
        return False

    def set_empty(self, a):
        if a == self.EMPTY:
            return True
        if a[0] == 'sub':
            return self.set_subset(a[1], a[2])
        if a[0] == 'or':
            return self.set_empty(a[1]) and self.set_empty(a[2])
        return self.pred(('empty', a))

    def set_subset(self, a, b):
        if self.subset_known(a, b):
            return True
        if self.set_is_empty_known(b):
            return self.set_empty(a)
        if b[0] == 'and':
            return self.set_subset(a, b[1]) and self.set_subset(a, b[2])
        if a[0] == 'or':
            return self.set_subset(a[1], b) and self.set_subset(a[2], b)
        return self.pred(('subset', a, b))

    def set_eq(self, a, b):
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == 'and' and y in x[1:]:      # a & b == a  <=>  a <= b
                other = x[2] if x[1] == y else x[1]
                return self.set_subset(y, other)
            if x[0] == 'or' and y in x[1:]:
                other = x[2] if x[1] == y else x[1]
                return self.set_subset(other, y)
            if x == self.EMPTY:
                return self.set_empty(y)
        return self.set_subset(a, b) and self.set_subset(b, a)
