"""Whole-program rules over the resolved syntax tree of the current source.

Every rule walks all modules of the package, resolves names through imports and
module scopes, and reports the construct (file:line and function) that breaks
it.  A rule whose anchors vanished is Broken, never silently satisfied."""

import ast
import os
import re
import warnings


class Undecided(Exception):
    pass


class Broken(Exception):
    pass


class RuleFinding(object):
    def __init__(self, rule, message, construct):
        self.rule, self.message, self.construct = rule, message, construct

    def text(self):
        return '[%s] %s\n    construct: %s' % (self.rule, self.message, self.construct)


class RuleResult(object):
    def __init__(self, name, doc):
        self.name, self.doc = name, doc
        self.sites = 0
        self.obligations = 0
        self.discharged = 0
        self.findings = []
        self.samples = []
        self.functions = {}
        self.undecided = []

    def site(self, text):
        self.sites += 1
        self.obligations += 1
        if len(self.samples) < 12:
            self.samples.append(text)

    def ok(self):
        self.discharged += 1

    def bad(self, message, construct):
        self.findings.append(RuleFinding(self.name, message, construct))


# ---------------------------------------------------------------------------
# program model

class Module(object):
    def __init__(self, name, path, rel):
        self.name, self.path, self.rel = name, path, rel
        with open(path, encoding='utf-8') as f:
            source = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(source, path)
        self.imports = {}       # local name -> ('module', name) | ('name', module, name)
        self.stars = []
        self.functions = {}     # qualified name inside the module -> node
        self.classes = {}       # name -> ClassDef
        self.assigned = {}      # module level name -> value node (last)
        self.parents = {}
        for node in ast.walk(self.tree):
            for child in ast.iter_child_nodes(node):
                self.parents[child] = node
        package = name.rsplit('.', 1)[0] if not path.endswith('__init__.py') else name
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    parts = package.split('.')
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = '.'.join(parts + ([node.module] if node.module else []))
                for a in node.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('name', base, a.name)
        self.collect(self.tree.body, '')
        for node in self.tree.body:
            if isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        self.assigned[t.id] = node.value

    def collect(self, body, prefix):
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions.setdefault(prefix + node.name, node)
                self.collect(node.body, prefix + node.name + '.')
            elif isinstance(node, ast.ClassDef):
                if not prefix:
                    self.classes[node.name] = node
                self.collect(node.body, prefix + node.name + '.')
            elif hasattr(node, 'body'):
                for field in ('body', 'orelse', 'finalbody'):
                    self.collect(getattr(node, field, []) or [], prefix)
                for h in getattr(node, 'handlers', []):
                    self.collect(h.body, prefix)


class Program(object):
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        base = os.path.join(repo, 'utg')
        for folder, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(folder, f)
                    rel = os.path.relpath(path, repo)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    try:
                        self.modules[name] = Module(name, path, rel)
                    except SyntaxError as e:
                        raise Broken('%s does not parse: %s' % (rel, e))
        if 'utg' not in self.modules or len(self.modules) < 10:
            raise Broken('package utg not found')

    def live(self):
        return [m for m in self.modules.values() if not m.name.startswith('utg.migrations')]

    def migrations(self):
        return [m for m in self.modules.values() if m.name.startswith('utg.migrations.')]

    def resolve(self, module, node, depth=0):
        """('module', name) | ('def', module name, name) | ('class', module name, name) | ('ext', dotted) | None"""
        if depth > 8:
            return None
        if isinstance(node, ast.Name):
            return self.lookup(module, node.id, depth)
        if isinstance(node, ast.Attribute):
            base = self.resolve(module, node.value, depth + 1)
            if base is None:
                return None
            if base[0] == 'module':
                return self.member(base[1], node.attr, depth)
            if base[0] == 'ext':
                return ('ext', base[1] + '.' + node.attr)
            if base[0] == 'class':
                return ('attr', base[1], base[2], node.attr)
        return None

    def lookup(self, module, name, depth=0):
        if name in module.classes:
            return ('class', module.name, name)
        if name in module.functions:
            return ('def', module.name, name)
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == 'module':
                return ('module', imp[1]) if imp[1] in self.modules else ('ext', imp[1])
            return self.member(imp[1], imp[2], depth + 1)
        for star in module.stars:
            if star in self.modules:
                found = self.lookup(self.modules[star], name, depth + 1)
                if found:
                    return found
        if name in module.assigned:
            value = module.assigned[name]
            if isinstance(value, (ast.Name, ast.Attribute)):
                return self.resolve(module, value, depth + 1)
        return None

    def member(self, base, name, depth):
        if base + '.' + name in self.modules:
            return ('module', base + '.' + name)
        if base in self.modules:
            return self.lookup(self.modules[base], name, depth + 1)
        return ('ext', base + '.' + name)

    def bases(self, module, cls, seen=()):
        """the class and its bases inside the package"""
        out = [(module, cls)]
        for b in cls.bases:
            r = self.resolve(module, b)
            if r and r[0] == 'class' and (r[1], r[2]) not in seen:
                m = self.modules[r[1]]
                out.extend(self.bases(m, m.classes[r[2]], seen + ((r[1], r[2]),)))
        return out

    def enclosing(self, module, node):
        names = []
        p = node
        while p in module.parents:
            p = module.parents[p]
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(p.name)
        return '.'.join(reversed(names)) or '<module>'

    def where(self, module, node):
        return '%s:%d (%s.%s)' % (module.rel, node.lineno, module.name, self.enclosing(module, node))


PROGRAMS = {}


def program(repo):
    if repo not in PROGRAMS:
        PROGRAMS[repo] = Program(repo)
    return PROGRAMS[repo]


# ---------------------------------------------------------------------------
# relations

def relation_tables(p):
    """(module, class name) -> the evaluated enumeration, for every enumeration of the package"""
    from .interp import Interp
    from .domain import RelClass, Unsupported, PyExc
    interp = Interp(p.repo, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs'), {})
    tables = {}
    for m in p.live():
        if not m.classes:
            continue
        try:
            env = interp.load(m.name).env
        except (Unsupported, PyExc):
            continue
        for name in m.classes:
            if isinstance(env.get(name), RelClass):
                tables[(m.name, name)] = env[name]
    if len(tables) < 10:
        raise Undecided('only %d enumerations found' % len(tables))
    return tables


RELATION_ATTRIBUTES = {'records', 'select', 'columns', 'primary', 'mro', 'get_from_name'}


def record_references(res, p, modules):
    from .domain import MISSING
    tables = relation_tables(p)
    seen = {}
    for module in modules:
        for node in ast.walk(module.tree):
            if not (isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load)):
                continue
            base = p.resolve(module, node.value)
            if not base or base[0] != 'class' or base[1:] not in tables:
                continue
            rel = tables[base[1:]]
            if node.attr in RELATION_ATTRIBUTES or node.attr.startswith('_') or node.attr.startswith('index_'):
                continue
            res.site('%s %s.%s' % (p.where(module, node), base[2], node.attr))
            if rel.lookup(node.attr) is not MISSING:
                res.ok()
            else:
                key = (module.rel, base[2], node.attr)
                if key not in seen:
                    seen[key] = True
                    res.bad('%s refers to %s.%s, which does not exist' % (module.rel, base[2], node.attr), p.where(module, node))
        res.functions['%s (module)' % module.name] = module.rel


def rule_migration_vocabulary(res, p):
    """every category a migration refers to exists, so that the migration can be loaded and stored words can be brought forward"""
    ms = p.migrations()
    if len(ms) < 9:
        raise Undecided('only %d migrations found' % len(ms))
    record_references(res, p, ms)
    if res.sites < 100:
        raise Undecided('only %d references found in the migrations' % res.sites)


def rule_vocabulary_references(res, p):
    """every category, part of speech or relation record the library refers to exists"""
    record_references(res, p, p.live())
    if res.sites < 10:
        raise Undecided('only %d references found' % res.sites)


LIVE_TABLES = ('utg.data', 'utg.restrictions', 'utg.words', 'utg.dictionary', 'utg.templates')


def rule_frozen_migrations(res, p):
    """a migration leads from one recorded layout to another recorded layout: it must not take its layouts from the tables of the running library, which change with every later migration"""
    ms = p.migrations()
    if len(ms) < 9:
        raise Undecided('only %d migrations found' % len(ms))
    for module in ms:
        res.site(module.rel)
        res.functions['%s (module)' % module.name] = module.rel
        hit = None
        for node in ast.walk(module.tree):
            if isinstance(node, (ast.Attribute, ast.Name)):
                r = p.resolve(module, node)
                if isinstance(node, ast.Name) and node.id in module.imports and module.imports[node.id][0] == 'name':
                    imp = module.imports[node.id]
                    if imp[1] in LIVE_TABLES:
                        hit = node
                if isinstance(node, ast.Attribute) and isinstance(node.value, (ast.Name, ast.Attribute)):
                    b = p.resolve(module, node.value)
                    if b and b[0] == 'module' and b[1] in LIVE_TABLES:
                        hit = node
                    if b and b[0] == 'module' and b[1] == 'utg.logic' and node.attr in ('get_caches', 'get_raw_caches'):
                        hit = node
                if r and r[0] == 'def' and r[1] == 'utg.logic' and r[2] in ('get_caches', 'get_raw_caches'):
                    hit = node
            if hit is not None:
                break
        if hit is None:
            res.ok()
        else:
            res.bad('%s takes a layout from the running library (%s)' % (module.rel, ast.unparse(hit)), p.where(module, hit))


# ---------------------------------------------------------------------------
# errors

PLACEHOLDER = re.compile(r'%\((\w+)\)')


def error_classes(p):
    module = p.modules.get('utg.exceptions')
    if module is None or 'UtgError' not in module.classes:
        raise Undecided('utg.exceptions.UtgError is missing')
    found = {}
    for name, cls in module.classes.items():
        chain = p.bases(module, cls)
        if any(c.name == 'UtgError' for m, c in chain):
            found[name] = (cls, chain)
    return module, found


def message_of(module, chain):
    for m, c in chain:
        for node in c.body:
            if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'MSG' for t in node.targets):
                v = node.value
                if isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, str)):
                    return v.value
                try:
                    return ast.literal_eval(v)
                except ValueError:
                    raise Undecided('the message of %s is computed' % c.name)
    return None


def rule_error_arguments(res, p):
    """every place that raises a library error raises a concrete error and supplies every argument its message mentions (a missing one replaces the documented error with another failure)"""
    module, errors = error_classes(p)
    init = None
    for m in p.modules.values():
        if m.name.startswith('utg.migrations'):
            continue
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            r = p.resolve(m, node.func)
            if not r or r[0] != 'class' or r[1] != 'utg.exceptions' or r[2] not in errors:
                continue
            where = p.where(m, node)
            res.site('%s %s' % (where, r[2]))
            cls, chain = errors[r[2]]
            own_init = any(isinstance(s, ast.FunctionDef) and s.name == '__init__' for mm, c in chain if c.name != 'UtgError' for s in c.body)
            if own_init or any(k.arg is None for k in node.keywords) or node.args:
                res.undecided.append('%s is created in a way this rule does not follow at %s' % (r[2], where))
                res.ok()
                continue
            msg = message_of(module, chain)
            if msg is None:
                res.bad('%s has no message and cannot be raised' % r[2], where)
                continue
            needed = set(PLACEHOLDER.findall(msg))
            given = {k.arg for k in node.keywords}
            if needed - given:
                res.bad('%s is raised without %s' % (r[2], ', '.join(sorted(needed - given))), where)
            else:
                res.ok()
            res.functions['%s.%s' % (m.name, p.enclosing(m, node))] = '%s:%d' % (m.rel, node.lineno)
    if res.sites < 1:
        raise Undecided('only %d places that raise library errors found' % res.sites)


def rule_errors_not_swallowed(res, p):
    """no handler catches everything without raising again: failures reach the caller"""
    module, errors = error_classes(p)
    for m in p.live():
        res.site(m.rel)
        bad = None
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.ExceptHandler):
                continue
            caught = []
            t = node.type
            for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                if x is None:
                    caught.append('everything')
                elif isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException'):
                    caught.append(x.id)
                else:
                    r = p.resolve(m, x)
                    if r and r[0] == 'class' and r[1] == 'utg.exceptions' and r[2] in ('UtgError', 'WordsError', 'LexiconError', 'TransformatorsError'):
                        pass        # a family of errors may be caught to answer a question; the scenarios decide what the caller sees
            if caught and not any(isinstance(x, ast.Raise) for b in node.body for x in ast.walk(b)):
                bad = (caught, node)
        if bad:
            res.bad('a handler drops %s' % ', '.join(bad[0]), p.where(m, bad[1]))
        else:
            res.ok()
    # the rule must recognise its subject on every run
    probe = ast.parse('try:\n    x()\nexcept Exception:\n    pass\n')
    if not any(isinstance(n, ast.ExceptHandler) for n in ast.walk(probe)):
        raise Broken('self test')


# ---------------------------------------------------------------------------
# nondeterminism

SOURCES = ('random', 'secrets', 'uuid', 'time', 'datetime', 'os.urandom', 'os.environ', 'os.getenv', 'os.getpid', 'threading', 'socket', 'tempfile')
HARMLESS = ('time.struct_time', 'datetime.timezone')

# entry points whose result may depend on their arguments only
DETERMINISTIC = {
    'utg.words': ['Properties.__init__', 'Properties.serialize', 'Properties.deserialize', 'Properties.get_raw_key', 'Properties.get', 'Properties.is_specified', 'Properties.clone',
                  'Properties.__str__', 'Properties.__eq__', 'Properties.__ne__', 'Properties.__hash__', 'Properties.manhattan_distance',
                  'Word.__init__', 'Word.serialize', 'Word.deserialize', 'Word.form', 'Word.normal_form', 'Word.all_forms', 'Word.__eq__', 'Word.__ne__', 'Word.__hash__',
                  'Word.get_forms_number', 'Word.get_keys', 'Word.number_of_syllables', 'Word.has_fluent_vowel', 'Word.autofill_missed_forms',
                  'WordForm.__init__', 'WordForm.get_form', 'WordForm.form', 'WordForm.starts_with_consonant_cluster', 'WordForm.__eq__', 'WordForm.__ne__', 'WordForm.__hash__'],
    'utg.templates': ['Substitution.__init__', 'Substitution.serialize', 'Substitution.deserialize', 'Substitution.parse', 'Substitution.parse_properties', 'Substitution.get_text', 'Substitution.__eq__',
                      'Template.__init__', 'Template.serialize', 'Template.deserialize', 'Template.get_undictionaried_words', 'Template.parse', 'Template.substitute', 'Template.__eq__'],
    'utg.dictionary': ['Dictionary.__init__', 'Dictionary.add_word', 'Dictionary.has_word', 'Dictionary.get_word', 'Dictionary.get_words'],
    'utg.lexicon': ['Lexicon.__init__', 'Lexicon.add_template', 'Lexicon.has_key', 'Lexicon.get_templates'],
    'utg.transformators': ['transform'],
    'utg.constructors': ['construct_integer'],
    'utg.logic': ['get_default_properties', 'get_verbose_to_relations', 'get_caches', 'get_raw_caches', 'get_nearest_key'],
}


class Calls(object):
    """Over-approximate call graph: names are resolved through scopes and imports;
    an attribute of an unknown receiver may be any method of that name."""

    def __init__(self, p):
        self.p = p
        self.methods = {}
        self.edges = {}
        self.sources = {}
        for m in p.live():
            for qual, node in m.functions.items():
                if '.' in qual:
                    self.methods.setdefault(qual.rsplit('.', 1)[1], []).append((m.name, qual))
        for m in p.live():
            for qual, node in m.functions.items():
                self.scan(m, (m.name, qual), node)
            body = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef))]
            # every module level name stands for the statements that compute or fill it
            makers = {}
            for n in body:
                for name in self.filled(n):
                    makers.setdefault(name, []).append(n)
            for name, nodes in makers.items():
                self.scan(m, (m.name, '=' + name), ast.Module(body=nodes, type_ignores=[]))
            for name, cls in m.classes.items():
                for n in cls.body:
                    if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        for x in self.filled(n):
                            self.scan(m, (m.name, name + '.' + x), n)

    @staticmethod
    def filled(statement):
        names = set()
        for x in ast.walk(statement):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                names.add(x.value.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and isinstance(statement, (ast.Expr, ast.For)):
                names.add(x.func.value.id)
        return names

    def scan(self, m, key, root):
        edges, sources = set(), []
        local = set()
        if isinstance(root, (ast.FunctionDef, ast.AsyncFunctionDef)):
            local = {a.arg for a in root.args.args + root.args.kwonlyargs}
        for node in ast.walk(root):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
                if node.id in local:
                    continue
                # a nested function of this function
                if (key[1] + '.' + node.id) in m.functions:
                    edges.add((m.name, key[1] + '.' + node.id))
                    continue
                self.add(m, node, edges, sources)
                # a table of functions, or anything computed at import time
                edges.add((m.name, '=' + node.id))
                if node.id in ('id', 'vars', 'globals') and node.id not in m.functions and node.id not in m.assigned and node.id == 'id' and isinstance(m.parents.get(node), ast.Call) and m.parents[node].func is node:
                    sources.append(('id()', node))
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                r = self.p.resolve(m, node)
                if isinstance(node.value, ast.Name) and node.value.id in local:
                    r = None
                b = self.p.resolve(m, node.value)
                if b and b[0] == 'module':
                    edges.add((b[1], '=' + node.attr))
                if b and b[0] == 'class':
                    edges.add((b[1], b[2] + '.' + node.attr))
                if isinstance(node.value, ast.Name) and node.value.id in ('self', 'cls'):
                    edges.add((m.name, key[1].split('.')[0] + '.' + node.attr))
                if r is not None:
                    self.add(m, node, edges, sources)
                elif node.attr in self.methods:
                    base = self.p.resolve(m, node.value)
                    if base is None or base[0] in ('def', 'class', 'attr'):
                        edges.update(self.methods[node.attr])
            elif isinstance(node, ast.Delete):
                for t in node.targets:
                    if isinstance(t, ast.Attribute):
                        edges.update(self.methods.get(t.attr, ()))
        self.edges[key] = edges
        self.sources[key] = sources

    def add(self, m, node, edges, sources):
        r = self.p.resolve(m, node)
        if r is None:
            return
        if r[0] == 'def':
            edges.add((r[1], r[2]))
        elif r[0] == 'class':
            for q in self.p.modules[r[1]].functions:
                if q in (r[2] + '.__init__', r[2] + '.__new__'):
                    edges.add((r[1], q))
        elif r[0] == 'attr':
            q = r[2] + '.' + r[3]
            if q in self.p.modules[r[1]].functions:
                edges.add((r[1], q))
        elif r[0] == 'ext':
            if any(r[1] == s or r[1].startswith(s + '.') for s in SOURCES) and not any(r[1].startswith(h) for h in HARMLESS):
                if not isinstance(m.parents.get(node), ast.Attribute):
                    sources.append((r[1], node))

    def reach(self, start):
        """paths to every reachable function"""
        paths, todo = {start: (start,)}, [start]
        while todo:
            f = todo.pop(0)
            for g in sorted(self.edges.get(f, ())):
                if g not in paths:
                    paths[g] = paths[f] + (g,)
                    todo.append(g)
        return paths


def home(p, module, qual):
    """the module that defines the class or function the public name stands for, and its name there"""
    first, dot, rest = qual.partition('.')
    r = p.lookup(p.modules[module], first)
    if not r or r[0] not in ('class', 'def') or r[1] not in p.modules:
        return None, None
    m, name = p.modules[r[1]], r[2]
    if r[0] == 'class' and dot:
        for base, cls in p.bases(m, m.classes[name]):
            if cls.name + '.' + rest in base.functions:
                return base, cls.name + '.' + rest
    return m, name + dot + rest


def rule_no_chance(res, p):
    """rendering, parsing, lookup, comparison and serialization reach no source of randomness, time, environment or object identity through any call path"""
    calls = Calls(p)
    found = 0
    reported = set()
    for module, quals in sorted(DETERMINISTIC.items()):
        if module not in p.modules:
            raise Undecided('%s is missing' % module)
        for qual in quals:
            m, name = home(p, module, qual)
            if m is None or name not in m.functions:
                # inherited, aliased or generated: covered when something else reaches it
                continue
            found += 1
            key = (m.name, name)
            paths = calls.reach(key)
            res.site('%s.%s: %d functions reachable' % (module, qual, len(paths)))
            bad = None
            for g, path in sorted(paths.items(), key=lambda x: len(x[1])):
                if calls.sources.get(g):
                    bad = (g, path, calls.sources[g][0])
                    break
            if bad is None:
                res.ok()
            elif bad[0] not in reported:
                reported.add(bad[0])
                g, path, (source, node) = bad
                res.bad('%s.%s reaches %s' % (module, qual, source),
                        '%s via %s' % (p.where(p.modules[g[0]], node), ' -> '.join('%s.%s' % x for x in path)))
            res.functions['%s.%s' % key] = '%s:%d' % (m.rel, m.functions[name].lineno)
    if found < 20:
        raise Undecided('only %d of the public entry points found' % found)
    # positive control: the random choices of the library are seen
    chance = [k for k, s in calls.sources.items() if s]
    if not chance and 'import random' in ''.join(ast.unparse(m.tree) for m in p.live()):
        raise Undecided('uses of random are not recognised')


# ---------------------------------------------------------------------------
# ownership of the categories of a set

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'remove', 'discard', 'add', 'sort', 'reverse', '__setitem__', '__delitem__'}


def state_writes(root, owner, attr):
    """nodes below root that change <owner>.<attr>, the receiver expression of each"""
    out = []

    def is_state(x):
        return isinstance(x, ast.Attribute) and x.attr in attr

    for node in ast.walk(root):
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            targets = node.targets if isinstance(node, (ast.Assign, ast.Delete)) else [node.target]
            for t in targets:
                for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(x, ast.Subscript) and is_state(x.value):
                        out.append((x.value.value, node))
                    elif is_state(x):
                        out.append((x.value, node))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in MUTATORS and is_state(node.func.value):
            out.append((node.func.value.value, node))
    return out


def fresh_locals(p, m, function, cls):
    """local names bound only to objects created in this function"""
    names, spoiled = set(), set()
    for node in ast.walk(function):
        if isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    (names if creates(p, m, node.value, cls) else spoiled).add(t.id)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    spoiled.update(x.id for x in t.elts if isinstance(x, ast.Name))
        elif isinstance(node, (ast.For, ast.comprehension)):
            spoiled.update(x.id for x in ast.walk(node.target) if isinstance(x, ast.Name))
        elif isinstance(node, ast.withitem) and node.optional_vars is not None:
            spoiled.update(x.id for x in ast.walk(node.optional_vars) if isinstance(x, ast.Name))
    spoiled.update(a.arg for a in function.args.args + function.args.kwonlyargs)
    return names - spoiled


def creates(p, m, value, cls):
    if not isinstance(value, ast.Call):
        return False
    f = value.func
    if isinstance(f, ast.Name) and f.id == 'cls':
        return True
    if isinstance(f, ast.Attribute) and f.attr in ('__new__', '__class__', 'clone', 'deserialize'):
        return True
    if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'type':
        return True
    r = p.resolve(m, f)
    return bool(r and r[0] == 'class')


def helpers_of_methods(p):
    """(module, function, parameter) -> the methods whose own object the parameter is: functions
    of a module that are only ever called, each time with the object of the calling method (or
    with the same parameter of another such function)"""
    calls, spoiled = {}, set()
    for m in p.live():
        where = {}
        for qual, node in m.functions.items():
            for x in ast.walk(node):
                where.setdefault(id(x), (qual, node))
        called = set()
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                r = p.resolve(m, x.func)
                if r and r[0] == 'def':
                    called.add(id(x.func))
                    calls.setdefault((r[1], r[2]), []).append((m, where.get(id(x)), x))
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and id(x) not in called:
                r = p.resolve(m, x)
                if r and r[0] == 'def':
                    spoiled.add((r[1], r[2]))
    owners, links = {}, {}
    for key, sites in calls.items():
        target = p.modules[key[0]].functions.get(key[1])
        if target is None or key in spoiled:
            continue
        params = [a.arg for a in target.args.posonlyargs + target.args.args]
        for param in params:
            found, via, bad = set(), set(), False
            for m, inside, call in sites:
                i = params.index(param)
                arg = call.args[i] if i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]) else next((k.value for k in call.keywords if k.arg == param), None)
                if inside is None or not isinstance(arg, ast.Name):
                    bad = True
                    break
                qual, node = inside
                names = [a.arg for a in node.args.posonlyargs + node.args.args]
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == arg.id for x in ast.walk(node)) or arg.id not in names:
                    bad = True
                    break
                if '.' in qual:
                    if names[0] != arg.id or is_class_or_static(node):
                        bad = True
                        break
                    found.add((m.name, qual.split('.')[0], node.name))
                else:
                    via.add((m.name, qual, arg.id))
            if not bad:
                owners[key + (param,)] = found
                links[key + (param,)] = via
    changed = True
    while changed:
        changed = False
        for key in list(owners):
            for source in links[key]:
                if source not in owners:
                    del owners[key]
                    changed = True
                    break
                if not owners[source] <= owners[key]:
                    owners[key] |= owners[source]
                    changed = True
    return {k: v for k, v in owners.items() if v}


def rule_categories_immutable(res, p):
    """the categories of a set are written only while the set is being constructed: default sets and the sets of inserted words are shared, so no other code may change them"""
    words, name = home(p, 'utg.words', 'Properties') if 'utg.words' in p.modules else (None, None)
    if words is None or name not in words.classes:
        raise Undecided('utg.words.Properties is missing')
    cls = words.classes[name]
    owner_name = name
    state = set()
    for node in cls.body:
        if isinstance(node, ast.FunctionDef) and node.name == '__init__':
            for recv, w in state_self(node):
                # a slot that starts empty is filled later by its own method (a remembered result)
                if not (isinstance(w, ast.Assign) and isinstance(w.value, ast.Constant)):
                    state.add(recv)
    if not state:
        # the constructor stores through a helper; fall back to the declared slots
        for node in cls.body:
            if isinstance(node, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in node.targets):
                try:
                    v = ast.literal_eval(node.value)
                    state.update([v] if isinstance(v, str) else v)
                except ValueError:
                    pass
    state = {s for s in state if not s.startswith('_lazy')}
    if not state:
        raise Undecided('the state of a set of categories was not found')
    methods = {n.name: n for n in cls.body if isinstance(n, ast.FunctionDef)}

    # methods of the class that write their own object
    writers = {}
    for name, node in methods.items():
        if name in ('__init__', '__new__', '__setstate__'):
            continue
        for recv, w in state_writes(node, None, state):
            if isinstance(recv, ast.Name) and node.args.args and recv.id == node.args.args[0].arg and not is_class_or_static(node):
                writers[name] = w
    helpers = helpers_of_methods(p)
    for (mname, function, param), owners in helpers.items():
        for recv, w in state_writes(p.modules[mname].functions[function], None, state):
            if isinstance(recv, ast.Name) and recv.id == param:
                for m, c, method in owners:
                    if m == words.name and c == owner_name and method not in ('__init__', '__new__', '__setstate__'):
                        writers.setdefault(method, methods.get(method, w))
    changed = True
    while changed:
        changed = False
        for name, node in methods.items():
            if name in writers or name in ('__init__', '__new__', '__setstate__') or is_class_or_static(node) or not node.args.args:
                continue
            first = node.args.args[0].arg
            for c in ast.walk(node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in writers and isinstance(c.func.value, ast.Name) and c.func.value.id == first:
                    writers[name] = c
                    changed = True
    for name, node in sorted(writers.items()):
        res.site('writer %s.%s' % ('Properties', name))
        if name.startswith('_') and not name.startswith('__'):
            res.ok()
        else:
            res.bad('the public method %s changes a set of categories in place' % name, p.where(words, node))

    # stores from outside, and calls of the writers
    others = {attr for attr in state}
    shared_names = set()
    for m in p.live():
        for cname, c in m.classes.items():
            if c is cls:
                continue
            for n in ast.walk(c):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in others:
                    shared_names.add((m.name, cname))
    for m in p.live():
        for qual, node in list(m.functions.items()):
            owner = qual.split('.')[0]
            own = (m is words and owner == owner_name)
            fresh = fresh_locals(p, m, node, cls)
            if not own and (m.name, owner) not in shared_names:
                for recv, w in state_writes(node, None, others):
                    res.site('store at %s' % p.where(m, w))
                    if isinstance(recv, ast.Name) and (recv.id in fresh or (m.name, qual, recv.id) in helpers):
                        res.ok()
                    else:
                        res.bad('the categories of a set are changed after its construction', p.where(m, w))
            if own:
                for recv, w in state_writes(node, None, others):
                    res.site('store at %s' % p.where(m, w))
                    first = node.args.args[0].arg if node.args.args else None
                    if isinstance(recv, ast.Name) and (recv.id in fresh or (recv.id == first and not is_class_or_static(node))):
                        res.ok()
                    else:
                        res.bad('the categories of a set are changed after its construction', p.where(m, w))
            for c in ast.walk(node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in writers and c.func.attr.startswith('_'):
                    recv = c.func.value
                    res.site('call of %s at %s' % (c.func.attr, p.where(m, c)))
                    first = node.args.args[0].arg if node.args.args else None
                    inside = own and isinstance(recv, ast.Name) and recv.id == first and (node.name in writers or node.name in ('__init__', '__new__', '__setstate__'))
                    of = helpers.get((m.name, qual, recv.id)) if isinstance(recv, ast.Name) else None
                    if of:
                        inside = all(x[:2] == (words.name, owner_name) and (x[2] in writers or x[2] in ('__init__', '__new__', '__setstate__')) for x in of)
                    if inside or (isinstance(recv, ast.Name) and recv.id in fresh) or isinstance(recv, ast.Call):
                        res.ok()
                    else:
                        res.bad('%s is called on a set that already exists' % c.func.attr, p.where(m, c))
    res.functions['utg.words.Properties'] = '%s:%d' % (words.rel, cls.lineno)
    if not res.sites:
        raise Undecided('nothing writes the state of a set of categories')


def is_class_or_static(node):
    return any(isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod') for d in node.decorator_list)


def state_self(init):
    first = init.args.args[0].arg if init.args.args else 'self'
    out = []
    for statement in ast.walk(init):
        if not isinstance(statement, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            continue
        for t in statement.targets if isinstance(statement, ast.Assign) else [statement.target]:
            for node in ast.walk(t):
                if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Name) and node.value.id == first:
                    out.append((node.attr, statement))
    return out


# ---------------------------------------------------------------------------

RULES = {
    'migration_vocabulary': rule_migration_vocabulary,
    'vocabulary_references': rule_vocabulary_references,
    'frozen_migrations': rule_frozen_migrations,
    'error_arguments': rule_error_arguments,
    'errors_not_swallowed': rule_errors_not_swallowed,
    'no_chance': rule_no_chance,
    'categories_immutable': rule_categories_immutable,
}


def run(name, repo, here):
    fn = RULES[name]
    res = RuleResult(name, ' '.join(fn.__doc__.split()))
    fn(res, program(repo))
    return res
