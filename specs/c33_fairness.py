"""Random choices of templates are fair, given a fair source of chance."""
from utg import lexicon, templates
from specs.c15_lexicon import eligible, nearest


def drawn(value, entries, expected):
    """label of the template chosen"""
    labels = [i for i in range(len(entries)) for t in expected if entries[i][1] is t]
    for i in range(len(entries)):
        if value is entries[i][1]:
            fair(i, labels)
            return
    fail('a registered template is chosen', value)


def filled(shapes):
    lex = lexicon.Lexicon()
    entries = [(shapes[i][0], templates.Template(), frozenset(shapes[i][1])) for i in range(len(shapes))]
    for key, t, restrictions in entries:
        lex.add_template(key, t, restrictions)
    return lex, entries


SHAPES = [[('k', 'a')], [('k', ''), ('k', '')], [('k', 'a'), ('k', ''), ('k', 'b')], [('k', 'ab'), ('k', 'a'), ('k', 'b'), ('l', '')],
          [('k', 'a'), ('l', ''), ('k', 'a'), ('k', ''), ('k', 'c')], [('k', 'abc'), ('k', 'ab'), ('k', 'bc'), ('k', 'ca'), ('k', ''), ('k', 'a')],
          [('k', '')] * 7, [('k', 'a')] * 5 + [('k', '')] * 3]


def draw(method, expected_of):
    lex, entries = filled(each('registered', SHAPES))
    key, wanted = each('key', ['k', 'l']), frozenset(each('asked', ['', 'a', 'ab', 'abc', 'd']))
    fitting = eligible(entries, key, wanted)
    assume(fitting != [])
    before = each('asked before', [None, '', 'abc'])
    ask = lex.get_random_template if method == 'random' else lex.get_random_nearest_template
    if before is not None:
        outcome(ask, key, frozenset(before))
    drawn(ask(key, wanted), entries, expected_of(entries, key, wanted))


def scn_random():
    """a random choice gives each fitting template the same chance"""
    draw('random', eligible)


def scn_nearest():
    """the nearest choice gives each nearest template the same chance"""
    draw('nearest', nearest)


def scn_registered_twice():
    """a template registered twice counts as two"""
    lex = lexicon.Lexicon()
    one, two = templates.Template(), templates.Template()
    for t, restrictions in ((one, ''), (two, ''), (one, each('second time', ['', 'a', 'b']))):
        lex.add_template('k', t, frozenset(restrictions))
    wanted = frozenset(each('asked', ['', 'a']))
    value = lex.get_random_template('k', wanted)
    entries = [('k', one), ('k', two)]
    offered = lex.get_templates('k', wanted)
    fair(0 if value is one else 1, [0 if t is one else 1 for t in offered])
