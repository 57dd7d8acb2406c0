"""Choosing templates from a lexicon."""
from utg import lexicon, templates, exceptions


def template(name):
    t = templates.Template()
    t.parse(name, [])
    return t


def same(result, expected):
    """the same templates in the same order"""
    return len(result) == len(expected) and all([result[i] is expected[i] for i in range(len(expected))])


def contains(items, x):
    return any([x is y for y in items])


def filled(entries):
    result = lexicon.Lexicon()
    for key, t, restrictions in entries:
        result.add_template(key, t, restrictions)
    return result


def eligible(entries, key, asked):
    return [t for k, t, restrictions in entries if k == key and restrictions.issubset(asked)]


def nearest(entries, key, asked):
    """eligible templates that use the most of the requested restrictions"""
    sizes = [len(restrictions) for k, t, restrictions in entries if k == key and restrictions.issubset(asked)]
    return [t for k, t, restrictions in entries if k == key and restrictions.issubset(asked) and len(restrictions) == max(sizes)]


def members(name, universe):
    """an arbitrary subset of a small universe"""
    return frozenset([x for x in universe if each(name + x, [False, True])])


def check_choice(lex, method, key, asked, known, expected):
    kind, value = outcome(method, key, asked)
    if not known:
        check(kind == 'raise' and isinstance(value, exceptions.UnknownLexiconKeyError), 'an unknown key is reported', value)
        check(value.arguments == {'key': key}, 'the report names the key', value.arguments)
    elif not expected:
        check(kind == 'raise' and isinstance(value, exceptions.NoTemplatesWithSpecifiedRestrictions), 'a key without a fitting template is reported', value)
        check(value.arguments == {'key': key, 'restrictions': asked}, 'the report names the key and the request', value.arguments)
    else:
        check(kind == 'value', 'a fitting template is chosen', value)
        for t in possible(value):
            check(contains(expected, t), 'only fitting templates are chosen')
        if not choice_refined():
            for t in expected:
                check(contains(possible(value), t), 'every fitting template can be chosen')


def scn_eligible():
    """exactly the templates of the key whose restrictions are all requested are offered, in registration order (arbitrary restriction sets)"""
    entries = [(each('key%d' % i, ['k', 'other']), template('t%d' % i), setsym('r%d' % i)) for i in range(2)]
    asked = setsym('asked')
    lex = filled(entries)
    expected = eligible(entries, 'k', asked)
    check(same(lex.get_templates('k', asked), expected), 'offered templates', len(expected))
    known = any([e[0] == 'k' for e in entries])
    check(lex.has_key('k') == known, 'the key is known')
    check_choice(lex, lex.get_random_template, 'k', asked, known, expected)


def scn_eligible_finite():
    """the same for every combination of restrictions from a small universe"""
    universe = ['a', 'b']
    entries = [(each('key%d' % i, ['k', 'other']), template('t'), members('r%d' % i, universe)) for i in range(2)]
    asked = members('asked', universe)
    lex = filled(entries)
    expected = eligible(entries, 'k', asked)
    check(same(lex.get_templates('k', asked), expected), 'offered templates', len(expected))
    known = any([e[0] == 'k' for e in entries])
    check_choice(lex, lex.get_random_template, 'k', asked, known, expected)


def scn_many():
    """three templates of one key: order and completeness"""
    entries = [('k', template('t%d' % i), members('r%d' % i, ['a', 'b'])) for i in range(3)]
    asked = members('asked', ['a', 'b', 'c'])
    lex = filled(entries)
    expected = eligible(entries, 'k', asked)
    check(same(lex.get_templates('k', asked), expected), 'offered templates', len(expected))
    check_choice(lex, lex.get_random_template, 'k', asked, True, expected)


def scn_defaults():
    """a template added without restrictions always fits, and nothing is requested by default"""
    free, tied = template('free'), template('tied')
    lex = lexicon.Lexicon()
    order = each('order', [0, 1])
    if order:
        lex.add_template('k', free)
    lex.add_template('k', tied, frozenset(['a']))
    if not order:
        lex.add_template('k', free)
    for i in range(2):
        for method in (lex.get_random_template, lex.get_random_nearest_template):
            for t in possible(method('k')):
                check(t is free, 'only the free template fits an empty request')
    asked = members('asked', ['a', 'b'])
    check(contains(lex.get_templates('k', asked), free), 'a free template fits any request')
    check(contains(lex.get_templates('k', asked), tied) == ('a' in asked), 'a restricted template fits when its restriction is requested')


def scn_unknown_key():
    """a key nothing was registered under: no templates, and both choices report the key"""
    registered = each('registered', [[], ['other'], ['K'], ['']])
    lex = lexicon.Lexicon()
    for key in registered:
        lex.add_template(key, template('t'))
    asked = members('asked', ['a'])
    check(not lex.has_key('k'), 'the key is unknown')
    check(len(lex.get_templates('k', asked)) == 0, 'no templates')
    check_choice(lex, lex.get_random_template, 'k', asked, False, [])
    check_choice(lex, lex.get_random_nearest_template, 'k', asked, False, [])
    check(not lex.has_key('k'), 'asking does not register the key')
    for key in registered:
        check(lex.has_key(key), 'registered keys are known')


def scn_nearest():
    """of the fitting templates only those with the largest common part with the request are chosen (arbitrary restriction sets)"""
    entries = [('k', template('t%d' % i), setsym('r%d' % i)) for i in range(2)]
    asked = setsym('asked')
    lex = filled(entries)
    check_choice(lex, lex.get_random_nearest_template, 'k', asked, True, nearest(entries, 'k', asked))


def scn_nearest_finite():
    """the same for every combination of three templates with restrictions from a small universe, in any order"""
    universe = ['a', 'b']
    entries = [(each('key%d' % i, ['k', 'other']) if i == 1 else 'k', template('t'), members('r%d' % i, universe)) for i in range(3)]
    asked = members('asked', universe)
    lex = filled(entries)
    check_choice(lex, lex.get_random_nearest_template, 'k', asked, True, nearest(entries, 'k', asked))


def scn_nearest_sizes():
    """larger restriction sets win over smaller ones whatever the order of registration"""
    sizes = [each('n%d' % i, [0, 1, 2, 3, 11]) for i in range(3)]
    names = ['r%d' % i for i in range(12)]
    entries = [('k', template('t'), frozenset(names[:n])) for n in sizes]
    lex = filled(entries)
    asked = frozenset(names[:each('asked', [0, 1, 2, 3, 12])])
    check_choice(lex, lex.get_random_nearest_template, 'k', asked, True, nearest(entries, 'k', asked))


def scn_isolation():
    """lexicons and keys do not influence each other, and asking changes nothing"""
    one, two = lexicon.Lexicon(), lexicon.Lexicon()
    t = [template('t%d' % i) for i in range(3)]
    restrictions = [members('r%d' % i, ['a']) for i in range(3)]
    one.add_template('k', t[0], restrictions[0])
    two.add_template('k', t[1], restrictions[1])
    one.add_template('l', t[2], restrictions[2])
    asked = members('asked', ['a', 'b'])
    for turn in range(2):
        check(same(one.get_templates('k', asked), [t[0]] if restrictions[0].issubset(asked) else []), 'templates of the first lexicon')
        check(same(two.get_templates('k', asked), [t[1]] if restrictions[1].issubset(asked) else []), 'templates of the second lexicon')
        check(same(one.get_templates('l', asked), [t[2]] if restrictions[2].issubset(asked) else []), 'templates of the second key')
        check(not two.has_key('l'), 'the second lexicon does not know the key of the first')
        check(not lexicon.Lexicon().has_key('k'), 'a new lexicon is empty')
        raised(one.get_random_template, 'k', asked)
        raised(one.get_random_nearest_template, 'k', asked)
        raised(two.get_random_nearest_template, 'l', asked)


def scn_growing():
    """a template registered after a request takes part in the next one"""
    lex = lexicon.Lexicon()
    first, second = template('x'), template('x')
    r0, r1 = members('r0', ['a', 'b']), members('r1', ['a', 'b'])
    asked = members('asked', ['a', 'b'])
    lex.add_template('k', first, r0)
    raised(lex.get_random_template, 'k', asked)
    raised(lex.get_random_nearest_template, 'k', asked)
    lex.get_templates('k', asked)
    lex.add_template('k', second, r1)
    entries = [('k', first, r0), ('k', second, r1)]
    check(same(lex.get_templates('k', asked), eligible(entries, 'k', asked)), 'offered templates')
    check_choice(lex, lex.get_random_template, 'k', asked, True, eligible(entries, 'k', asked))
    check_choice(lex, lex.get_random_nearest_template, 'k', asked, True, nearest(entries, 'k', asked))


def scn_keys():
    """keys are told apart by equality alone, whatever they are"""
    keys = ['k', 'K', ' k', 'k ', '', 'kk', 1, '1', None, (1, 'k'), ('k', 1), 0]
    chosen = each('chosen', list(range(len(keys))))
    others = [i for i in range(len(keys)) if i != chosen]
    only = each('registered', ['others', 'all', 'all twice'])
    lex = lexicon.Lexicon()
    t = [template('t%d' % i) for i in range(len(keys))]
    again = template('again')
    for i in range(len(keys)):
        if only != 'others' or i != chosen:
            lex.add_template(keys[i], t[i])
    if only == 'all twice':
        lex.add_template(keys[chosen], again)
    expected = [] if only == 'others' else [t[chosen]] if only == 'all' else [t[chosen], again]
    check(same(lex.get_templates(keys[chosen], frozenset()), expected), 'templates of the key', keys[chosen])
    check(lex.has_key(keys[chosen]) == (only != 'others'), 'the key is known')
    check_choice(lex, lex.get_random_template, keys[chosen], frozenset(), only != 'others', expected)
    check_choice(lex, lex.get_random_nearest_template, keys[chosen], frozenset(), only != 'others', expected)
    for i in others:
        check(same(lex.get_templates(keys[i], frozenset()), [t[i]]), 'templates of another key', keys[i])
