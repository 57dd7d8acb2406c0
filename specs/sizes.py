"""The same guarantees for long and numerous inputs (one class each: contents are fixed, sizes vary)."""
from utg import words, templates, dictionary, lexicon, logic, exceptions, relations as r
from specs.common import relations, default_of, effective, same_set
from specs.c13_dictionary import build, verify, CANDIDATES, COMMON

LENGTHS = [1, 2, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 513, 1025]
CASES = list(r.CASE.records)


def long_name(length):
    return ('слово %d ' % length + 'ёжик' * (length // 4 + 1))[:length].strip()


def text_word(value):
    return words.Word(r.WORD_TYPE.TEXT, [value])


def shown(value):
    return words.WordForm(text_word(value))


def noun():
    return words.Word(r.WORD_TYPE.NOUN, ['f%d' % i for i in range(len(layout_keys(r.WORD_TYPE.NOUN)))])


def noun_form(case, number):
    return 'f%d' % layout_index(r.WORD_TYPE.NOUN, tuple([{r.CASE: case, r.NUMBER: number}.get(x) or x.records[0] for x in r.WORD_TYPE.NOUN.schema]))


def scn_many_dependencies():
    """however many dependencies a variable has, each of them counts, the last one of every kind wins"""
    number = each('number', [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 24])
    kind = each('kind', ['markup', 'words', 'mixed'])
    case, amount = None, None
    source, names = '[w', []
    externals = {'w': words.WordForm(noun())}
    for i in range(number):
        value = CASES[(i * 5 + 1) % 6] if i % 3 != 2 else (r.NUMBER.PLURAL, r.NUMBER.SINGULAR)[i % 2]
        if i % 3 != 2:
            case = value
        else:
            amount = value
        if kind == 'markup' or kind == 'mixed' and i % 2:
            source = source + '|' + value.verbose_id
        else:
            name = 'x%d' % i
            externals[name] = words.WordForm(text_word(name), words.Properties(value))
            source = source + '|' + name
    template = templates.Template()
    template.parse(source + ']', list(externals.keys()))
    check(template.substitute(externals, dictionary.Dictionary()) == noun_form(case, amount), 'inserted text', case, amount)


def scn_dependency_anywhere():
    """a dependency is honoured at any place of a long list"""
    number = each('number', [5, 11, 16])
    place = each('place', list(range(16)))
    assume(place < number)
    source = '[w' + ''.join(['|дт' if i == place else ('|', '|x%d' % i, '|,', '| ')[i % 4] for i in range(number)]) + ']'
    externals = {'x%d' % i: shown('x%d' % i) for i in range(number)}
    externals['w'] = words.WordForm(noun())
    template = templates.Template()
    template.parse(source, list(externals.keys()))
    check(template.substitute(externals, dictionary.Dictionary()) == noun_form(r.CASE.DATIVE, None), 'inserted text')


def scn_missing_anywhere():
    """a missing dependency is reported at any place of a long list"""
    number = each('number', [2, 5, 11])
    place = each('place', list(range(11)))
    assume(place < number)
    source = '[w' + ''.join(['|x%d' % i for i in range(number)]) + ']'
    externals = {'x%d' % i: shown('x%d' % i) for i in range(number)}
    externals['w'] = words.WordForm(noun())
    template = templates.Template()
    template.parse(source, list(externals.keys()))
    del externals['x%d' % place]
    kind, value = outcome(template.substitute, externals, dictionary.Dictionary())
    check(kind == 'raise' and isinstance(value, exceptions.ExternalDependecyNotFoundError), 'a missing dependency is reported', value)
    check(value.arguments == {'dependency': 'x%d' % place}, 'the report names the dependency', value.arguments)


def scn_many_sources():
    """however many sources a set is built from, the last value of every kind wins"""
    number = each('number', [4, 5, 6, 9, 16, 33])
    nested = each('sources', ['values', 'sets', 'alternating'])
    sources, last = [], {}
    for i in range(number):
        relation = relations()[(i * 7) % len(relations())] if i % 3 else r.CASE
        value = relation.records[i % len(relation.records)]
        last[relation] = value
        sources.append(value if nested == 'values' or nested == 'alternating' and i % 2 else words.Properties(value))
        if i % 4 == 3:
            sources.append(None if nested == 'values' else words.Properties())
    props = words.Properties(*sources)
    copy = words.Properties(props).clone(words.Properties())
    for relation in relations():
        check(props.is_specified(relation) == (relation in last), 'specified', relation)
        check(props.get(relation) == last.get(relation, default_of(relation)), 'last value', relation)
    check(copy == props, 'copy')


def scn_long_markup():
    """names and dependencies of any length are read in full"""
    length = each('length', LENGTHS)
    name = long_name(length)
    other = name[:-1] + 'я'
    assume(name != other and length > 1)
    s = templates.Substitution.parse('[' + name + '|' + name + '|' + other + '|дт]', [name, other])
    check(s.id == name, 'name', s.id)
    check(len(s.dependencies) == 3, 'number of dependencies')
    check(s.dependencies[0] == name and s.dependencies[1] == other and s.dependencies[2] == words.Properties(r.CASE.DATIVE), 'dependencies', s.dependencies)


def scn_long_code_list():
    """code lists of any length are read in full, the last code of every kind wins"""
    number = each('number', [3, 4, 5, 8, 16, 17, 40])
    codes, last = [], {}
    for i in range(number):
        relation = relations()[(i * 3) % len(relations())]
        value = relation.records[(i * 5 + i // 16) % len(relation.records)]
        codes.append(value.verbose_id)
        last[relation] = value
    s = templates.Substitution.parse('[w|' + each('separator', [',', ' , ', ',,']).join(codes) + ']', [])
    check(len(s.dependencies) == 1, 'one dependency')
    for relation in relations():
        check(s.dependencies[0].is_specified(relation) == (relation in last), 'specified', relation)
        check(s.dependencies[0].get(relation) == last.get(relation, default_of(relation)), 'last value', relation)


def scn_long_text():
    """text and inserted words of any length are reproduced in full"""
    length = each('length', LENGTHS)
    filler = ('раз, два; %s %% {} \\n ' * (length // 10 + 1))[:length]
    value = long_name(length)
    template = templates.Template()
    template.parse(filler + '[a]' + filler + '[b]' + filler, ['a', 'b'])
    externals = {'a': shown(value), 'b': shown(filler)}
    again = templates.Template.deserialize(template.serialize())
    for t in (template, again):
        check(t.substitute(externals, dictionary.Dictionary()) == filler + value + filler + filler + filler, 'rendered text')


def scn_long_words():
    """words of any length are stored, found and shown in full"""
    length = each('length', LENGTHS)
    value = long_name(length)
    near = value[:-1] + 'я'
    word = text_word(value)
    store = dictionary.Dictionary([word])
    check(store.has_word(value) and store.get_word(value).form == value, 'found')
    check(store.has_word(near) == (near == value), 'no other text is found')
    check(words.Word.deserialize(word.serialize()) == word, 'restored')
    check((text_word(near) == word) == (near == value), 'compared in full')
    check(words.WordForm(word, words.Properties(r.WORD_CASE.UPPER)).form == value[0].upper() + value[1:], 'capitalised')
    check(word.number_of_syllables == max(1, len([c for c in value if c in 'аеёиоуыэюяАЕЁИОУЫЭЮЯ'])), 'number of syllables')


def scn_many_clashes():
    """many words that share a text: the winner is the best of all, in any order of registration"""
    size = len(CANDIDATES)
    start, step = each('start', list(range(size))), each('step', [1, 5, 7, 17])
    chosen = [CANDIDATES[(start + i * step) % size] for i in range(each('number', [4, 9, size] if thorough() else [4, 8]))]
    entries = [(build(c), c[3]) for c in chosen]
    result = dictionary.Dictionary([word for word, own in entries])
    for probe in (COMMON, 'b0', 'y8'):
        verify(result, entries, probe)


def scn_many_words():
    """a dictionary of many words finds each of them"""
    number = each('number', [0, 1, 10, 64, 129])
    entries = [text_word('слово %d' % i) for i in range(number)]
    store = dictionary.Dictionary(entries)
    check(len(store.get_words()) == number, 'number of words')
    for i in range(number):
        check(store.get_word('слово %d' % i).word is entries[i], 'the word')
    check(not store.has_word('слово %d' % number), 'no other text')


def scn_many_missing():
    """any number of missing words is reported, one entry per occurrence, in order"""
    number = each('number', [0, 1, 2, 3, 5, 8, 13, 30])
    order = [(i * 7 + 3) % 10 for i in range(number)]
    template = templates.Template()
    template.parse(' '.join(['[w%d|z]' % x for x in order]), ['z'])
    inserted, stored = each('inserted', [[], [3], [0, 3, 6]]), each('stored', [[], [4], [1, 4, 7]])
    externals = {'w%d' % x: shown('e%d' % x) for x in inserted}
    store = dictionary.Dictionary([text_word('w%d' % x) for x in stored])
    expected = ['w%d' % x for x in order if x not in inserted and x not in stored]
    check(list(template.get_undictionaried_words(externals, store)) == expected, 'reported words', expected)
    externals['z'] = shown('z')
    kind, value = outcome(template.substitute, externals, store)
    check((kind == 'value') == (expected == []), 'rendering succeeds exactly when no word is reported', value)
    if kind == 'raise':
        check(isinstance(value, exceptions.NoWordsFoundError) and value.arguments == {'text': expected[0]}, 'the failure names the first missing word', value.arguments)
    else:
        check(value == ' '.join(['e%d' % x if x in inserted else 'w%d' % x for x in order]), 'rendered text', value)


def make(name):
    t = templates.Template()
    t.parse(name, [])
    return t


def scn_many_templates():
    """any number of templates: exactly the fitting ones are offered, in order, and the nearest are chosen among"""
    number = each('number', [4, 7, 12, 40])
    entries = [('k' if i % 4 else 'other', make('t%d' % i), frozenset(['r%d' % j for j in range(5) if (i * 5 + 1) >> j & 1])) for i in range(number)]
    lex = lexicon.Lexicon()
    for key, t, restrictions in entries:
        lex.add_template(key, t, restrictions)
    asked = frozenset(each('asked', [(), ('r0',), ('r1', 'r3'), ('r0', 'r1', 'r2', 'r3', 'r4'), ('r0', 'r1', 'r2', 'r4', 'q'), ('r2', 'r1')]))
    for key in ('k', 'other'):
        fitting = [(t, len(x)) for k, t, x in entries if k == key and x.issubset(asked)]
        kind, offered = outcome(lex.get_templates, key, asked)
        check(kind == 'value', 'offered')
        offered = list(offered)
        check(len(offered) == len(fitting) and all([offered[i] is fitting[i][0] for i in range(len(fitting))]), 'exactly the fitting templates, in order')
        if fitting:
            best = [t for t, size in fitting if size == max([s for x, s in fitting])]
            for method, allowed in ((lex.get_random_template, [t for t, size in fitting]), (lex.get_random_nearest_template, best)):
                kind, chosen = outcome(method, key, asked)
                check(kind == 'value', 'a template is chosen', chosen)
                for t in possible(chosen):
                    check(any([t is x for x in allowed]), 'only fitting templates are chosen')
                if not choice_refined():
                    for t in allowed:
                        check(any([t is x for x in possible(chosen)]), 'every fitting template can be chosen')


def scn_many_keys():
    """templates registered under many keys, one after another, stay under their keys"""
    number = each('number', [3, 10, 40])
    one, two = lexicon.Lexicon(), lexicon.Lexicon()
    registered = []
    for i in range(number):
        t = make('t')
        registered.append(t)
        (one, two)[i % 2].add_template('k%d' % (i // 4), t, frozenset())
        if i % 3 == 0:
            check(not one.has_key('q') and list(one.get_templates('q', frozenset())) == [], 'a key nothing was registered under')
    for n in range((number + 3) // 4):
        for side in (0, 1):
            expected = [registered[i] for i in range(number) if i // 4 == n and i % 2 == side]
            offered = list((one, two)[side].get_templates('k%d' % n, frozenset()))
            check(len(offered) == len(expected) and all([offered[i] is expected[i] for i in range(len(expected))]), 'templates of the key')


def scn_large_data():
    """variables with many dependencies, templates with many variables and words with many categories are restored in full"""
    number = each('number', [0, 3, 7, 15, 16, 33])
    s = templates.Substitution()
    s.id = 'w'
    for i in range(number):
        s.dependencies.append('x%d' % i if i % 2 else words.Properties(CASES[i % 6], None if i % 4 else r.NUMBER.PLURAL))
    again = templates.Substitution.deserialize(s.serialize())
    check(again == s and again.serialize() == s.serialize(), 'variable')
    check(len(again.dependencies) == number and all([again.dependencies[i] == s.dependencies[i] for i in range(number)]), 'dependencies')
    template = templates.Template()
    template.parse(' '.join(['[w%d|x%d|%s]' % (i, i, CASES[i % 6].verbose_id) for i in range(number)]), ['x%d' % i for i in range(number)])
    copy = templates.Template.deserialize(template.serialize())
    check(copy == template and copy.serialize() == template.serialize(), 'template')
    externals = {}
    for i in range(number):
        externals['w%d' % i] = words.WordForm(noun())
        externals['x%d' % i] = shown('x')
    check(copy.substitute(externals, dictionary.Dictionary()) == ' '.join([noun_form(CASES[i % 6], None) for i in range(number)]), 'rendered text')
    if number:
        check(copy.get_undictionaried_words({}, dictionary.Dictionary()) == ['w%d' % i for i in range(number)], 'missing words')
    own = words.Properties(*[relations()[i % len(relations())].records[-1] for i in range(number)])
    word = words.Word(r.WORD_TYPE.VERB, ['v%d' % i for i in range(len(layout_keys(r.WORD_TYPE.VERB)))], own)
    restored = words.Word.deserialize(word.serialize())
    check(restored == word and same_set(restored.properties, own) and restored.serialize() == word.serialize(), 'word')


def scn_many_slots():
    """among any number of slots the first of the nearest is taken"""
    number = each('number', [4, 9, 20, 60])
    start = each('start', [0, 3, 7, 11])
    key = (r.CASE.GENITIVE, r.NUMBER.PLURAL, r.GENDER.NEUTER)
    offered = []
    for i in range(number):
        n = (start + i * 11) % 54
        offered.append((CASES[n % 6], r.NUMBER.records[n // 6 % 3 % 2], r.GENDER.records[n // 18]))
    score = lambda slot: 100 * len([i for i in range(3) if slot[i] is key[i]]) + sum([i for i in range(3) if slot[i] is key[i]])
    best = max([score(x) for x in offered])
    expected = [x for x in offered if score(x) == best][0]
    check(logic.get_nearest_key(key, offered) == expected, 'the nearest slot', expected)


def scn_difference_anywhere():
    """a difference at any place of long contents makes objects different"""
    number = each('number', [1, 2, 7, 15])
    place = each('place', list(range(15)))
    assume(place < number)
    marks = ['[w%d|дт]' % i for i in range(number)]
    other = list(marks)
    other[place] = each('difference', ['[w%d|рд]' % place, '[v%d|дт]' % place, '[W%d|дт]' % place, '[w%d]' % place, '[w%d|дт|]' % place])
    one, two, three = templates.Template(), templates.Template(), templates.Template()
    one.parse(' '.join(marks), [])
    two.parse(' '.join(other), [])
    three.parse(' '.join(marks), [])
    check(one != two and not (one == two) and one == three and not (one != three), 'templates')
    s, t = templates.Substitution.parse('[w|' + '|'.join(['дт'] * number) + ']', []), templates.Substitution.parse('[w|' + '|'.join(['рд' if i == place else 'дт' for i in range(number)]) + ']', [])
    check(s != t and not (s == t) and s == templates.Substitution.parse('[w|' + '|'.join(['дт'] * number) + ']', []), 'variables')


def scn_base_categories():
    """the categories of the supplied form count however many dependencies there are, unless one of them overlays them"""
    number = each('number', [0, 1, 2, 3, 4, 5, 9])
    others = [r.NUMBER.PLURAL, r.CASE.DATIVE, r.GENDER.FEMININE, r.TIME.FUTURE, r.PERSON.SECOND]
    overlaid = each('overlaid', [None, r.PREPOSITION_FORM.ALTERNATIVE])
    dependencies = [others[i % 5].verbose_id for i in range(number)]
    if overlaid is not None:
        dependencies.insert(each('place', list(range(number + 1))), overlaid.verbose_id)
    supplied = each('supplied', [False, True])
    if supplied:
        dependencies.append('k')
    template = templates.Template()
    template.parse('[' + '|'.join(['w'] + dependencies) + ']', ['w', 'k'])
    word = words.Word(r.WORD_TYPE.PREPOSITION, ['p0', 'p1', 'p2'])
    master = words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['-']))
    base = words.Properties(r.PREPOSITION_FORM.SPECIAL) if each('given', [True, False]) else words.Properties()
    externals = {'w': words.WordForm(word, base), 'k': master}
    value = overlaid if overlaid is not None else base.get(r.PREPOSITION_FORM)
    slot = layout_index(r.WORD_TYPE.PREPOSITION, (value,))
    check(template.substitute(externals, dictionary.Dictionary()) == 'p%d' % slot, 'shown form', dependencies)
