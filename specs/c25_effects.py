"""Using the library does not change what it is given."""
from utg import words, templates, dictionary, lexicon, transformators, constructors, exceptions, data, logic, relations as r
from specs.common import relations, forms_of


def labels(word_type, prefix):
    return [prefix + str(i) for i in range(words.Word.get_forms_number(word_type))]


def categories(props):
    """everything that can be read from a set of categories"""
    return [(props.is_specified(x), props.get(x)) for x in relations()]


def word_state(word):
    return [word.type, list(word.forms), categories(word.properties)]


def form_state(form):
    return [word_state(form.word), categories(form.properties), categories(form.form_properties), form.form]


def store_state(store, probes):
    return [(store.get_word(x) if store.has_word(x) else None) for x in probes]


def unchanged(before, after, what):
    check(before == after, what + ' is not changed')


def scn_rendering():
    """rendering changes neither the template, the inserted words, their mapping, nor the dictionary, whatever was inserted"""
    case = rec('case', r.CASE)
    own, gender = opt('own number', r.NUMBER), opt('gender', r.GENDER)
    numeral = rec('numeral', r.INTEGER_FORM)
    noun = words.WordForm(words.Word(r.WORD_TYPE.NOUN, labels(r.WORD_TYPE.NOUN, 'во'), words.Properties(own)), words.Properties(r.CASE.DATIVE))
    adjective = words.WordForm(words.Word(r.WORD_TYPE.ADJECTIVE, labels(r.WORD_TYPE.ADJECTIVE, 'а'), words.Properties(gender)))
    number = words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['2'], words.Properties(numeral)))
    prep = words.WordForm(words.Word(r.WORD_TYPE.PREPOSITION, ['в', 'во', '']))
    stored = words.Word(r.WORD_TYPE.TEXT, ['t'])
    store = dictionary.Dictionary([stored])
    externals = {'n': noun, 'a': adjective, 'i': number, 'p': prep}
    template = templates.Template()
    template.parse(each('text', ['[p|n] [i] [a|n|i] [N|i|' + 'тв] [t]', '[t|n] [a|i|мн] [missing]', '[n|a|p] [A|other]', '[n|] [a|,|n]']), ['n', 'a', 'i', 'p', 'other'])
    template = templates.Template.deserialize(template.serialize())
    for s in template._substitutions:
        s.dependencies.append(words.Properties(case))
    before = [form_state(noun), form_state(adjective), form_state(number), form_state(prep), word_state(stored)]
    saved, known = template.serialize(), store_state(store, ['t', 'n', 'missing', '2'])
    first = outcome(template.substitute, externals, store)
    second = outcome(template.substitute, externals, store)
    check(first[0] == second[0], 'rendering twice ends alike')
    if first[0] == 'value':
        check(first[1] == second[1], 'rendering twice gives the same text')
    template.get_undictionaried_words(externals, store)
    unchanged(before, [form_state(noun), form_state(adjective), form_state(number), form_state(prep), word_state(stored)], 'an inserted word')
    unchanged(saved, template.serialize(), 'the template')
    unchanged(known, store_state(store, ['t', 'n', 'missing', '2']), 'the dictionary')
    check(len(store.get_words()) == 1, 'the dictionary does not grow')
    check(sorted(externals.keys()) == ['a', 'i', 'n', 'p'], 'the mapping of inserted words is not changed')
    check(externals['n'] is noun and externals['a'] is adjective and externals['i'] is number and externals['p'] is prep, 'the mapping of inserted words is not changed')


def scn_agreement():
    """agreeing one word with another changes neither of them nor the categories that were passed"""
    slave_type = each('slave', list(r.WORD_TYPE.records))
    master_type = each('master', list(r.WORD_TYPE.records))
    numeral, case, mode = rec('numeral', r.INTEGER_FORM), opt('case', r.CASE), opt('mode', r.DEPENDENCY_MODE)
    slave = words.Word(slave_type, labels(slave_type, 's'), words.Properties(opt('gender', r.GENDER)))
    if slave_type is r.WORD_TYPE.PREPOSITION:
        slave.forms[0] = each('spelling', ['о', 'в'])
    master = words.WordForm(words.Word(master_type, labels(master_type, 'вс')))
    if slave_type is r.WORD_TYPE.PREPOSITION:
        master.word.forms[0] = each('master spelling', ['отъезд', 'всех', 'волна', 'сон'])
    asked = words.Properties(numeral, case, mode)
    before = [word_state(slave), form_state(master), categories(asked)]
    result = transformators.transform(slave, asked, master)
    again = transformators.transform(slave, asked, master)
    unchanged(before, [word_state(slave), form_state(master), categories(asked)], 'an argument')
    check(categories(result) == categories(again), 'agreeing twice gives the same categories')


def scn_word_operations():
    """asking a word for its forms and facts changes neither the word nor what was passed"""
    word_type = each('type', list(r.WORD_TYPE.records))
    relation = each('relation', list(word_type.schema) + [r.WORD_CASE])
    own, asked = opt('own', relation), opt('asked', relation)
    blank = each('blank forms', ['none', 'first', 'last'])
    word = words.Word(word_type, forms_of(word_type, 'f', nonempty=True), words.Properties(own))
    if blank != 'none':
        word.forms[0 if blank == 'first' else -1] = ''
    request = words.Properties(asked)
    before = [word_state(word), categories(request)]
    operation = each('operation', ['form', 'normal_form', 'all_forms', 'wordform', 'serialize', 'keys', 'compare'])
    if operation == 'form':
        word.form(request)
    elif operation == 'normal_form':
        word.normal_form()
    elif operation == 'all_forms':
        for form in word.all_forms():
            form.form
    elif operation == 'wordform':
        form = words.WordForm(word, request, request)
        form.form
        shown = words.WordForm(word, request)
        shown.form
        words.WordForm(word).form
    elif operation == 'serialize':
        copy = words.Word.deserialize(word.serialize())
        copy.forms[0] = 'changed'
    elif operation == 'keys':
        keys = words.Word.get_keys(word_type)
        number = len(keys)
        keys[0] = None
        del keys[1:]
        check(len(words.Word.get_keys(word_type)) == number, 'the list of keys is a copy')
        check(words.Word.get_keys(word_type)[0] is not None, 'the list of keys is a copy')
        check(words.Word.get_forms_number(word_type) == number, 'the number of forms is not changed')
    else:
        other = words.Word(word_type, list(word.forms), words.Properties(own))
        check(word == other and not (word != other), 'words of the same content are equal')
        hash(word)
        hash(request)
        hash(words.WordForm(word, request))
    unchanged(before, [word_state(word), categories(request)], 'the word')


def scn_defaults():
    """words created without categories stay without them whatever is done with other words"""
    first = words.Word(r.WORD_TYPE.TEXT, ['x'])
    form = words.WordForm(first, words.Properties(r.WORD_CASE.UPPER))
    changed = first.properties.clone(opt('case', r.CASE), opt('number', r.NUMBER))
    words.WordForm(first, changed).form
    store = dictionary.Dictionary()
    store.add_word(first)
    second = words.Word(r.WORD_TYPE.TEXT, ['x'])
    for relation in relations():
        check(not second.properties.is_specified(relation), 'a new word has no categories', relation)
        check(not words.Properties().is_specified(relation), 'a new set of categories is empty', relation)
    check(len(dictionary.Dictionary().get_words()) == 0, 'a new dictionary is empty')
    check(form.form == 'X' and first.form(words.Properties()) == 'x', 'the forms of the first word')
    template = templates.Template()
    template.parse('[x]', [])
    other = templates.Template()
    check(other.template is None and len(other.serialize()['substitutions']) == 0, 'a new template is empty')
    s = templates.Substitution()
    s.dependencies.append('x')
    check(len(templates.Substitution().dependencies) == 0, 'a new variable has no dependencies')
    lex = lexicon.Lexicon()
    lex.add_template('k', template)
    check(not lexicon.Lexicon().has_key('k'), 'a new lexicon is empty')


def scn_parsing():
    """parsing leaves the list of known names as it is, and the parsed templates are independent"""
    names = ['a', 'b']
    first, second = templates.Template(), templates.Template()
    first.parse('[a|b|дт] [B]', names)
    saved = first.serialize()
    second.parse(each('text', ['', '[a]', '[b|a|мн] [c] [a]', '[a|b|дт] [B]']), names)
    check(names == ['a', 'b'], 'the list of names is not changed')
    unchanged(saved, first.serialize(), 'the first template')
    written = templates.Substitution.parse_properties('дт')
    other = templates.Substitution.parse_properties('мн')
    check(written.is_specified(r.CASE) and not written.is_specified(r.NUMBER), 'categories of the first text')
    check(other.is_specified(r.NUMBER) and not other.is_specified(r.CASE), 'categories of the second text')


def scn_filling():
    """filling in missed forms changes only the missed forms of that word"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN])
    missed = each('missed', [(), (0,), (1,), (0, 2), (1, 2)])
    forms = forms_of(word_type, 'f', nonempty=True)
    other = words.Word(word_type, list(forms), words.Properties(r.GENDER.NEUTER))
    for i in missed:
        other.forms[i] = ''
    kept = words.Word(word_type, list(other.forms), words.Properties(r.GENDER.NEUTER))
    other_state = word_state(kept)
    own = categories(other.properties)
    other.autofill_missed_forms()
    unchanged(other_state, word_state(kept), 'another word')
    unchanged(own, categories(other.properties), 'the word\'s categories')
    for i in range(len(forms)):
        check(i in missed or other.forms[i] == forms[i], 'a given form is not changed', i)
    check(words.Word.get_forms_number(word_type) == len(forms), 'the number of forms is not changed')


def scn_numbers():
    """a number obtained once stays as it was when others are obtained and used"""
    n = each('number', [0, 1, 2, 11, 10000, 10001, 1000000, -1])
    form = constructors.construct_integer(n)
    before = form_state(form)
    for m in (n, n + 1, 5):
        other = constructors.construct_integer(m)
        noun = words.Word(r.WORD_TYPE.NOUN, forms_of(r.WORD_TYPE.NOUN, 'n'))
        transformators.transform(noun, other.properties.clone(r.CASE.DATIVE), other)
        other.form
    unchanged(before, form_state(form), 'the number')
    unchanged(before, form_state(constructors.construct_integer(n)), 'the number')


def scn_stored_data():
    """restoring objects leaves the stored data as it is"""
    properties = {1: 0, 2: 1, '4': 1, 99: 5}
    word_data = {'type': r.WORD_TYPE.TEXT.value, 'forms': [text('t')], 'properties': properties}
    kept = [word_data['type'], list(word_data['forms']), dict(properties)]
    word = words.Word.deserialize(word_data)
    word.forms[0] = 'changed'
    check([word_data['type'], list(word_data['forms']), dict(properties)] == kept, 'the stored word is not changed')
    check(sorted(word_data.keys()) == ['forms', 'properties', 'type'], 'the stored word is not changed')
    stored = {'id': 'a', 'dependencies': ['x', {1: 0}]}
    s = templates.Substitution.deserialize(stored)
    s.dependencies.append('y')
    check(stored['id'] == 'a' and len(stored['dependencies']) == 2 and stored['dependencies'][1] == {1: 0}, 'the stored variable is not changed')
    stored = {'template': '%s', 'substitutions': [{'id': 'a', 'dependencies': []}]}
    template = templates.Template.deserialize(stored)
    template.parse('[b] [c]', [])
    check(stored == {'template': '%s', 'substitutions': [{'id': 'a', 'dependencies': []}]}, 'the stored template is not changed')


def scn_given_lists():
    """dictionaries and lexicons leave what they are given as it is"""
    first = words.Word(r.WORD_TYPE.TEXT, [text('a')], words.Properties(opt('own', r.NUMBER)))
    second = words.Word(r.WORD_TYPE.TEXT, [text('b')])
    given = [first, second]
    before = [word_state(first), word_state(second)]
    store = dictionary.Dictionary(given)
    store.add_word(words.Word(r.WORD_TYPE.TEXT, ['x']))
    result = store.get_words()
    result.clear()
    check(len(store.get_words()) > 0, 'the returned set of words is a copy')
    check(len(given) == 2 and given[0] is first and given[1] is second, 'the given list is not changed')
    unchanged(before, [word_state(first), word_state(second)], 'a given word')
    template = templates.Template()
    lex = lexicon.Lexicon()
    restrictions = set(['a'])
    asked = set(['a', 'b'])
    lex.add_template('k', template, restrictions)
    lex.get_templates('k', asked)
    lex.get_random_template('k', asked)
    lex.get_random_nearest_template('k', asked)
    check(restrictions == set(['a']) and asked == set(['a', 'b']), 'restrictions are not changed')
    check(template.template is None, 'the template is not changed')


def scn_given_orders():
    """what is passed as a list or mapping keeps its elements in their order, whatever they are"""
    kinds = [r.WORD_TYPE.TEXT, r.WORD_TYPE.NOUN, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN]
    order = each('order', [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (2, 0, 1, 3), (1, 3, 0, 2), (0, 0, 2, 1)])
    entries = [words.Word(kinds[i], ['%d%d' % (9 - i, j) for j in range(words.Word.get_forms_number(kinds[i]))]) for i in range(4)]
    given = [entries[i] for i in order]
    store = dictionary.Dictionary(given)
    check(len(given) == len(order) and all([given[i] is entries[order[i]] for i in range(len(order))]), 'the words of a list keep their order')
    names = [['b', 'a', 'B'], ['a', 'a', 'c'], ['', 'z', 'a']][order[0] % 3]
    known = list(names)
    template = templates.Template()
    template.parse('[a|b] [c|a|мн]' if 'b' in names else '[a|мн] [c]', known)
    check(known == names, 'the known names keep their order')
    externals = {'z': words.WordForm(entries[0]), 'a': words.WordForm(entries[1]), 'b': words.WordForm(entries[0]), 'c': words.WordForm(entries[2])}
    keys = list(externals.keys())
    template.get_undictionaried_words(externals, store)
    template.substitute(externals, store)
    check(list(externals.keys()) == keys, 'the supplied words keep their order')
    data = template.serialize()
    dependencies = [list(s['dependencies']) for s in data['substitutions']]
    templates.Template.deserialize(data)
    check([list(s['dependencies']) for s in data['substitutions']] == dependencies, 'stored dependencies keep their order')
    forms = ['%d' % ((7 * i + order[0]) % 5) for i in range(words.Word.get_forms_number(r.WORD_TYPE.NOUN))]
    forms[2] = ''
    before = list(forms)
    word = words.Word(r.WORD_TYPE.NOUN, forms)
    word.autofill_missed_forms()
    list(word.all_forms())
    word.has_fluent_vowel
    dictionary.Dictionary([word])
    check(forms == before, 'the given forms keep their order')
    stored = {'type': r.WORD_TYPE.NOUN.value, 'forms': list(before), 'properties': {}}
    words.Word.deserialize(stored).autofill_missed_forms()
    check(stored['forms'] == before, 'stored forms keep their order')
    restrictions = ['b', 'a', 'c']
    lex = lexicon.Lexicon()
    lex.add_template('k', template, frozenset(restrictions))
    lex.get_templates('k', frozenset(restrictions))
    check(restrictions == ['b', 'a', 'c'], 'restrictions keep their order')
    slots = list(data_keys(order[0]))
    offered = list(slots)
    logic.get_nearest_key(slots[0], offered)
    check(offered == slots, 'offered slots keep their order')


def data_keys(n):
    from utg import data
    keys = data.INVERTED_WORDS_CACHES[r.WORD_TYPE.NOUN]
    return [keys[(5 * i + n) % len(keys)] for i in range(6)]


def scn_registering():
    """registering a word, complete or with blank forms, leaves the word and the words registered before as they are"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN])
    blank = each('blank', ['none', 'first', 'last', 'all'])
    forms = labels(word_type, 'p')
    if blank == 'first':
        forms[0] = ''
    elif blank == 'last':
        forms[-1] = ''
    elif blank == 'all':
        forms = [''] * len(forms)
    given = words.Word(word_type, forms, words.Properties(opt('own', r.NUMBER)))
    kept = words.Word(r.WORD_TYPE.TEXT, [each('spelling', ['p0', 'p1', '', 'x'])])
    before = [word_state(given), word_state(kept)]
    store = dictionary.Dictionary([kept])
    if each('how', ['added', 'constructor']) == 'added':
        store.add_word(given)
    else:
        store = dictionary.Dictionary([kept, given])
    store.has_word('p1')
    outcome(store.get_word, 'p1')
    store.get_words()
    unchanged(before, [word_state(given), word_state(kept)], 'a registered word')


def scn_nearest():
    """searching for the nearest slot leaves the candidates as they are"""
    keys = [(r.NUMBER.PLURAL, None), (r.NUMBER.SINGULAR, r.GENDER.FEMININE), (r.NUMBER.SINGULAR, r.GENDER.NEUTER)]
    kept = list(keys)
    logic.get_nearest_key((rec('number', r.NUMBER), opt('gender', r.GENDER)), keys)
    check(keys == kept, 'the candidates are not changed')


def scn_lexicon_requests():
    """asking a lexicon changes nothing in it: later requests see the same templates in the same order"""
    kinds = ['none', 'a', 'b', 'ab']
    sets = {'none': frozenset(), 'a': frozenset(['a']), 'b': frozenset(['b']), 'ab': frozenset(['a', 'b'])}
    lex = lexicon.Lexicon()
    stored = []
    for i in range(3):
        kind = each('registered%d' % i, kinds)
        template = templates.Template()
        template.parse('t%d' % i, [])
        if kind == 'none' and i == 0:
            lex.add_template('k', template)
        else:
            lex.add_template('k', template, sets[kind])
        stored.append((template, sets[kind]))
    other = templates.Template()
    lex.add_template('l', other)
    asked = sets[each('asked', kinds)]
    request = each('request', ['random', 'nearest', 'all', 'has', 'unknown'])
    probes = [frozenset(), frozenset(['a']), frozenset(['b']), frozenset(['a', 'b'])]
    before = [list(lex.get_templates('k', x)) for x in probes] + [list(lex.get_templates('l', x)) for x in probes]
    if request == 'random':
        outcome(lex.get_random_template, 'k', asked)
    elif request == 'nearest':
        outcome(lex.get_random_nearest_template, 'k', asked)
    elif request == 'all':
        lex.get_templates('k', asked)
    elif request == 'has':
        lex.has_key('k')
        lex.has_key('unknown')
    else:
        outcome(lex.get_random_template, 'unknown', asked)
        outcome(lex.get_random_nearest_template, 'unknown', asked)
        outcome(lex.get_templates, 'unknown', asked)
    unchanged(before, [list(lex.get_templates('k', x)) for x in probes] + [list(lex.get_templates('l', x)) for x in probes], 'the lexicon')
    check(lex.has_key('k') and lex.has_key('l') and not lex.has_key('unknown'), 'the keys of the lexicon')


def scn_given_requests():
    """a set of restrictions given for registering or asking may be a changeable one: it is not changed"""
    shapes = ['', 'a', 'b', 'ab']
    registered = [set(each('first', shapes)), set(each('second', shapes))]
    asked = set(each('asked', ['', 'a', 'ac', 'abc', 'c']))
    kept = [frozenset(x) for x in registered] + [frozenset(asked)]
    lex = lexicon.Lexicon()
    for restrictions in registered:
        lex.add_template('k', templates.Template(), restrictions)
    what = each('what', ['templates', 'random', 'nearest'])
    for key in ('k', 'l'):
        if what == 'templates':
            lex.get_templates(key, asked)
        else:
            outcome(lex.get_random_template if what == 'random' else lex.get_random_nearest_template, key, asked)
        check([frozenset(x) for x in registered + [asked]] == kept, 'the sets given are not changed', what, key)
