"""Which words a template lacks."""
from utg import words, templates, dictionary, exceptions, relations as r


def text_word(value):
    return words.Word(r.WORD_TYPE.TEXT, [value])


def scn_missing_words():
    """the reported words are exactly the variables that are neither inserted nor in the dictionary, in order of appearance"""
    shape = [each('first', ['a', 'b', 'c']), each('second', ['a', 'b', None]), each('third', ['a', 'c', None])]
    shape = [x for x in shape if x is not None]
    inserted = [x for x in ['a', 'b'] if each('inserted ' + x, [False, True])]
    stored = [x for x in ['a', 'c'] if each('stored ' + x, [False, True])]
    mark = each('mark', ['[%s]', '[%s|дт]', ' [%s|,] '])
    template = templates.Template()
    template.parse(''.join([mark % x for x in shape]), ['z'])
    externals = {x: words.WordForm(text_word('ext-' + x)) for x in inserted}
    store = dictionary.Dictionary([text_word(x) for x in stored])
    expected = [x for x in shape if x not in inserted and x not in stored]
    check(list(template.get_undictionaried_words(externals, store)) == expected, 'reported words', expected)
    check(list(template.get_undictionaried_words(externals, store)) == expected, 'reported again', expected)
    check(sorted(externals.keys()) == inserted, 'the inserted words are not changed')
    kind, value = outcome(template.substitute, externals, store)
    check((kind == 'value') == (len(expected) == 0), 'rendering succeeds exactly when no word is reported', value)
    if kind == 'raise':
        check(isinstance(value, exceptions.NoWordsFoundError), 'the failure is a missing word', value)
        check(value.arguments == {'text': expected[0]}, 'the failure names the first missing word', value.arguments)


def scn_any_name():
    """whatever its spelling, a variable is reported exactly when it is neither inserted nor in the dictionary"""
    name = token('name', forbid='|[]%')
    template = templates.Template()
    template.parse('x [' + name + '] y', [])
    inserted, stored = each('inserted', [False, True]), each('stored', [False, True])
    externals = {name: words.WordForm(text_word('ext'))} if inserted else {}
    store = dictionary.Dictionary([text_word(name)] if stored else [])
    expected = [] if inserted or stored else [name]
    check(list(template.get_undictionaried_words(externals, store)) == expected, 'reported words')
    kind, value = outcome(template.substitute, externals, store)
    check((kind == 'value') == (inserted or stored), 'rendering succeeds exactly when no word is reported', value)
    if inserted:
        check(value == 'x ext y', 'the inserted word wins over the dictionary', value)
    elif stored:
        check(value == 'x ' + name + ' y', 'the word of the dictionary')


def scn_letter_case():
    """a capitalised variable is looked up in lower case, in the dictionary and among the inserted words alike"""
    spelled = each('spelled', ['Мечь', 'мечь', 'МЕЧЬ', 'Ёж', 'ёж'])
    template = templates.Template()
    template.parse('[' + spelled + ']', [])
    where = each('where', ['nowhere', 'inserted', 'stored'])
    word = text_word(spelled.lower())
    externals = {spelled.lower(): words.WordForm(word)} if where == 'inserted' else {}
    store = dictionary.Dictionary([word] if where == 'stored' else [])
    expected = [] if where != 'nowhere' else [spelled.lower()]
    check(list(template.get_undictionaried_words(externals, store)) == expected, 'reported words')
    kind, value = outcome(template.substitute, externals, store)
    check((kind == 'value') == (where != 'nowhere'), 'rendering succeeds exactly when no word is reported', value)


def scn_dependencies_not_reported():
    """the words a variable agrees with are not reported as missing words"""
    template = templates.Template()
    template.parse('[a|b] [a|b|c]', ['b', 'c'])
    stored = each('stored', [False, True])
    store = dictionary.Dictionary([text_word('a')] if stored else [])
    check(list(template.get_undictionaried_words({}, store)) == ([] if stored else ['a', 'a']), 'reported words')


def scn_no_variables():
    """a text without variables lacks nothing"""
    template = templates.Template()
    template.parse(text('t', forbid='[]%'), [])
    check(list(template.get_undictionaried_words({}, dictionary.Dictionary())) == [], 'reported words')
    check(list(templates.Template().get_undictionaried_words({}, dictionary.Dictionary())) == [], 'reported words of a fresh template')


def scn_missing_dependency():
    """a variable whose agreement word is not inserted is reported with the name of that word"""
    template = templates.Template()
    template.parse('[a|b]', ['b'])
    present = each('present', [[], ['a'], ['b'], ['a', 'b']])
    externals = {x: words.WordForm(text_word('ext-' + x)) for x in present}
    store = dictionary.Dictionary([text_word('a'), text_word('b')])
    kind, value = outcome(template.substitute, externals, store)
    if 'b' in present:
        check(kind == 'value', 'rendering succeeds', value)
    else:
        check(kind == 'raise' and isinstance(value, exceptions.ExternalDependecyNotFoundError), 'the missing agreement word is reported', value)
        check(value.arguments == {'dependency': 'b'}, 'the report names the word', value.arguments)
