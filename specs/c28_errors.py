"""Failures are reported with the documented errors, completely filled in."""
from utg import words, templates, dictionary, lexicon, exceptions, transformators, relations as r


FAMILIES = {
    'WrongFormsNumberError': ('WordsError', ('wrong_number', 'expected_number', 'forms')),
    'DuplicateWordError': ('WordsError', ('type', 'normal_form')),
    'UnknownVerboseIdError': ('WordsError', ('verbose_id',)),
    'ExternalDependecyNotFoundError': ('WordsError', ('dependency',)),
    'WrongDependencyFormatError': ('WordsError', ('dependency',)),
    'NoWordsFoundError': ('WordsError', ('text',)),
    'MoreThenOneWordFoundError': ('WordsError', ('text', 'type')),
    'UnknownLexiconKeyError': ('LexiconError', ('key',)),
    'NoTemplatesWithSpecifiedRestrictions': ('LexiconError', ('key', 'restrictions')),
    'UnknownIntegerFormError': ('TransformatorsError', ('form',)),
}


def reported(kind, value, name, arguments, shown):
    """the failure is the named error, belongs to its family, carries its arguments and says them"""
    cls = getattr(exceptions, name)
    family = getattr(exceptions, FAMILIES[name][0])
    check(kind == 'raise', 'the failure is reported', value)
    check(isinstance(value, cls), 'the failure is reported as ' + name, value)
    check(isinstance(value, family) and isinstance(value, exceptions.UtgError), 'the error belongs to its family')
    check(value.arguments == arguments, 'the arguments of the error', value.arguments)
    message = str(value)
    for part in shown:
        check(part in message, 'the message tells what is wrong', message)
    check('%' not in message or any(['%' in part for part in shown]), 'the message is filled in', message)


def scn_classes():
    """every documented error can be created from its arguments, keeps them, says them, and belongs to its family"""
    name = each('error', sorted(FAMILIES.keys()))
    family, names = FAMILIES[name]
    cls = getattr(exceptions, name)
    values = {x: each(x, ['v-' + x, 'sp ace %s']) for x in names}
    kind, value = outcome(cls, **values)
    check(kind == 'value', 'the error can be created', value)
    kind, caught = outcome(throw, value)
    reported(kind, caught, name, values, list(values.values()))
    check(issubclass(cls, Exception), 'the error is an exception')
    for other in ('WordsError', 'LexiconError', 'TransformatorsError'):
        check(issubclass(cls, getattr(exceptions, other)) == (other == family), 'families do not overlap')
    for other in FAMILIES:
        check(issubclass(cls, getattr(exceptions, other)) == (other == name), 'errors are told apart', other)


def throw(value):
    raise value


def scn_forms_number():
    """a word with too few or too many forms"""
    word_type = each('type', list(r.WORD_TYPE.records))
    expected = words.Word.get_forms_number(word_type)
    given = each('given', ['none', 'fewer', 'more', 'many'])
    number = {'none': 0, 'fewer': expected - 1, 'more': expected + 1, 'many': expected * 2}[given]
    forms = ['f%d' % i for i in range(number)]
    for source in ('constructor', 'serialized data'):
        if source == 'constructor':
            kind, value = outcome(words.Word, word_type, forms)
        else:
            kind, value = outcome(words.Word.deserialize, {'type': word_type.value, 'forms': forms, 'properties': {}})
        check(kind == 'raise', 'the failure is reported', number)
        reported(kind, value, 'WrongFormsNumberError', {'wrong_number': number, 'expected_number': expected, 'forms': forms}, [str(number), str(expected)] + forms[:1])


def scn_right_forms_number():
    """a word with the right number of forms is accepted, whatever the forms are"""
    word_type = each('type', list(r.WORD_TYPE.records))
    forms = [each('form', ['', ' ', '%s']) for i in range(words.Word.get_forms_number(word_type))]
    kind, value = outcome(words.Word, word_type, forms)
    check(kind == 'value' and value.forms == forms, 'the word is created', value)


def scn_markup():
    """unknown categories and blank names in the markup"""
    broken = each('markup', [('[a|ых]', 'ых'), ('[a|дт,ых]', 'ых'), ('[a|ых,дт]', 'ых'), ('[a|дт|ых]', 'ых'), ('[a| Ых ]', 'ых'), ('[a|c]', 'c'), ('[a|b|c]', 'c'),
                             ('[a|дт мн]', 'дт мн'), ('[a|b,дт]', 'b'), ('[a|%s]', '%s'), ('[|b]', None), ('[ ]', None), ('[ |дт]', None), ('[|]', None), ('[\t]', None), ('[\t \n|b]', None), ('[\u00a0|дт]', None)])
    markup, verbose_id = broken
    before = each('before', ['', 'x ', '[b] ', '% '])
    template = templates.Template()
    kind, value = outcome(template.parse, before + markup + ' y', ['a', 'b'])
    if verbose_id is None:
        reported(kind, value, 'WrongDependencyFormatError', {'dependency': markup}, [markup])
    else:
        reported(kind, value, 'UnknownVerboseIdError', {'verbose_id': verbose_id}, [verbose_id])


def scn_categories_text():
    """unknown categories in a list of categories"""
    text = each('text', ['ых', 'мн,ых', 'ых,мн', ' ых ', 'мн,,ых', 'МН', 'мн ,ых,ая'])
    unknown = 'МН' if text == 'МН' else 'ых'
    kind, value = outcome(templates.Substitution.parse_properties, text)
    reported(kind, value, 'UnknownVerboseIdError', {'verbose_id': unknown}, [unknown])


def scn_rendering():
    """words and dependencies that are not supplied"""
    word = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x']))
    case = each('case', [('[m]', 'NoWordsFoundError', {'text': 'm'}), ('[a] [m]', 'NoWordsFoundError', {'text': 'm'}), ('[M|a]', 'NoWordsFoundError', {'text': 'm'}),
                         ('[a|b]', 'ExternalDependecyNotFoundError', {'dependency': 'b'}), ('[a|a|b]', 'ExternalDependecyNotFoundError', {'dependency': 'b'}),
                         ('[a] [A|b|дт]', 'ExternalDependecyNotFoundError', {'dependency': 'b'}), ('100% [m] %s', 'NoWordsFoundError', {'text': 'm'})])
    markup, name, arguments = case
    template = templates.Template()
    template.parse(markup, ['a', 'b'])
    kind, value = outcome(template.substitute, {'a': word}, dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, ['y'])]))
    reported(kind, value, name, arguments, list(arguments.values()))


def scn_any_dependency():
    """a dependency that is not supplied, whatever it is called and wherever it stands"""
    missing = text('missing')
    assume(missing != 'w')
    word = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x']))
    s = templates.Substitution()
    s.id = 'w'
    s.dependencies = each('dependencies', [[], ['w'], [words.Properties(r.CASE.DATIVE)]]) + [missing] + each('further', [[], ['w']])
    kind, value = outcome(s.get_text, {'w': word}, dictionary.Dictionary())
    reported(kind, value, 'ExternalDependecyNotFoundError', {'dependency': missing}, [missing])


def scn_any_word():
    """a word that is neither supplied nor registered, whatever it is called"""
    missing, other = text('missing'), text('other')
    assume(missing != 'w' and missing != other)
    word = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x']))
    s = templates.Substitution()
    s.id = missing
    store = dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, [other])])
    kind, value = outcome(s.get_text, {'w': word}, store)
    reported(kind, value, 'NoWordsFoundError', {'text': missing}, [missing])
    kind, value = outcome(store.get_word, missing)
    reported(kind, value, 'NoWordsFoundError', {'text': missing}, [missing])


def scn_dictionary():
    """texts that are not in a dictionary"""
    asked = each('asked', ['y', '', 'X', 'x ', '%s'])
    store = dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, ['x'])] if each('filled', [False, True]) else [])
    kind, value = outcome(store.get_word, asked)
    reported(kind, value, 'NoWordsFoundError', {'text': asked}, [asked])


def scn_lexicon():
    """unknown keys and requests nothing fits"""
    method = each('method', ['random', 'nearest'])
    filled = each('filled', ['empty', 'other key', 'too demanding'])
    asked = each('asked', [frozenset(), frozenset(['b']), frozenset(['b', 'c'])])
    lex = lexicon.Lexicon()
    if filled == 'other key':
        lex.add_template('other', templates.Template())
    if filled == 'too demanding':
        lex.add_template('k', templates.Template(), frozenset(['a']))
        lex.add_template('k', templates.Template(), frozenset(['a', 'b']))
    choose = lex.get_random_template if method == 'random' else lex.get_random_nearest_template
    kind, value = outcome(choose, 'k', asked)
    if filled == 'too demanding':
        reported(kind, value, 'NoTemplatesWithSpecifiedRestrictions', {'key': 'k', 'restrictions': asked}, ['k'] + list(asked))
        if not asked:
            kind, value = outcome(choose, 'k')
            reported(kind, value, 'NoTemplatesWithSpecifiedRestrictions', {'key': 'k', 'restrictions': asked}, ['k'])
    else:
        reported(kind, value, 'UnknownLexiconKeyError', {'key': 'k'}, ['k'])


def scn_failed_parse():
    """a template that could not be parsed can be parsed again from a correct text"""
    broken = each('broken', ['[a|ых]', '[ ]', '[b] [a|ых]'])
    template, other = templates.Template(), templates.Template()
    check(outcome(template.parse, broken, ['a'])[0] == 'raise', 'the failure is reported')
    template.parse('[a|дт] 5%', ['a'])
    other.parse('[a|дт] 5%', ['a'])
    check(template == other and template.serialize() == other.serialize(), 'the template parsed later is complete')
    check(len(template.get_undictionaried_words({}, dictionary.Dictionary())) == 1, 'words of the template parsed later')


def scn_forms_kept():
    """the error about the number of forms carries the forms as they were given"""
    word_type = each('type', [r.WORD_TYPE.TEXT, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN])
    pattern = each('forms', [['', 'a'], ['a', ''], ['', ''], ['a', 'a'], ['b', 'a'], ['', 'b', '', 'a'], [' ', 'A'], ['a', '', '', '', 'b']])
    expected = words.Word.get_forms_number(word_type)
    kind, value = outcome(words.Word, word_type, list(pattern))
    reported(kind, value, 'WrongFormsNumberError', {'wrong_number': len(pattern), 'expected_number': expected, 'forms': pattern}, [str(len(pattern)), str(expected)])


def scn_any_key():
    """the errors of a lexicon carry the key and the request as they were given, whatever the key is"""
    key = each('key', [5, 0, None, ('k', 1), '', 'K ', '%s', True, r.CASE.DATIVE])
    asked = each('asked', [frozenset(), frozenset([1]), frozenset(['b', 2])])
    lex = lexicon.Lexicon()
    choose = lex.get_random_template if each('method', ['random', 'nearest']) == 'random' else lex.get_random_nearest_template
    kind, value = outcome(choose, key, asked)
    check(kind == 'raise' and isinstance(value, exceptions.UnknownLexiconKeyError), 'an unknown key is reported', value)
    check(value.arguments == {'key': key} and type(value.arguments['key']) is type(key), 'the key of the error', value.arguments)
    lex.add_template(key, templates.Template(), frozenset(['a']))
    kind, value = outcome(choose, key, asked)
    check(kind == 'raise' and isinstance(value, exceptions.NoTemplatesWithSpecifiedRestrictions), 'a request nothing fits is reported', value)
    check(value.arguments == {'key': key, 'restrictions': asked}, 'the arguments of the error', value.arguments)
    check(lex.has_key(key) and len(lex.get_templates(key, frozenset(['a']))) == 1, 'the key is known')


def scn_one_of_many_dependencies():
    """the report names a dependency that is missing, however many there are"""
    pattern = each('dependencies', ['y', 'xy', 'yx', 'xyx', 'yz', 'xyxzx', 'yxxx', 'xxxxxy', 'yzyx', 'xxyxxxxx'])
    template = templates.Template()
    template.parse('[x] [x|' + '|'.join(list(pattern)) + each('tail', ['', '|дт']) + ']', ['x', 'y', 'z'])
    word = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x']))
    kind, value = outcome(template.substitute, {'x': word}, dictionary.Dictionary())
    check(kind == 'raise' and isinstance(value, exceptions.ExternalDependecyNotFoundError), 'the failure is reported', value)
    named = value.arguments.get('dependency')
    check(named in ('y', 'z') and named in pattern, 'a missing dependency is named', named)
    check(value.arguments == {'dependency': named} and named in str(value), 'the arguments of the error', value.arguments)
