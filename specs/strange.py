"""The same guarantees for texts which are easily mistreated: composed letters, letters whose case changes their number, signs with a meaning elsewhere."""
from utg import words, templates, dictionary, exceptions, relations as r

TEXTS = ['е\u0308ж', 'ёж', 'и\u0306', 'й', 'İ', 'İx', 'ß', 'ßx', 'ŉa', 'ǆx', 'ǅx', 'Ǆx', 'ﬁn', '\u00adx', 'a\u200bb', '\ufeffx', 'x\u0301', 'X\u0301', '\U0001d4b3', '\U0001f600',
         '\U0001f600а', 'a\x00b', '\x00', 'א', '\u202ex', 'ⅷ', 'ª', 'ºx', "d'or", "'", '"', '\\', '\\1', '\\n', '\\g<0>', '$a', '${a}', '{0}', '{a}', '{', '}', '<b>', '&amp;', '#', 'ΑΣ', 'ας', 'ς', 'ı', 'I', 'К', 'K',
         '\u212a', 'Å', 'A\u030a', '\u212b', 'ѐ', 'ЁЛКА', 'Ёлка', 'ёЛКА', '1а', '-а', '«а»', 'а.', 'а b', 'a/b', 'a:b', 'a;b', 'a=b', 'a+b', 'a*b', 'a?', 'a(b)', 'a^b', 'None', 'null', '0', '1', 'True', '№5', 'ӂ', 'Ӂ']
BLANKS = ['', ' ', '\t', '\n', '\u00a0', '\u2003', '\x1c']


def text_word(value):
    return words.Word(r.WORD_TYPE.TEXT, [value])


def scn_texts():
    """a word of any spelling is stored, found, compared, restored and shown exactly"""
    value = each('text', TEXTS + BLANKS)
    word = text_word(value)
    check(words.WordForm(word).form == value and word.normal_form() == value and [f.form for f in word.all_forms()] == [value], 'shown verbatim', value)
    check(words.WordForm(word, words.Properties(r.WORD_CASE.UPPER)).form == value[:1].upper() + value[1:], 'capitalised', value)
    check(words.WordForm(word, words.Properties(r.WORD_CASE.LOWER)).form == value, 'not capitalised', value)
    store = dictionary.Dictionary([word])
    again = words.Word.deserialize(word.serialize())
    check(again == word and again.forms == [value] and again.serialize() == word.serialize(), 'restored', value)
    check(store.get_word(value).form == value and store.get_word(value).word is word, 'found', value)
    for other in TEXTS + BLANKS:
        check(store.has_word(other) == (other == value), 'no other text is known', value, other)
        check((text_word(other) == word) == (other == value), 'compared exactly', value, other)
    both = dictionary.Dictionary([word] + [text_word(other) for other in TEXTS if other != value])
    check(both.get_word(value).word is word, 'found among others', value)


def scn_inserted():
    """the text of a template and of the inserted words is kept whatever it consists of"""
    value = each('text', TEXTS + BLANKS)
    place = each('place', ['around', 'inserted', 'stored', 'both'])
    around = value if place in ('around', 'both') else 'x'
    template = templates.Template()
    template.parse(around + '[a]' + around + '[a]' + around, ['a'])
    inserted = value if place in ('inserted', 'both') else 'y'
    if place == 'stored':
        inserted = value
    externals = {'a': words.WordForm(text_word(inserted))}
    expected = around + inserted + around + inserted + around
    check(template.substitute(externals, dictionary.Dictionary()) == expected, 'rendered text', value)
    again = templates.Template.deserialize(template.serialize())
    check(again == template and again.substitute(externals, dictionary.Dictionary()) == expected, 'rendered after restoring', value)


def scn_names():
    """a variable is looked up under its name whatever it consists of"""
    name = each('name', TEXTS)
    pad = each('pad', ['', ' ', '\u00a0', '\n'])
    key = name.lower()
    template = templates.Template()
    source = '[' + pad + name + pad + ']'
    template.parse(source, [])
    check(list(template.get_undictionaried_words({}, dictionary.Dictionary())) == [key], 'the name', name)
    upper = name[0].isupper()
    for where in ('inserted', 'stored'):
        word = text_word(key if where == 'stored' else 'щи')
        externals = {key: words.WordForm(word)} if where == 'inserted' else {}
        store = dictionary.Dictionary([word] if where == 'stored' else [])
        check(list(template.get_undictionaried_words(externals, store)) == [], 'nothing is missing', name)
        kind, value = outcome(template.substitute, externals, store)
        text_shown = word.forms[0]
        check(kind == 'value' and value == (text_shown[0].upper() + text_shown[1:] if upper else text_shown), 'rendered text', name, value)
    s = templates.Substitution.parse(source, [])
    check(s.id == key and templates.Substitution.deserialize(s.serialize()) == s, 'restored', name)
    check(list(s.dependencies) == ([words.Properties(r.WORD_CASE.UPPER)] if upper else []), 'dependencies', name)


def scn_dependencies():
    """a supplied word is recognised as a dependency whatever its name consists of; anything else must be a code"""
    name = each('name', [x for x in TEXTS if x.lower() == x.lower().strip()])
    key = name.lower()
    s = templates.Substitution.parse('[w|' + each('pad', ['', ' ', '\t']) + name + '|дт]', [key])
    check(list(s.dependencies) == [key, words.Properties(r.CASE.DATIVE)], 'dependencies', name)
    kind, value = outcome(templates.Substitution.parse, '[w|' + name + ']', ['w'])
    check(kind == 'raise' and isinstance(value, exceptions.UnknownVerboseIdError), 'an unknown code is refused', name)
    check(value.arguments == {'verbose_id': key}, 'the report names the code', value.arguments)


def scn_blanks():
    """every kind of blank around a name, a dependency or a code is ignored, and codes made of blanks are skipped"""
    one, two = each('before', BLANKS), each('after', BLANKS)
    where = each('where', ['name', 'dependency', 'code', 'first code', 'blank code', 'upper', 'no code'])
    name, dependency, code, first = 'w', 'k', 'мн', 'дт'
    if where == 'name':
        name = one + name + two
    elif where == 'upper':
        name = one + 'W' + two
    elif where == 'dependency':
        dependency = one + dependency + two
    elif where == 'code':
        code = one + code + two
    elif where == 'first code':
        first = one + first + two
    elif where == 'blank code':
        first = first + ',' + one + two
    expected = ['k', words.Properties(r.CASE.DATIVE, r.NUMBER.PLURAL)]
    markup = '[' + name + '|' + dependency + '|' + first + ',' + code + ']'
    if where == 'no code':
        markup = '[w|k|' + one + '|дт,мн|' + two + ',]'
        expected = ['k', words.Properties(), words.Properties(r.CASE.DATIVE, r.NUMBER.PLURAL), words.Properties()]
    if where == 'upper':
        expected = expected + [words.Properties(r.WORD_CASE.UPPER)]
    s = templates.Substitution.parse(markup, ['k', 'w'])
    check(s.id == 'w', 'name', markup, s.id)
    check(list(s.dependencies) == expected, 'dependencies', markup)
    check(templates.Substitution.parse_properties(one + 'дт' + two + ',' + one + two + ',мн') == words.Properties(r.CASE.DATIVE, r.NUMBER.PLURAL), 'codes', markup)
