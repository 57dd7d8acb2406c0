"""Anything may be read before a change: what is read afterwards is what an object changed alone gives."""
from utg import words, templates, dictionary, lexicon, transformators, exceptions, relations as r
from specs.common import relations, default_of
from specs.c15_lexicon import same


TEXTS = ['дом', '', 'лба', 'отъезд', 'м']
WORD_READINGS = ['form', 'normal form', 'all forms', 'facts', 'stored', 'equality', 'registered', 'agreed with', 'agrees', 'shown', 'restored']


def numeral(form):
    return words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['n'], words.Properties(form, r.NUMBER.PLURAL)))


def blank_word(word_type, kind=list):
    return words.Word(word_type, kind([TEXTS[i % 5] for i in range(words.Word.get_forms_number(word_type))]), words.Properties(r.GENDER.FEMININE))


def read_word(word, what):
    """one reading of a word, as values that can be compared"""
    if what == 'form':
        return [word.form(words.Properties(x)) for x in (None, r.NUMBER.PLURAL, r.CASE.DATIVE, r.PREPOSITION_FORM.SPECIAL, r.TIME.FUTURE, r.PREPOSITION_FORM.ALTERNATIVE)]
    if what == 'normal form':
        return word.normal_form()
    if what == 'all forms':
        return [[f.form, f.properties] for f in word.all_forms()]
    if what == 'facts':
        return [word.number_of_syllables, word.has_fluent_vowel]
    if what == 'stored':
        return word.serialize()
    if what == 'equality':
        return [hash(word), word == words.Word(word.type, word.forms, word.properties), word == blank_word(word.type)]
    if what == 'registered':
        store = dictionary.Dictionary([word])
        return [[x, store.has_word(x) and store.get_word(x).properties] for x in TEXTS] + [len(store.get_words())]
    if what == 'agreed with':
        preposition = words.Word(r.WORD_TYPE.PREPOSITION, ['в', 'во', 'в'])
        return [transformators.transform(preposition, words.Properties(), words.WordForm(word, words.Properties(x))) for x in (None, r.NUMBER.PLURAL, r.CASE.GENITIVE)]
    if what == 'agrees':
        return [transformators.transform(word, words.Properties(x), numeral(r.INTEGER_FORM.PLURAL)) for x in (None, r.CASE.DATIVE)]
    if what == 'shown':
        template = templates.Template()
        template.parse('[w] [w|мн,тв] [W|k] %', ['w', 'k'])
        return template.substitute({'w': words.WordForm(word), 'k': numeral(r.INTEGER_FORM.DUAL)}, dictionary.Dictionary())
    return words.Word.deserialize(word.serialize()).forms


def filled_in(types, before, after, kind):
    word_type = each('type', types)
    first, then = each('read before', before), each('read after', after)
    word, alone = blank_word(word_type, kind), blank_word(word_type)
    read_word(word, first)
    check(read_word(word, then) == read_word(alone, then), 'reading ' + then + ' after reading ' + first)
    word.autofill_missed_forms()
    alone = blank_word(word_type)
    alone.autofill_missed_forms()
    result = read_word(word, then)
    check(result == read_word(alone, then), 'reading ' + then + ' after reading ' + first + ' and filling in', result)
    check(word.forms == alone.forms and word == alone, 'the word filled in')


def scn_filled_in():
    """a word that is filled in after anything was read from it is as if nothing had been read"""
    filled_in([r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN] if not thorough() else r.WORD_TYPE.records, WORD_READINGS, WORD_READINGS, list)


def scn_filled_in_facts():
    """facts about a word, agreement with it and its forms are those of the forms filled in, whatever was read before"""
    filled_in([r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN, r.WORD_TYPE.TEXT], WORD_READINGS, ['facts', 'agreed with'], list)


def scn_filled_in_forms():
    """the forms a word shows, enumerates and registers are those filled in, whatever was read before"""
    filled_in([r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.PRONOUN], WORD_READINGS, ['form', 'all forms', 'registered', 'normal form'], list)


def scn_container():
    """a word may be made from a list or a tuple of forms: it is the same word"""
    word_type = each('type', list(r.WORD_TYPE.records))
    what = each('reading', WORD_READINGS)
    one, two = blank_word(word_type, list), blank_word(word_type, tuple)
    check(one == two and two == one and not (one != two) and hash(one) == hash(two), 'words made from the same forms')
    check(read_word(one, what) == read_word(two, what), 'reading ' + what)
    check(list(one.forms) == list(two.forms), 'forms')
    if word_type in (r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN, r.WORD_TYPE.TEXT):
        one.autofill_missed_forms()
        two.autofill_missed_forms()
        check(list(one.forms) == list(two.forms) and one == two, 'forms filled in')
        check(read_word(one, what) == read_word(two, what), 'reading ' + what + ' after filling in')


# ---------------------------------------------------------------- sets of categories

SET_READINGS = ['value', 'specified', 'key', 'text', 'hash', 'distance', 'equality', 'stored', 'copy']


def read_set(p, what):
    kinds = (r.NUMBER, r.CASE, r.GENDER)
    if what == 'value':
        return [p.get(x) for x in kinds]
    if what == 'specified':
        return [p.is_specified(x) for x in kinds]
    if what == 'key':
        return p.get_raw_key(kinds)
    if what == 'text':
        return str(p)
    if what == 'hash':
        return hash(p)
    if what == 'distance':
        return p.manhattan_distance()
    if what == 'equality':
        return [p == words.Properties(r.CASE.DATIVE), p == words.Properties(), {p: 1}.get(words.Properties(r.CASE.DATIVE))]
    if what == 'stored':
        return p.serialize()
    return words.Properties.deserialize(p.serialize()) == p.clone()


def scn_categories():
    """a copy with another value, made after anything was read from the source, is as if nothing had been read"""
    first, then = each('read before', SET_READINGS), each('read after', SET_READINGS)
    base = each('base', [[], [r.CASE.DATIVE], [r.CASE.DATIVE, r.NUMBER.PLURAL]])
    added = each('added', [r.CASE.NOMINATIVE, r.CASE.GENITIVE, r.NUMBER.PLURAL, r.NUMBER.SINGULAR, None])
    source = words.Properties(*base)
    read_set(source, first)
    how = each('copied by', ['clone', 'set', 'set after', 'twice', 'form'])
    if how == 'clone':
        copied = source.clone(added)
    elif how == 'set':
        copied = words.Properties(source, added)
    elif how == 'set after':
        copied = words.Properties(added, source)
    elif how == 'twice':
        middle = source.clone(r.GENDER.FEMININE)
        read_set(middle, first)
        copied = middle.clone(added)
    else:
        copied = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x'], words.Properties(added)), source).properties
    values = [added] + base if how == 'set after' else base + ([r.GENDER.FEMININE] if how == 'twice' else []) + [added]
    check(read_set(copied, then) == read_set(words.Properties(*values), then), 'reading ' + then + ' of a copy after reading ' + first)
    check(read_set(source, then) == read_set(words.Properties(*base), then), 'reading ' + then + ' of the source')


# ---------------------------------------------------------------- dictionaries

STORE_READINGS = ['word', 'no word', 'has', 'words', 'missing', 'shown']


def read_store(store, what):
    if what == 'word':
        return [store.has_word(x) and [store.get_word(x).form, store.get_word(x).properties, store.get_word(x).word] for x in ('a', 'b', 'c', 'd')]
    if what == 'no word':
        return [outcome(store.get_word, x)[0] for x in ('a', 'b', 'c', 'd')]
    if what == 'has':
        return [store.has_word(x) for x in ('a', 'b', 'c', 'd')]
    if what == 'words':
        return store.get_words()
    template = templates.Template()
    template.parse('[a] [b|мн] [c] [D]', [])
    if what == 'missing':
        return template.get_undictionaried_words({}, store)
    kind, value = outcome(template.substitute, {}, store)
    return value if kind == 'value' else [isinstance(value, exceptions.NoWordsFoundError), value.arguments]


def scn_dictionary():
    """a word registered after anything was read from a dictionary is as if nothing had been read"""
    first, then = each('read before', STORE_READINGS), each('read after', STORE_READINGS)
    known = [words.Word(r.WORD_TYPE.PREPOSITION, ['a', 'b', 'c']), words.Word(r.WORD_TYPE.TEXT, ['a']), words.Word(r.WORD_TYPE.TEXT, ['d']), words.Word(r.WORD_TYPE.PREPOSITION, ['b', 'b', 'a'])]
    old = each('registered', [[], [0], [1], [0, 2]])
    added = each('added', [[0], [1], [2], [3], [1, 2], [3, 0]])
    store, alone = dictionary.Dictionary([known[i] for i in old]), dictionary.Dictionary()
    read_store(store, first)
    for i in added:
        store.add_word(known[i])
    for i in old + added:
        alone.add_word(known[i])
    result = read_store(store, then)
    check(result == read_store(alone, then), 'reading ' + then + ' after reading ' + first + ' and registering', result)


# ---------------------------------------------------------------- lexicons

LEXICON_READINGS = ['templates', 'key', 'random', 'nearest', 'nearest of more']


def read_lexicon(lex, what):
    if what == 'templates':
        return [[t for t in lex.get_templates(key, frozenset(asked))] for key in ('k', 'l') for asked in ('', 'a', 'ab')]
    if what == 'key':
        return [lex.has_key('k'), lex.has_key('l')]
    result = []
    for key in ('k', 'l'):
        method = lex.get_random_template if what == 'random' else lex.get_random_nearest_template
        kind, value = outcome(method, key, frozenset('ab' if what == 'nearest of more' else 'a' if what == 'nearest' else ''))
        result.append(value if kind == 'value' else [isinstance(value, exceptions.UnknownLexiconKeyError), value.arguments])
    return result


def scn_lexicon():
    """a template registered after anything was asked is as if nothing had been asked"""
    first, then = each('read before', LEXICON_READINGS), each('read after', LEXICON_READINGS)
    made = []
    for source in ('[w]', '[w] [w]', '%'):
        template = templates.Template()
        template.parse(source, ['w'])
        made.append(template)
    entries = [('k', made[0], ''), ('k', made[1], 'a'), ('l', made[2], 'ab')]
    old = each('registered', [[], [0], [1], [0, 1], [2]])
    added = each('added', [[0], [1], [2], [1, 2]])
    if [i for i in added if i in old]:
        return
    lex, alone = lexicon.Lexicon(), lexicon.Lexicon()
    for i in old:
        lex.add_template(entries[i][0], entries[i][1], frozenset(entries[i][2]))
    read_lexicon(lex, first)
    for i in added:
        lex.add_template(entries[i][0], entries[i][1], frozenset(entries[i][2]))
    for i in old + added:
        alone.add_template(entries[i][0], entries[i][1], frozenset(entries[i][2]))
    result = read_lexicon(lex, then)
    check(result == read_lexicon(alone, then), 'asking for ' + then + ' after asking for ' + first + ' and registering', result)


# ---------------------------------------------------------------- templates

TEMPLATE_READINGS = ['shown', 'shown otherwise', 'missing', 'stored', 'equality', 'failure']


def read_template(template, what):
    word = words.WordForm(words.Word(r.WORD_TYPE.PREPOSITION, ['p', 'q', 'r']))
    other = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['t']))
    store = dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, ['y'])])
    if what == 'shown':
        return template.substitute({'w': word, 'z': other}, store)
    if what == 'shown otherwise':
        return template.substitute({'w': other, 'z': word, 'y': word}, store)
    if what == 'missing':
        return [template.get_undictionaried_words({}, store), template.get_undictionaried_words({'w': word}, dictionary.Dictionary())]
    if what == 'stored':
        return template.serialize()
    if what == 'equality':
        again = templates.Template()
        again.parse('[w|дт] 5%', ['w', 'z'])
        return [template == again, again == template, template != again, template == templates.Template.deserialize(template.serialize())]
    kind, value = outcome(template.substitute, {}, dictionary.Dictionary())
    return value if kind == 'value' else value.arguments


def scn_template():
    """a template parsed after anything was read from it is as if nothing had been read"""
    first, then = each('read before', TEMPLATE_READINGS), each('read after', TEMPLATE_READINGS)
    sources = ['', '[w] [z]', '[w] [W|z]', '[w|дт] 5%', '[y] [w|w]', 'x%s']
    old, new = each('first text', sources), each('second text', sources)
    template, alone = templates.Template(), templates.Template()
    template.parse(old, ['w', 'z'])
    kept = read_template(template, first)
    check(read_template(template, first) == kept, 'reading ' + first + ' twice')
    template.parse(new, ['w', 'z'])
    alone.parse(new, ['w', 'z'])
    result = read_template(template, then)
    check(result == read_template(alone, then), 'reading ' + then + ' after reading ' + first + ' and parsing again', result)
