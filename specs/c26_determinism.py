"""The same inputs give the same results."""
from utg import words, templates, dictionary, lexicon, constructors, transformators, relations as r
from specs.common import relations, forms_of, neighbour


def labels(word_type, prefix):
    return [prefix + str(i) for i in range(words.Word.get_forms_number(word_type))]


def scene(n, backwards):
    """a template, the words it needs and a dictionary, built in one of two orders"""
    numeral = constructors.construct_integer(n)
    stored = [words.Word(r.WORD_TYPE.ADJECTIVE, labels(r.WORD_TYPE.ADJECTIVE, 'а')), words.Word(r.WORD_TYPE.PREPOSITION, ['о', 'об', 'обо']), words.Word(r.WORD_TYPE.TEXT, ['конец'])]
    store = dictionary.Dictionary(list(reversed(stored)) if backwards else stored)
    noun = words.WordForm(words.Word(r.WORD_TYPE.NOUN, labels(r.WORD_TYPE.NOUN, 'огонь')))
    externals = {}
    for name in (['i', 'w'] if backwards else ['w', 'i']):
        externals[name] = noun if name == 'w' else numeral
    template = templates.Template()
    template.parse('[О|w|пр] [а0|w|i|тв] [w|i|дт] [i] [конец]', ['i', 'w'] if backwards else ['w', 'i'])
    return template, externals, store


def scn_rendering():
    """the rendered text does not depend on what was rendered before, nor on the order in which words were registered or supplied"""
    n = each('number', [1, 2, 5, 11, 22, 1000000])
    other = each('rendered before', [None, 1, 5, 22])
    template, externals, store = scene(n, False)
    text = template.substitute(externals, store)
    if other is not None:
        t, e, d = scene(other, each('order before', [False, True]))
        t.substitute(e, d)
        t.substitute(e, store)
    check(template.substitute(externals, store) == text, 'rendering again')
    again, externals2, store2 = scene(n, True)
    check(again.substitute(externals2, store2) == text, 'rendering in a scene built in another order')
    check(again == template, 'the parsed template')
    restored = templates.Template.deserialize(template.serialize())
    check(restored.substitute(externals2, store) == text, 'rendering a restored template')


def scn_categories_order():
    """the order in which different categories are given makes no difference"""
    relation = each('relation', relations())
    other = neighbour(relation)
    third = neighbour(other)
    a, b, c = rec('a', relation), opt('b', other), opt('c', third)
    one, two = words.Properties(a, b, c), words.Properties(c, a, b)
    check(one == two and hash(one) == hash(two), 'equal sets')
    check(str(one) == str(two), 'printed alike')
    check(one.serialize() == two.serialize(), 'serialized alike')
    check(one.get_raw_key((relation, other, third)) == two.get_raw_key((relation, other, third)), 'read alike')


def scn_markup_order():
    """the order of categories inside one dependency makes no difference"""
    a, b = rec('a', r.CASE), rec('b', r.NUMBER)
    one = templates.Substitution.parse('[w|' + a.verbose_id + ',' + b.verbose_id + ']', ['w'])
    two = templates.Substitution.parse('[w|' + b.verbose_id + ',' + a.verbose_id + ']', ['w'])
    check(one == two and one.serialize() == two.serialize(), 'parsed alike')


def scn_candidates():
    """a random choice is made among the fitting templates in the order of their registration"""
    items = [templates.Template() for i in range(3)]
    asked = frozenset(['a', 'b', 'c'])
    lex = lexicon.Lexicon()
    for i in range(3):
        lex.add_template('k', items[i], frozenset([each('restriction%d' % i, ['a', 'b', 'c'])]))
    for choose in (lex.get_random_template, lex.get_random_nearest_template):
        chosen = possible(choose('k', asked))
        if not choice_refined():
            check(len(chosen) == 3 and all([chosen[i] is items[i] for i in range(3)]), 'candidates in the order of registration')
    offered = lex.get_templates('k', asked)
    check(all([offered[i] is items[i] for i in range(3)]), 'templates in the order of registration')


def scn_word_facts():
    """facts of a word do not depend on the order in which they are asked for"""
    forms = each('forms', [['сон', 'сна', 'снов'], ['ива', 'ивы', 'ив'], ['день', 'дня', ''], ['', 'а', 'б'], ['мне', 'мне', 'мне']])
    one, two = words.Word(r.WORD_TYPE.PREPOSITION, list(forms)), words.Word(r.WORD_TYPE.PREPOSITION, list(forms))
    a, b = one.number_of_syllables, one.has_fluent_vowel
    d, c = two.has_fluent_vowel, two.number_of_syllables
    check(a == c and b == d, 'facts')
    check(one.number_of_syllables == a and one.has_fluent_vowel == b, 'facts asked again')


def scn_filling():
    """filling in missed forms depends on the given forms only"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.PARTICIPLE])
    given = each('given', [(0,), (1,), (0, 1), (1, 2), (2,)])
    forms = [('f%d' % i if i in given else '') for i in range(words.Word.get_forms_number(word_type))]
    one, two = words.Word(word_type, list(forms)), words.Word(word_type, list(forms))
    one.autofill_missed_forms()
    words.Word(word_type, labels(word_type, 'z')).autofill_missed_forms()
    two.autofill_missed_forms()
    check(one.forms == two.forms, 'filled forms')
    two.autofill_missed_forms()
    check(one.forms == two.forms, 'filling twice')
