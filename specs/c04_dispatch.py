"""Which pairs of words agree at all."""
from utg import words, transformators, relations as r
from specs.common import relations, default_of, word_of, effective

NUMERAL_SLAVES = [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN, r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.VERB, r.WORD_TYPE.PARTICIPLE]


def unchanged(result, observed, value, label):
    check(result.is_specified(observed) == (value is not None), label + ': category given or not', observed)
    check(result.get(observed) == effective(value, observed), label + ': value', observed, result.get(observed))


def scn_no_rule():
    """a pair of parts of speech without an agreement rule leaves every category of the dependent word as it was"""
    slave_type = each('slave', [t for t in r.WORD_TYPE.records if t is not r.WORD_TYPE.PREPOSITION])
    master_type = each('master', [t for t in r.WORD_TYPE.records])
    assume(not (master_type is r.WORD_TYPE.INTEGER and slave_type in NUMERAL_SLAVES))
    observed = each('observed', relations())
    value = opt('value', observed)
    numeral = r.INTEGER_FORM if observed is not r.INTEGER_FORM else r.CASE
    other = opt('other', numeral)
    props = words.Properties(value, other)
    result = transformators.transform(word_of(slave_type, 's'), props, words.WordForm(word_of(master_type, 'm')))
    unchanged(result, observed, value, 'no rule')
    unchanged(result, numeral, other, 'no rule')
    unchanged(props, observed, value, 'argument')


def scn_preposition():
    """whatever the governed word is, agreement changes nothing but the form of the preposition"""
    master_type = each('master', [t for t in r.WORD_TYPE.records])
    observed = each('observed', [x for x in relations() if x is not r.PREPOSITION_FORM])
    value = opt('value', observed)
    slave = words.Word(r.WORD_TYPE.PREPOSITION, [text('slave', nonempty=True), text('s1'), text('s2')])
    forms = [text('master', nonempty=True)] * words.Word.get_forms_number(master_type)
    master = partial_instance(words.Word, type=master_type, forms=forms, properties=words.Properties(),
                              number_of_syllables=integer('syllables', lo=1), has_fluent_vowel=sym('fluent', [True, False]))
    props = words.Properties(value)
    result = transformators.transform(slave, props, words.WordForm(master))
    unchanged(result, observed, value, 'preposition')
    unchanged(props, observed, value, 'argument')
    unchanged(props, r.PREPOSITION_FORM, None, 'argument')


def scn_numeral_pairs():
    """every noun, pronoun, adjective, verb and participle does agree with a numeral"""
    slave_type = each('slave', NUMERAL_SLAVES)
    props = words.Properties(r.NUMBER.SINGULAR, r.INTEGER_FORM.PLURAL)
    result = transformators.transform(word_of(slave_type, 's'), props, words.WordForm(word_of(r.WORD_TYPE.INTEGER, 'm')))
    check(result.get(r.NUMBER) == r.NUMBER.PLURAL, 'the numeral governs the number')


def scn_preposition_pairs():
    """a preposition adapts to a word of every part of speech"""
    master_type = each('master', [t for t in r.WORD_TYPE.records])
    spelled, base, form = each('pair', [('отъезд', 'о', 'ALTERNATIVE'), ('всех', 'о', 'SPECIAL'), ('власть', 'в', 'ALTERNATIVE'), ('дом', 'о', None), ('дом', 'в', None)])
    asked = opt('asked', r.PREPOSITION_FORM)
    slave = words.Word(r.WORD_TYPE.PREPOSITION, [base, 's1', 's2'])
    master = words.Word(master_type, [spelled] * words.Word.get_forms_number(master_type))
    result = transformators.transform(slave, words.Properties(asked), words.WordForm(master))
    expected = getattr(r.PREPOSITION_FORM, form) if form is not None else effective(asked, r.PREPOSITION_FORM)
    check(result.get(r.PREPOSITION_FORM) == expected, 'form of the preposition', master_type, spelled)


def scn_same_word():
    """a word agrees with a form of itself as with a form of any other word"""
    kind = each('kind', ['preposition', 'noun'])
    asked = each('asked', ['same word', 'equal word'])
    if kind == 'preposition':
        base, form = each('base', [('о', 'ALTERNATIVE'), ('из', None)])
        slave = words.Word(r.WORD_TYPE.PREPOSITION, [base, 's1', 's2'])
        master = slave if asked == 'same word' else words.Word(r.WORD_TYPE.PREPOSITION, [base, 's1', 's2'])
        result = transformators.transform(slave, words.Properties(), words.WordForm(master))
        expected = getattr(r.PREPOSITION_FORM, form) if form is not None else r.PREPOSITION_FORM.NORMAL
        check(result.get(r.PREPOSITION_FORM) == expected, 'form of the preposition', base)
    else:
        slave = word_of(r.WORD_TYPE.NOUN, 's')
        master = slave if asked == 'same word' else words.Word(r.WORD_TYPE.NOUN, list(slave.forms))
        value = opt('value', r.CASE)
        result = transformators.transform(slave, words.Properties(value), words.WordForm(master, words.Properties(r.CASE.DATIVE)))
        unchanged(result, r.CASE, value, 'no rule')


def scn_among_dependencies():
    """a governing word is agreed with wherever it stands among the dependencies, however many there are"""
    from utg import templates, dictionary
    slave_type = each('slave', NUMERAL_SLAVES + [r.WORD_TYPE.PREPOSITION])
    number = each('dependencies', [1, 2, 3, 4, 5])
    place = each('place', list(range(5)))
    assume(place < number)
    asked = rec('case', r.CASE)
    forms = ['f%d' % i for i in range(words.Word.get_forms_number(slave_type))]
    if slave_type is r.WORD_TYPE.PREPOSITION:
        forms[0] = 'о'
        governor = words.Word(r.WORD_TYPE.TEXT, ['отъезд'])
    else:
        governor = words.Word(r.WORD_TYPE.INTEGER, ['5'], words.Properties(r.NUMBER.PLURAL, r.INTEGER_FORM.PLURAL))
    externals = {'x': words.WordForm(words.Word(slave_type, forms), words.Properties(asked)), 'g': words.WordForm(governor)}
    kinds = [r.WORD_TYPE.TEXT, r.WORD_TYPE.VERB, r.WORD_TYPE.TEXT, r.WORD_TYPE.PARTICIPLE, r.WORD_TYPE.PREPOSITION]
    names = []
    for i in range(number):
        if i == place:
            names.append('g')
        else:
            names.append('d%d' % i)
            externals['d%d' % i] = words.WordForm(words.Word(kinds[i], ['дом'] * words.Word.get_forms_number(kinds[i])))
    template, alone = templates.Template(), templates.Template()
    template.parse('[x|%s]' % '|'.join(names), list(externals.keys()))
    alone.parse('[x|g]', list(externals.keys()))
    found = template.substitute(externals, dictionary.Dictionary())
    check(found == alone.substitute(externals, dictionary.Dictionary()), 'inserted text', slave_type, found)
    if slave_type is r.WORD_TYPE.PREPOSITION:
        check(found == 'f1', 'the preposition adapts', found)
