"""Choice of the form of a preposition."""
from utg import words, transformators, relations as r
from specs.common import relations, effective

CONSONANT_LETTERS = 'бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ'
HARD_VOWELS = 'аиоуыэАИОУЫЭ'
SPECIAL_MASTERS = ['всех', 'мне', 'всём', 'что', 'всей']


def consonant(letter):
    return any([letter == c for c in CONSONANT_LETTERS])


def starts_with_cluster(text):
    if text == '':
        return False
    if text[0] not in CONSONANT_LETTERS:
        return False
    return len(text) == 1 or text[1] in CONSONANT_LETTERS


def expected(slave, master, syllables, fluent):
    """the form forced by the rule, None when the rule does not apply"""
    if slave != '' and slave[-1] in CONSONANT_LETTERS:
        if not starts_with_cluster(master):
            return None
        if syllables == 1 and fluent:
            return r.PREPOSITION_FORM.ALTERNATIVE
        if (slave == 'в' or slave == 'с') and master[0] == slave:
            return r.PREPOSITION_FORM.ALTERNATIVE
        return None
    if slave == 'о' and master in SPECIAL_MASTERS:
        return r.PREPOSITION_FORM.SPECIAL
    if master != '' and master[0] in HARD_VOWELS:
        return r.PREPOSITION_FORM.ALTERNATIVE
    return None


def scn_choice():
    """the form of a preposition is decided by its base form and by the sound of the governed word form"""
    master_type = each('master type', [r.WORD_TYPE.TEXT, r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN])
    slave = words.Word(r.WORD_TYPE.PREPOSITION, [text('slave'), text('s1'), text('s2')])
    syllables, fluent = integer('syllables', lo=1), sym('fluent', [True, False])
    if master_type is r.WORD_TYPE.TEXT:
        forms, form_properties = [text('master')], None
    else:
        # the governed form is not the base form of its word
        form_properties = words.Properties(r.CASE.PREPOSITIONAL, r.NUMBER.PLURAL)
        forms = [text('m%d' % i) for i in range(words.Word.get_forms_number(master_type))]
        forms[layout_index(master_type, form_properties.get_raw_key(master_type.schema))] = text('master')
    master = partial_instance(words.Word, type=master_type, forms=forms, properties=words.Properties(),
                              number_of_syllables=syllables, has_fluent_vowel=fluent)
    value = opt('given form', r.PREPOSITION_FORM)
    props = words.Properties(value)
    result = transformators.transform(slave, props, words.WordForm(master, form_properties))
    forced = expected(text('slave'), text('master'), syllables, fluent)
    if forced is not None:
        check(result.get(r.PREPOSITION_FORM) == forced, 'form of the preposition', result.get(r.PREPOSITION_FORM), forced)
        check(result.is_specified(r.PREPOSITION_FORM), 'form of the preposition is given')
    else:
        check(result.get(r.PREPOSITION_FORM) == effective(value, r.PREPOSITION_FORM), 'form of the preposition is kept', result.get(r.PREPOSITION_FORM))
        check(result.is_specified(r.PREPOSITION_FORM) == (value is not None), 'form of the preposition is kept')


def scn_base_form():
    """the rule looks at the base form of the preposition, also when another form is asked for"""
    pinned = opt('pinned', r.PREPOSITION_FORM)
    forms = [text('s0'), text('s1'), text('s2')]
    slave = words.Word(r.WORD_TYPE.PREPOSITION, forms, words.Properties(pinned))
    base = forms[effective(pinned, r.PREPOSITION_FORM).value]
    master = partial_instance(words.Word, type=r.WORD_TYPE.TEXT, forms=['отъезд'], properties=words.Properties(),
                              number_of_syllables=2, has_fluent_vowel=False)
    asked = opt('asked', r.PREPOSITION_FORM)
    result = transformators.transform(slave, words.Properties(asked), words.WordForm(master))
    forced = expected(base, 'отъезд', 2, False)
    check(result.get(r.PREPOSITION_FORM) == (forced if forced is not None else effective(asked, r.PREPOSITION_FORM)), 'form of the preposition')
