"""Agreement of the dependent word with a numeral."""
from utg import words, transformators, data, relations as r
from specs.common import relations, default_of, last_given, word_of, effective

NOUN_LIKE = [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN]
ADJECTIVE_LIKE = [r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.VERB, r.WORD_TYPE.PARTICIPLE]


def noun_rule(numeral, mode, case, animality):
    """(noun form, number, case or None when the case is kept)"""
    if mode == r.DEPENDENCY_MODE.SEMANTIC:
        return (r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR if numeral == r.INTEGER_FORM.SINGULAR else r.NUMBER.PLURAL, None)
    if numeral == r.INTEGER_FORM.SINGULAR:
        return (r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, None)
    if numeral == r.INTEGER_FORM.DUAL:
        if case == r.CASE.NOMINATIVE or (case == r.CASE.ACCUSATIVE and animality == r.ANIMALITY.INANIMATE):
            return (r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        return (r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, None)
    if numeral == r.INTEGER_FORM.COMPOSITE_DUAL:
        if case == r.CASE.NOMINATIVE or case == r.CASE.ACCUSATIVE:
            return (r.NOUN_FORM.NORMAL, r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        return (r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, None)
    if numeral == r.INTEGER_FORM.PLURAL:
        if case == r.CASE.NOMINATIVE or case == r.CASE.ACCUSATIVE:
            return (r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, r.CASE.GENITIVE)
        return (r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, None)
    return (r.NOUN_FORM.COUNTABLE, r.NUMBER.PLURAL, r.CASE.GENITIVE)


def adjective_rule(numeral, mode, case, gender):
    """(number, case or None when the case is kept)"""
    if mode == r.DEPENDENCY_MODE.SEMANTIC:
        return (r.NUMBER.SINGULAR if numeral == r.INTEGER_FORM.SINGULAR else r.NUMBER.PLURAL, None)
    if numeral == r.INTEGER_FORM.SINGULAR:
        return (r.NUMBER.SINGULAR, None)
    direct = case == r.CASE.NOMINATIVE or case == r.CASE.ACCUSATIVE
    if numeral == r.INTEGER_FORM.DUAL:
        if direct:
            return (r.NUMBER.PLURAL, r.CASE.NOMINATIVE if gender == r.GENDER.FEMININE else r.CASE.GENITIVE)
        return (r.NUMBER.PLURAL, None)
    if numeral == r.INTEGER_FORM.COMPOSITE_DUAL:
        if direct:
            return (r.NUMBER.SINGULAR, r.CASE.GENITIVE)
        return (r.NUMBER.PLURAL, None)
    if numeral == r.INTEGER_FORM.PLURAL:
        return (r.NUMBER.PLURAL, r.CASE.GENITIVE if direct else None)
    return (r.NUMBER.PLURAL, r.CASE.GENITIVE)


def numeral_form():
    return words.WordForm(words.Word(type=r.WORD_TYPE.INTEGER, forms=[text('numeral')],
                                     properties=words.Properties(opt('numeral.form', r.INTEGER_FORM))))


def slave_word(word_type):
    """a word that fixes no category itself, or one of every kind (the rules depend on the request only)"""
    own = words.Properties()
    if each('own categories', ['none', 'every']) == 'every':
        own = words.Properties(*[rec('own.' + relation.__name__, relation) for relation in relations()])
    return word_of(word_type, properties=own)


def inputs(observed):
    """a dependent property set with every category that can matter: all given, all absent, or (every / any) one absent"""
    matter = [r.INTEGER_FORM, r.DEPENDENCY_MODE, r.CASE, r.ANIMALITY, r.GENDER]
    if observed not in matter:
        matter.append(observed)
    given = {}
    if thorough():
        for relation in matter:
            given[relation] = opt(relation.__name__, relation)
        return given
    absent = each('absent', ['nothing', 'everything'] + matter)
    for relation in matter:
        given[relation] = rec(relation.__name__, relation) if absent != 'everything' and absent is not relation else None
    return given


def expect(result, observed, changed, given):
    if observed in changed and changed[observed] is not None:
        check(result.is_specified(observed), 'category set by the rule', observed)
        check(result.get(observed) == changed[observed], 'value set by the rule', observed, result.get(observed), changed[observed])
    else:
        old = given.get(observed)
        check(result.is_specified(observed) == (old is not None), 'category not touched by the rule', observed)
        check(result.get(observed) == effective(old, observed), 'value not touched by the rule', observed, result.get(observed))


def scn_noun():
    """a noun or pronoun next to a numeral takes the form, number and case of the numeral-government table and nothing else changes"""
    word_type = each('slave', NOUN_LIKE)
    observed = each('observed', relations())
    given = inputs(observed)
    props = words.Properties(*given.values())
    result = transformators.transform(slave_word(word_type), props, numeral_form())
    form, number, case = noun_rule(effective(given[r.INTEGER_FORM], r.INTEGER_FORM), effective(given[r.DEPENDENCY_MODE], r.DEPENDENCY_MODE),
                                   effective(given[r.CASE], r.CASE), effective(given[r.ANIMALITY], r.ANIMALITY))
    expect(result, observed, {r.NOUN_FORM: form, r.NUMBER: number, r.CASE: case}, given)
    expect(props, observed, {}, given)


def scn_adjective():
    """an adjective, verb or participle next to a numeral takes the number and case of the numeral-government table and nothing else changes"""
    word_type = each('slave', ADJECTIVE_LIKE)
    observed = each('observed', relations())
    given = inputs(observed)
    props = words.Properties(*given.values())
    result = transformators.transform(slave_word(word_type), props, numeral_form())
    number, case = adjective_rule(effective(given[r.INTEGER_FORM], r.INTEGER_FORM), effective(given[r.DEPENDENCY_MODE], r.DEPENDENCY_MODE),
                                  effective(given[r.CASE], r.CASE), effective(given[r.GENDER], r.GENDER))
    expect(result, observed, {r.NUMBER: number, r.CASE: case}, given)
    expect(props, observed, {}, given)


def beside(types, kinds):
    """categories the table does not mention have no influence on what it imposes"""
    word_type = each('slave', types)
    matter = [r.INTEGER_FORM, r.DEPENDENCY_MODE, r.CASE, kinds]
    other = each('other', [x for x in relations() if x not in matter])
    given = {relation: rec(relation.__name__, relation) for relation in matter}
    given[other] = rec('other value', other)
    own = words.Properties(given[other]) if each('own', [False, True]) else words.Properties()
    return given, transformators.transform(word_of(word_type, properties=own), words.Properties(*given.values()), numeral_form())


def scn_noun_beside():
    """no category but the numeral, the mode, the case and the animacy has any influence on the form of a noun or pronoun"""
    given, result = beside(NOUN_LIKE, r.ANIMALITY)
    form, number, case = noun_rule(given[r.INTEGER_FORM], given[r.DEPENDENCY_MODE], given[r.CASE], given[r.ANIMALITY])
    for relation, value in ((r.NOUN_FORM, form), (r.NUMBER, number), (r.CASE, case)):
        expect(result, relation, {relation: value}, given)


def scn_adjective_beside():
    """no category but the numeral, the mode, the case and the gender has any influence on the form of an adjective, verb or participle"""
    given, result = beside(ADJECTIVE_LIKE, r.GENDER)
    number, case = adjective_rule(given[r.INTEGER_FORM], given[r.DEPENDENCY_MODE], given[r.CASE], given[r.GENDER])
    for relation, value in ((r.NUMBER, number), (r.CASE, case)):
        expect(result, relation, {relation: value}, given)
