"""Numerals built from numbers."""
from utg import words, constructors, relations as r
from specs.common import relations, default_of


def kind(n):
    """(number, integer form) of a natural number"""
    if n == 1000000 or n == 1000000000:
        return (r.NUMBER.PLURAL, r.INTEGER_FORM.MIL_BIL)
    if n == 1:
        return (r.NUMBER.SINGULAR, r.INTEGER_FORM.SINGULAR)
    if n == 2 or n == 3 or n == 4:
        return (r.NUMBER.PLURAL, r.INTEGER_FORM.DUAL)
    tail = n % 100
    if 10 <= tail and tail <= 19:
        return (r.NUMBER.PLURAL, r.INTEGER_FORM.PLURAL)
    last = n % 10
    if last == 1:
        return (r.NUMBER.PLURAL, r.INTEGER_FORM.SINGULAR)
    if last == 2 or last == 3 or last == 4:
        return (r.NUMBER.PLURAL, r.INTEGER_FORM.COMPOSITE_DUAL)
    return (r.NUMBER.PLURAL, r.INTEGER_FORM.PLURAL)


def expect(form, n, label):
    number, integer_form = kind(n if n >= 0 else -n)
    check(isinstance(form, words.WordForm), label + ': a word form')
    check(form.word.type == r.WORD_TYPE.INTEGER, label + ': part of speech')
    check(form.form == str(n), label + ': digits', form.form)
    check(len(form.word.forms) == 1, label + ': number of forms')
    for props in (form.properties, form.word.properties):
        check(props.get(r.NUMBER) == number, label + ': number', props.get(r.NUMBER), number)
        check(props.get(r.INTEGER_FORM) == integer_form, label + ': kind of numeral', props.get(r.INTEGER_FORM), integer_form)
        for relation in relations():
            if relation is not r.NUMBER and relation is not r.INTEGER_FORM:
                check(not props.is_specified(relation), label + ': nothing else is specified', relation)


def scn_every_integer():
    """every integer, of any size and sign, gets the number and kind demanded by its last digits"""
    n = integer('n')
    expect(constructors.construct_integer(n), n, 'integer')


def scn_after_other_requests():
    """the answer does not depend on what was asked before"""
    n, m = integer('n'), integer('m')
    first = constructors.construct_integer(m)
    expect(constructors.construct_integer(n), n, 'second request')
    expect(first, m, 'first request, looked at later')


def scn_repeated():
    """asking again gives an equal answer"""
    n = integer('n')
    a = constructors.construct_integer(n)
    b = constructors.construct_integer(n)
    check(a == b, 'equal answers')
    expect(b, n, 'repeated request')


def scn_long_history():
    """a long series of requests, with repetitions, inside and outside any plausible range kept in memory"""
    step = each('step', [1, 7, 97, 5003, 1000003])
    start = each('start', [0, -30, 9990, 999990])
    numbers = [start + (i * i % 37) * step for i in range(45)]
    forms = []
    for n in numbers:
        form = constructors.construct_integer(n)
        expect(form, n, 'request of a long series')
        forms.append(form)
    for i in range(len(numbers)):
        expect(forms[i], numbers[i], 'request of a long series, looked at later')
        check(constructors.construct_integer(numbers[i]) == forms[i], 'equal answers')
