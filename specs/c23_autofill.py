"""Filling the blank forms of a word."""
from utg import words, data, relations as r


def similarity(a, b):
    return sum([100 + i for i in range(len(a)) if a[i] is b[i]])


def expected_forms(word_type, forms):
    """blank forms borrow the form of the nearest slot that was given"""
    keys = layout_keys(word_type)
    given = [i for i in range(len(forms)) if forms[i] != '']
    result = []
    for i in range(len(forms)):
        if i in given or not given:
            result.append(forms[i])
            continue
        best, value = None, -1
        for j in given:
            s = similarity(keys[i], keys[j])
            if s > value:
                best, value = j, s
        result.append(forms[best])
    return result


def verify(word_type, forms):
    kept = list(forms)
    word = words.Word(word_type, forms, words.Properties(r.GENDER.FEMININE))
    expected = expected_forms(word_type, kept)
    word.autofill_missed_forms()
    check(len(word.forms) == len(kept), 'number of forms')
    for i in range(len(kept)):
        if kept[i] != '':
            check(word.forms[i] == kept[i], 'a given form is not changed', i)
        else:
            check(word.forms[i] == expected[i], 'a blank form borrows from the nearest given slot', i)
    check(word.properties == words.Properties(r.GENDER.FEMININE) and word.type is word_type, 'nothing else changes')
    word.autofill_missed_forms()
    check(word.forms == expected, 'filling again changes nothing')


def given(word_type, slots):
    return [text('f%d' % i, nonempty=True) if i in slots else '' for i in range(len(layout_keys(word_type)))]


def scn_one_given():
    """a single given form fills the whole word"""
    word_type = each('type', r.WORD_TYPE.records)
    verify(word_type, given(word_type, [each('slot', list(range(len(layout_keys(word_type)))))]))


def scn_two_given():
    """every blank form borrows from the nearer one of two given forms"""
    types = [r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB, r.WORD_TYPE.PREPOSITION]
    word_type = each('type', types if not thorough() else types + [r.WORD_TYPE.PRONOUN])
    size = len(layout_keys(word_type))
    first = each('first', list(range(size)))
    second = each('second', list(range(first + 1, size)) or [first])
    verify(word_type, given(word_type, [first, second]))


def scn_one_blank():
    """a single blank form borrows from its nearest neighbour"""
    word_type = each('type', [t for t in r.WORD_TYPE.records if t.schema])
    size = len(layout_keys(word_type))
    blank = each('blank', list(range(size)) if thorough() or size < 60 else list(range(0, size, 7)))
    verify(word_type, given(word_type, [i for i in range(size) if i != blank]))


def scn_blocks():
    """the first forms are given, or the last ones, or every second one"""
    word_type = each('type', [t for t in r.WORD_TYPE.records if t.schema])
    size = len(layout_keys(word_type))
    shape = each('shape', ['first', 'last', 'even', 'odd', 'third'])
    if shape in ('first', 'last'):
        n = each('count', [3, 5, 6, 12] if size > 12 else [1, 2])
        slots = list(range(n)) if shape == 'first' else list(range(size - n, size))
    else:
        step = 3 if shape == 'third' else 2
        slots = [i for i in range(size) if i % step == (1 if shape == 'odd' else 0)]
    verify(word_type, given(word_type, slots))


def scn_every_pattern():
    """every pattern of blank forms of small parts of speech"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.TEXT, r.WORD_TYPE.INTEGER])
    size = len(layout_keys(word_type))
    verify(word_type, given(word_type, [i for i in range(size) if each('given %d' % i, [True, False])]))


def scn_plural_pattern():
    """every pattern of blank forms among the first slots of a noun"""
    size = 7 if not thorough() else 10
    verify(r.WORD_TYPE.NOUN, given(r.WORD_TYPE.NOUN, [i for i in range(size) if each('given %d' % i, [True, False])]))


def scn_words_are_separate():
    """filling one word does not touch another one"""
    word_type = r.WORD_TYPE.PREPOSITION
    one, two = words.Word(word_type, given(word_type, [0])), words.Word(word_type, given(word_type, [1]))
    one.autofill_missed_forms()
    check(two.forms == given(word_type, [1]), 'forms of the other word')


def scn_words_of_one_list():
    """words made from the same list are filled separately, and the list stays as it was"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN])
    slots = each('slots', [[0], [1], [0, 2]])
    forms = given(word_type, slots)
    one, two = words.Word(word_type, forms), words.Word(word_type, forms)
    one.autofill_missed_forms()
    check(forms == given(word_type, slots), 'the list passed in')
    check(two.forms == given(word_type, slots), 'forms of the other word')
    check(one.forms != given(word_type, slots), 'the word itself is filled')
