"""Finding the nearest slot and filling blank forms from it."""
from utg import words, data, logic, relations as r
from specs.common import forms_of

PARTS = [r.CASE.GENITIVE, r.NUMBER.PLURAL, None, r.GENDER.NEUTER, r.PERSON.THIRD, r.TIME.FUTURE]
OTHERS = [r.CASE.DATIVE, None, r.ANIMALITY.INANIMATE, None, r.PERSON.SECOND, r.TIME.PAST]


def candidate(name, size):
    """(slot, positions it agrees in)"""
    agrees = [each('%s agrees in %d' % (name, i), [True, False]) for i in range(size)]
    return tuple([PARTS[i] if agrees[i] else OTHERS[i] for i in range(size)]), [i for i in range(size) if agrees[i]]


def score(positions):
    """more agreements first, then later ones"""
    return 100 * len(positions) + sum(positions)


def verify(key, candidates):
    offered = [slot for slot, positions in candidates]
    result = logic.get_nearest_key(key, offered)
    best = max([score(positions) for slot, positions in candidates])
    winners = [slot for slot, positions in candidates if score(positions) == best]
    check(result in winners, 'nearest slot', result, winners[0])
    alike = [slot for slot, positions in candidates if positions == [i for i in range(len(key)) if key[i] is result[i]]]
    check(same_object(result, alike[0]) or result == alike[0], 'the first of slots that agree in the same categories')
    check(logic.get_nearest_key(key, offered) == result, 'asked again')


def scn_two():
    """of two slots the one that agrees with the request in more categories is nearest; of equally many, the one that agrees in later ones"""
    size = each('size', [1, 2, 3, 4, 5, 6])
    key = tuple(PARTS[:size])
    verify(key, [candidate('first', size), candidate('second', size)])


def scn_three():
    """the same for three slots"""
    size = each('size', [2, 3] if not thorough() else [2, 3, 4])
    key = tuple(PARTS[:size])
    verify(key, [candidate(name, size) for name in ('first', 'second', 'third')])


def scn_six():
    """the same for the longest schema, one slot agreeing in everything but one category"""
    key = tuple(PARTS)
    left = [i for i in range(6) if i != each('left', list(range(6)))]
    right = [i for i in range(6) if each('right agrees in %d' % i, [True, False])]
    make = lambda positions: (tuple([PARTS[i] if i in positions else OTHERS[i] for i in range(6)]), positions)
    pair = [make(left), make(right)]
    verify(key, pair if each('order', [0, 1]) else [pair[1], pair[0]])


def scn_first_of_equals():
    """of slots that agree in the same categories the first one is taken; an exact match is always taken"""
    size = each('size', [1, 2, 3, 4, 5, 6])
    key = tuple(PARTS[:size])
    place = each('place', [0, 1, 2])
    slots = [tuple(OTHERS[:size]), tuple([r.WORD_CASE.UPPER] * size), tuple([r.WORD_CASE.LOWER] * size)]
    check(logic.get_nearest_key(key, slots) == slots[0], 'the first of equals')
    agreed = each('agreed', list(range(size)))
    parts = [list(slot) for slot in slots]
    for part in parts:
        part[agreed] = key[agreed]
    partly = [tuple(part) for part in parts]
    check(logic.get_nearest_key(key, partly) == partly[0], 'the first of partly equal slots')
    slots[place] = key
    check(logic.get_nearest_key(key, slots) == key, 'the exact match')


def scn_nothing():
    """nothing is nearest when nothing is offered"""
    size = each('size', [0, 1, 3])
    check(logic.get_nearest_key(tuple(PARTS[:size]), []) is None, 'nothing')


def scn_real_layouts():
    """for every two slots of a part of speech the nearest one to any third is found"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB, r.WORD_TYPE.PREPOSITION] if not thorough() else r.WORD_TYPE.records)
    keys = layout_keys(word_type)
    a = each('slot', list(range(len(keys))))
    for b in range(len(keys)):
        for c in range(len(keys)):
            agreed_b = [i for i in range(len(keys[a])) if keys[a][i] is keys[b][i]]
            agreed_c = [i for i in range(len(keys[a])) if keys[a][i] is keys[c][i]]
            expected = keys[c] if score(agreed_c) > score(agreed_b) else keys[b]
            result = logic.get_nearest_key(keys[a], [keys[b], keys[c]])
            check(result == expected or (score(agreed_b) == score(agreed_c) and result == keys[c]), 'nearest slot', keys[a], keys[b], keys[c])
