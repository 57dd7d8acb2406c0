"""Shared vocabulary of the specifications (independent of utg's own logic)."""
from utg import relations as r


def relations():
    """every word property relation that can be stored in a property set"""
    return [p.relation for p in r.PROPERTY_TYPE.records]


def default_of(relation):
    """the value read from a set that does not specify the relation"""
    if relation is r.WORD_TYPE:
        return None
    return relation.records[0]


def last_given(*values):
    """overlay: the last value that is given wins"""
    result = None
    for value in values:
        result = value if value is not None else result
    return result


def neighbour(relation):
    rels = relations()
    for i in range(len(rels)):
        if rels[i] is relation:
            return rels[(i + 1) % len(rels)]


def same_set(a, b):
    """two property sets agree on every relation"""
    ok = True
    for relation in relations():
        ok = ok and a.is_specified(relation) == b.is_specified(relation) and a.get(relation) == b.get(relation)
    return ok


def forms_of(word_type, prefix, nonempty=False):
    """one opaque text per form slot of the part of speech"""
    from utg import words
    return [text(prefix + str(i), nonempty=nonempty) for i in range(words.Word.get_forms_number(word_type))]


def word_of(word_type, prefix='f', properties=None, nonempty=False):
    from utg import words
    if properties is None:
        properties = words.Properties()
    return words.Word(type=word_type, forms=forms_of(word_type, prefix, nonempty), properties=properties)


def effective(value, relation):
    return value if value is not None else default_of(relation)
