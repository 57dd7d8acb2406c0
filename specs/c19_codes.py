"""Persistent codes of categories, values and parts of speech."""
from utg import words, data, relations as r
from specs.frozen import CODES, CATEGORIES, SCHEMAS, PROPERTIES


def relation_of(name):
    return getattr(r, name)


def scn_stored_values():
    """every value that was ever stored keeps its code, and the code is not reused"""
    entry = each('code', CODES)
    relation = relation_of(entry[0])
    record = getattr(relation, entry[1])
    check(record.value == entry[2], 'stored value', entry[0], entry[1], record.value)
    check(relation(entry[2]) is record, 'the stored value is read as the same record', entry[0], entry[1])
    check(len([x for x in relation.records if x.value == entry[2]]) == 1, 'the stored value is unambiguous', entry[0], entry[2])


def scn_stored_categories():
    """every category keeps the key it is stored under, alone and in a restored set"""
    entry = each('category', CATEGORIES)
    relation = relation_of(entry[1])
    value = rec('value', relation)
    check(words.Properties(value).serialize() == {entry[0]: value.value}, 'stored categories', entry[1])
    again = words.Properties.deserialize({str(entry[0]): value.value})
    check(again.is_specified(relation) and again.get(relation) == value, 'restored category', entry[1])
    check(again == words.Properties(value), 'nothing else is restored', entry[1])
    check(len([p for p in r.PROPERTY_TYPE.records if p.value == entry[0]]) == 1, 'the key is unambiguous', entry[0])


def scn_every_category_is_stored():
    """every category that markup can mention can also be stored"""
    for value in data.VERBOSE_TO_PROPERTIES.values():
        relation = value._relation
        check(len(words.Properties(value).serialize()) == 1, 'stored', value)
        check(words.Properties.deserialize(words.Properties(value).serialize()) == words.Properties(value), 'restored', value)


def scn_parts_of_speech():
    """a stored word keeps its part of speech, and the forms of a part of speech vary by the same categories in the same order"""
    entry = each('part of speech', SCHEMAS)
    word_type = getattr(r.WORD_TYPE, entry[0])
    check([x.__name__ for x in word_type.schema] == list(entry[1]), 'categories of the forms', entry[0])
    # (the stored code itself is one of CODES)
    check(r.WORD_TYPE(word_type.value) is word_type, 'stored part of speech', entry[0])


def scn_fixed_categories():
    """the categories a word of a part of speech must or may fix"""
    entry = each('part of speech', PROPERTIES)
    word_type = getattr(r.WORD_TYPE, entry[0])
    found = sorted([(relation.__name__, required) for relation, required in word_type.properties.items()])
    check(found == sorted([tuple(x) for x in entry[1]]), 'categories of the word', entry[0], found)


def scn_defaults():
    """the value read for an absent category is the first one of the category; an absent part of speech is none"""
    entry = each('category', CATEGORIES)
    relation = relation_of(entry[1])
    first = [c for c in CODES if c[0] == entry[1]][0]
    expected = None if relation is r.WORD_TYPE else getattr(relation, first[1])
    check(words.Properties().get(relation) == expected, 'default value', entry[1], words.Properties().get(relation))
