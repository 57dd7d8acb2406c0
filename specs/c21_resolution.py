"""From a complete combination of categories to a stored form."""
from utg import words, data, logic, relations as r


def scn_total():
    """every complete combination of categories of a part of speech resolves to a stored form"""
    word_type = each('type', r.WORD_TYPE.records)
    schema = word_type.schema
    table = data.RAW_WORDS_CACHES[word_type]
    key = tuple([rec('v ' + x.__name__, x) for x in schema])
    number = len(data.INVERTED_WORDS_CACHES[word_type])
    check(key in table, 'the combination resolves', key)
    check(0 <= table[key] < number, 'to a stored form', key, table[key])


def scn_resolution():
    """a combination covered by a slot resolves to that slot, any other one to the form of its nearest neighbour, later categories weighing more"""
    word_type = each('type', r.WORD_TYPE.records)
    key = tuple([rec('v ' + x.__name__, x) for x in word_type.schema])
    check(data.RAW_WORDS_CACHES[word_type][key] == layout_index(word_type, key), 'resolved form', word_type, key)


def scn_covered():
    """a combination that agrees with a slot in everything the slot carries resolves to that very slot"""
    word_type = each('type', r.WORD_TYPE.records)
    schema = word_type.schema
    keys = layout_keys(word_type)
    i = each('slot', list(range(len(keys))))
    key = tuple([keys[i][j] if keys[i][j] is not None else rec('v ' + schema[j].__name__, schema[j]) for j in range(len(schema))])
    check(data.RAW_WORDS_CACHES[word_type][key] == i, 'resolved form', word_type, keys[i])
