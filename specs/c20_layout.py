"""The layout of forms: which categories every stored form stands for."""
from utg import words, data, logic, restrictions, relations as r
from specs.common import default_of
from specs.frozen import CODES, SCHEMAS, EXCLUSIONS, FORBIDDEN


def scn_generated():
    """the generated layout of every part of speech equals the one its exclusion rules describe, and both directions of the tables agree"""
    word_type = each('type', r.WORD_TYPE.records)
    expected = layout_keys(word_type)
    keys = list(data.INVERTED_WORDS_CACHES[word_type])
    check(len(keys) == len(expected), 'number of slots', word_type, len(keys), len(expected))
    for i in range(len(expected)):
        check(tuple(keys[i]) == expected[i], 'categories of the slot', word_type, i, keys[i])
        check(data.WORDS_CACHES[word_type][expected[i]] == i, 'position of the slot', word_type, i)
    check(len(data.WORDS_CACHES[word_type]) == len(expected), 'no further slots', word_type)


def scn_excluded():
    """no slot carries a category its other categories exclude, and no slot has a forbidden combination"""
    word_type = each('type', r.WORD_TYPE.records)
    schema = word_type.schema
    rules = restrictions.RESTRICTIONS[word_type]
    forbidden = restrictions.RESTRICTED_KEY_PARTS.get(word_type, ())
    for key in data.INVERTED_WORDS_CACHES[word_type]:
        check(len(key) == len(schema), 'one component per category', key)
        for j in range(len(schema)):
            earlier = [key[i] for i in range(j) if key[i] is not None]
            excluded = any([x in rules and schema[j] in rules[x] for x in earlier])
            check((key[j] is None) == excluded, 'a category is left out exactly when an earlier one excludes it', key, schema[j])
            check(key[j] is None or key[j]._relation is schema[j], 'component of its category', key, schema[j])
        for part in forbidden:
            check(not all([x in key for x in part]), 'no forbidden combination', key)


def scn_rules_well_formed():
    """exclusion rules mention only categories of the part of speech they belong to, and never exclude an earlier category of the schema by a later one"""
    word_type = each('type', r.WORD_TYPE.records)
    schema = list(word_type.schema)
    check(word_type in restrictions.RESTRICTIONS, 'every part of speech has rules')
    for parts in restrictions.RESTRICTED_KEY_PARTS.get(word_type, ()):
        for x in parts:
            check(x._relation in schema, 'forbidden combinations mention categories of the schema', x)
    check(len(schema) == len(set(schema)), 'a category occurs once in the schema')


def scn_partition():
    """every complete combination is covered by at most one slot"""
    word_type = each('type', r.WORD_TYPE.records)
    keys = data.INVERTED_WORDS_CACHES[word_type]
    for i in range(len(keys)):
        for j in range(i):
            check(any([a is not None and b is not None and a != b for a, b in zip(keys[i], keys[j])]), 'slots do not overlap', keys[i], keys[j])


def scn_form_number():
    """the number of forms of a part of speech is the number of its slots"""
    word_type = each('type', r.WORD_TYPE.records)
    check(words.Word.get_forms_number(word_type) == len(layout_keys(word_type)), 'number of forms', word_type)


def recorded_slots(name):
    """the slots stored words were written with, as (category, value) names, blank ones None"""
    schema = [x[1] for x in SCHEMAS if x[0] == name][0]
    slots = [()]
    for category in schema:
        longer = []
        for slot in slots:
            if any([rule[0] == name and (rule[1], rule[2]) in slot and category in rule[3] for rule in EXCLUSIONS]):
                longer.append(slot + (None,))
            else:
                for code in CODES:
                    if code[0] == category:
                        longer.append(slot + ((category, code[1]),))
        slots = longer
    return [slot for slot in slots if not any([part[0] == name and all([x in slot for x in part[1]]) for part in FORBIDDEN])]


def scn_recorded():
    """the slots are the ones stored words were written with, at the same positions"""
    entry = each('part of speech', SCHEMAS)
    word_type = getattr(r.WORD_TYPE, entry[0])
    expected = recorded_slots(entry[0])
    keys = data.INVERTED_WORDS_CACHES[word_type]
    check(len(keys) == len(expected), 'number of slots', entry[0], len(keys), len(expected))
    for i in range(len(expected)):
        slot = tuple([(None if x is None else getattr(getattr(r, x[0]), x[1])) for x in expected[i]])
        check(tuple(keys[i]) == slot, 'categories of the slot', entry[0], i, keys[i])


def scn_presets():
    """a category that presets another occurs only in slots that carry the preset one, and countable forms preset the plural"""
    check(restrictions.PRESETS.get(r.NOUN_FORM.COUNTABLE) is r.NUMBER.PLURAL, 'countable forms are plural', restrictions.PRESETS)
    for chosen, preset in list(restrictions.PRESETS.items()):
        together = False
        for word_type in r.WORD_TYPE.records:
            if chosen._relation in word_type.schema and preset._relation in word_type.schema:
                together = True
                for key in data.INVERTED_WORDS_CACHES[word_type]:
                    check(chosen not in key or preset in key, 'a slot with the category carries the preset one', word_type, key)
        check(together, 'some part of speech varies by both', chosen, preset)
