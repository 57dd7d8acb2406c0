"""Bringing stored words to the current layout."""
from utg import words, data, relations as r

# migrations that carry both the layout they start from and the one they lead to
SELF_CONTAINED = ['m_0007', 'm_0008', 'm_0009']


def find(prefix):
    for name in migration_names():
        if name.startswith(prefix):
            return load_module('utg.migrations.' + name)
    fail('migration is missing', prefix)


def similarity(a, b):
    """agreement of two slots; later categories weigh slightly more"""
    total = 0
    for i in range(min(len(a), len(b))):
        if a[i] is b[i]:
            total = total + 100 + i
    return total


def nearest(key, old):
    best, score = None, -1
    for candidate in old:
        s = similarity(key, candidate)
        if s > score:
            best, score = candidate, s
    return best


def scn_importable():
    """every migration can be loaded"""
    name = each('migration', migration_names())
    kind, value = outcome(load_module, 'utg.migrations.' + name)
    check(kind == 'value', 'the migration ' + name + ' can be loaded', value)
    check(hasattr(value, 'migrate'), 'the migration ' + name + ' offers the migration function')


def scn_last_target():
    """the last migration leads to the current layout of every part of speech"""
    last = load_module('utg.migrations.' + migration_names()[-1])
    for word_type in r.WORD_TYPE.records:
        check(word_type in last.NEW_CACHES, 'part of speech', word_type)
        check(len(last.NEW_CACHES[word_type]) == len(data.WORDS_CACHES[word_type]), 'number of slots', word_type)
        for key, index in data.WORDS_CACHES[word_type].items():
            check(last.NEW_CACHES[word_type].get(key) == index, 'position of the slot', word_type, key)


def scn_target_tables():
    """the positions of a target layout are 0, 1, ... without gaps"""
    module = find(each('migration', SELF_CONTAINED))
    word_type = each('type', r.WORD_TYPE.records)
    table = module.NEW_CACHES[word_type]
    check(sorted(table.values()) == list(range(len(table))), 'positions', word_type)


def scn_chain():
    """every migration reads each position as the categories the previous migration wrote there"""
    word_type = each('type', r.WORD_TYPE.records)
    pair = each('pair', [('m_0007', 'm_0008'), ('m_0008', 'm_0009')])
    written, read = find(pair[0]).NEW_CACHES[word_type], find(pair[1]).OLD_CACHES[word_type]
    slots = {}
    for key, index in written.items():
        slots[index] = key
    for key, index in read.items():
        check(index in slots, 'the position was written', word_type, key, index)
        for x in key:
            check(x is None or x in slots[index], 'categories of the position', word_type, index, x)
    if len(read) == len(written):
        check(sorted(read.values()) == sorted(slots.keys()), 'every position is read', word_type)


def scn_forms():
    """a migrated word has one form per slot of the target layout; slots that already existed keep their form, new ones borrow the form of the nearest old slot; nothing else changes"""
    module = find(each('migration', SELF_CONTAINED))
    word_type = each('type', r.WORD_TYPE.records)
    old, new = module.OLD_CACHES[word_type], module.NEW_CACHES[word_type]
    size = 1 + max(list(old.values()))
    forms = ['f%d' % i for i in range(size)]
    kept = list(forms)
    result = module.migrate({'type': word_type.value, 'forms': forms, 'properties': {'2': 1}})
    check(result['type'] == word_type.value, 'part of speech')
    check(result['properties'] == {'2': 1}, 'categories')
    check(len(result['forms']) == len(new), 'number of forms', word_type)
    for key, index in new.items():
        source = key if key in old else nearest(key, list(old))
        check(result['forms'][index] == kept[old[source]], 'form of the slot', word_type, key)


def scn_forms_opaque():
    """the same whatever the forms are, blank ones included"""
    module = find(each('migration', SELF_CONTAINED))
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.TEXT])
    old, new = module.OLD_CACHES[word_type], module.NEW_CACHES[word_type]
    forms = [text('f%d' % i) for i in range(1 + max(list(old.values())))]
    kept = list(forms)
    result = module.migrate({'type': word_type.value, 'forms': forms, 'properties': {}})
    for key, index in new.items():
        source = key if key in old else nearest(key, list(old))
        check(result['forms'][index] == kept[old[source]], 'form of the slot', word_type, key)


def scn_current_word():
    """a word in the last migration's source layout becomes a valid word of the current layout"""
    last = load_module('utg.migrations.' + migration_names()[-1])
    word_type = each('type', r.WORD_TYPE.records)
    forms = ['f%d' % i for i in range(1 + max(list(last.OLD_CACHES[word_type].values())))]
    result = last.migrate({'type': word_type.value, 'forms': forms, 'properties': {}})
    kind, value = outcome(words.Word.deserialize, result)
    check(kind == 'value', 'the migrated word is valid', value)


def scn_countable_nouns():
    """nouns get countable forms: the stored exceptions if there are any, the plural forms otherwise; other words stay as they are"""
    module = find('m_0002')
    word_type = each('type', r.WORD_TYPE.records)
    shape = each('patches', ['none', 'countable', 'several', 'several, the other way round'])
    forms = ['f%d' % i for i in range(12)]
    patches = {}
    if shape != 'none':
        for number in {'countable': [7], 'several': [6, 7, 8], 'several, the other way round': [8, 7, 6]}[shape]:
            patches[number] = {'forms': ['p%d' % i if number == 7 else 'other' for i in range(6)]}
    result = module.migrate({'type': word_type.value, 'forms': list(forms), 'properties': {}, 'patches': patches})
    expected = forms
    if word_type is r.WORD_TYPE.NOUN:
        expected = forms + (forms[6:] if shape == 'none' else ['p%d' % i for i in range(6)])
    check(result['forms'] == expected, 'forms', word_type)


def scn_third_preposition_form():
    """prepositions get a special form equal to the last one they had; other words stay as they are"""
    module = find('m_0004')
    word_type = each('type', r.WORD_TYPE.records)
    forms = [text('a'), text('b')]
    result = module.migrate({'type': word_type.value, 'forms': list(forms), 'properties': {}})
    expected = forms + [forms[1]] if word_type is r.WORD_TYPE.PREPOSITION else forms
    check(result['forms'] == expected, 'forms', word_type)


def scn_participle_time():
    """participles lose their own time; everything else stays"""
    module = find('m_0005')
    word_type = each('type', r.WORD_TYPE.records)
    properties = {'5': 1, '7': 0} if each('has time', [False, True]) else {'7': 0}
    expected = {'7': 0} if word_type is r.WORD_TYPE.PARTICIPLE else dict(properties)
    result = module.migrate({'type': word_type.value, 'forms': ['x'], 'properties': properties})
    check(result['properties'] == expected, 'categories', word_type)
    check(result['forms'] == ['x'], 'forms', word_type)
