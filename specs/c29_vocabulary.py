"""The codes of categories in template markup."""
from utg import words, templates, data, relations as r
from specs.frozen import CODES, CATEGORIES


def scn_documented_codes():
    """every documented code means its category value"""
    entry = each('code', CODES)
    record = getattr(getattr(r, entry[0]), entry[1])
    check(record.verbose_id == entry[3], 'code of the value', entry[0], entry[1], record.verbose_id)
    check(templates.Substitution.parse_properties(entry[3]) == words.Properties(record), 'meaning of the code', entry[3])


def scn_complete_and_unambiguous():
    """every value of every category has exactly one code, no two values share one, and no other code is known"""
    seen = []
    for relation in [p.relation for p in r.PROPERTY_TYPE.records]:
        for record in relation.records:
            code = record.verbose_id
            check(code not in seen, 'the code is used once', code, record)
            seen.append(code)
            check(code in data.VERBOSE_TO_PROPERTIES, 'the code is known', code)
            check(data.VERBOSE_TO_PROPERTIES[code] is record, 'meaning of the code', code, record)
    for code in data.VERBOSE_TO_PROPERTIES.keys():
        check(code in seen, 'no other code is known', code)


def scn_writable():
    """a code can be written in markup: it is trimmed lower-case text without separators"""
    for code in data.VERBOSE_TO_PROPERTIES.keys():
        check(code != '' and code == code.strip() and code == code.lower(), 'code as markup', code)
        for mark in '[]|,%':
            check(mark not in code, 'code as markup', code, mark)


def scn_printed():
    """a printed set of categories can be read back as markup"""
    relation = each('relation', [p.relation for p in r.PROPERTY_TYPE.records])
    props = words.Properties(rec('value', relation), opt('case', r.CASE), opt('number', r.NUMBER))
    shown = str(props)
    check(shown[0] == '(' and shown[-1] == ')', 'printed in brackets', shown)
    check(templates.Substitution.parse_properties(shown[1:-1]) == props, 'read back', shown)


def kinds_in_order():
    return [getattr(r, name) for key, name in CATEGORIES]


def scn_printed_order():
    """the codes are printed in the order of the kinds, whatever the order in which they were given"""
    kinds = kinds_in_order()
    places = list(range(len(kinds)))
    first = each('first kind', places)
    second = each('second kind', [i for i in places if i != first])
    third = each('third kind', [None, 0, 6, len(kinds) - 1])
    chosen = {first: rec('a', kinds[first]), second: rec('b', kinds[second])}
    if third is not None:
        assume(third not in chosen)
        chosen[third] = rec('c', kinds[third])
    values = list(chosen.values())
    how = each('how', ['given', 'reversed', 'overlaid'])
    if how == 'overlaid':
        props = words.Properties(values[-1]).clone(*values[:-1])
    else:
        props = words.Properties(*(values if how == 'given' else list(reversed(values))))
    expected = [chosen[i].verbose_id for i in places if i in chosen]
    check(str(props) == '(' + ','.join(expected) + ')', 'printed', str(props))


def scn_printed_any():
    """exactly the given categories are printed; nothing given prints as an empty list"""
    kinds = kinds_in_order()
    given = each('given', ['none', 'all', 'every second'])
    chosen = [] if given == 'none' else kinds if given == 'all' else kinds[::2]
    records = [each('value', ['first', 'last']) == 'first' and kind.records[0] or kind.records[-1] for kind in chosen]
    props = words.Properties(*reversed(records))
    check(str(props) == '(' + ','.join([record.verbose_id for record in records]) + ')', 'printed', str(props))
    check('%s' % props == str(props), 'printed as part of a text')
