"""Property sets are overlays: the last explicit value wins, per relation."""
from utg import words, relations as r, data
from specs.common import relations, default_of, last_given, neighbour, same_set


def expect(props, relation, value, label):
    check(props.is_specified(relation) == (value is not None), label + ': is_specified', relation)
    check(props.get(relation) == (value if value is not None else default_of(relation)), label + ': value read back', relation, props.get(relation))


def arg(name, relation):
    """absent, a value of the observed relation, or a value of another relation"""
    return sym(name, [None] + list(relation.records) + list(neighbour(relation).records))


def of(value, relation):
    if value is None:
        return None
    return value if value._relation is relation else None


def scn_records():
    """a property set built from separate values (or absent ones) stores, for every relation, the last value given"""
    relation = each('observed', relations())
    a, b, c = arg('a', relation), arg('b', relation), arg('c', relation)
    props = words.Properties(a, b, c)
    for observed in (relation, neighbour(relation)):
        expect(props, observed, last_given(of(a, observed), of(b, observed), of(c, observed)), 'values')
    third = neighbour(neighbour(relation))
    expect(props, third, None, 'values do not leak into other relations')


def scn_sets():
    """a property set built from other sets and values overlays them left to right and leaves its sources unchanged"""
    relation = each('observed', relations())
    other = neighbour(relation)
    a, x = opt('a', relation), opt('x', other)
    b, y = opt('b', relation), opt('y', other)
    left, right = words.Properties(a, x), words.Properties(b, y)
    shape = each('shape', ['set,set', 'set,value', 'value,set', 'clone(set)', 'clone(value)', 'clone()', 'clone(set,value)'])
    if shape == 'set,set':
        props, va, vo = words.Properties(left, right), last_given(a, b), last_given(x, y)
    elif shape == 'set,value':
        props, va, vo = words.Properties(left, b), last_given(a, b), x
    elif shape == 'value,set':
        props, va, vo = words.Properties(b, left), last_given(b, a), x
    elif shape == 'clone(set)':
        props, va, vo = left.clone(right), last_given(a, b), last_given(x, y)
    elif shape == 'clone(value)':
        props, va, vo = left.clone(b), last_given(a, b), x
    elif shape == 'clone()':
        props, va, vo = left.clone(), a, x
    else:
        props, va, vo = left.clone(right, a), last_given(a, b, a), last_given(x, y)
    expect(props, relation, va, shape)
    expect(props, other, vo, shape)
    expect(left, relation, a, shape + ' leaves its source')
    expect(left, other, x, shape + ' leaves its source')
    expect(right, relation, b, shape + ' leaves its argument')
    expect(right, other, y, shape + ' leaves its argument')
    check(not same_object(props, left), shape + ' returns a new set')
    third = neighbour(other)
    expect(props, third, None, shape + ' does not leak')


def scn_empty():
    """an empty set specifies nothing and reads the first value of every relation (none for the part of speech)"""
    relation = each('observed', relations())
    props = words.Properties()
    expect(props, relation, None, 'empty set')
    check(data.DEFAULT_PROPERTIES[relation] == default_of(relation), 'default table', relation)


def scn_key():
    """the lookup key of a schema lists the effective value of every relation of the schema, in schema order"""
    word_type = each('type', r.WORD_TYPE.records)
    schema = word_type.schema
    values = [opt('v%d' % i, schema[i]) for i in range(len(schema))]
    props = words.Properties(*values)
    key = props.get_raw_key(schema)
    check(len(key) == len(schema), 'length of the key')
    for i in range(len(schema)):
        v = values[i]
        check(key[i] == (v if v is not None else default_of(schema[i])), 'component of the key', schema[i], key[i])


def scn_equality():
    """two sets are equal exactly when they specify the same relations with the same values"""
    relation = each('observed', relations())
    other = neighbour(relation)
    a, b, x, y = opt('a', relation), opt('b', relation), opt('x', other), opt('y', other)
    left, right = words.Properties(a, x), words.Properties(y, b)
    same = a == b and x == y
    check((left == right) == same, 'equality')
    check((left != right) == (not same), 'inequality')


def scn_key_any():
    """the same for any list of relations, in any order and with repetitions"""
    first = each('first', relations())
    second = each('second', [first, neighbour(first)])
    third = each('third', [first, neighbour(first), neighbour(neighbour(first))])
    a, b = opt('a', first), opt('b', neighbour(first))
    props = words.Properties(a, b)
    asked = each('asked', [(), (first,), (first, second), (second, first), (first, second, third), (third, second, first)])
    key = props.get_raw_key(asked)
    check(len(key) == len(asked), 'length of the key')
    for i in range(len(asked)):
        v = a if asked[i] is first else b if asked[i] is neighbour(first) else None
        check(key[i] == (v if v is not None else default_of(asked[i])), 'component of the key', asked[i], key[i])
