"""Markup of one variable."""
from utg import words, templates, exceptions, data, relations as r
from specs.common import relations, default_of, same_set, effective

SPECIAL = '|[],%'


def blank(name):
    return each(name, ['', ' ', '  '])


def verbose_ids():
    ids = []
    for relation in relations():
        for record in relation.records:
            ids.append(record.verbose_id)
    return ids


def scn_name():
    """the name of a variable is looked up trimmed and in lower case; a capital first letter adds exactly one upper-case dependency at the end"""
    name = text('name', nonempty=True, forbid='|[]', stripped=True)
    variable = '[' + blank('before') + name + blank('after') + each('tail', ['', '|дт', '|x']) + ']'
    s = templates.Substitution.parse(variable, ['x'])
    tail = each('tail', ['', '|дт', '|x'])
    check(s.id == name.lower(), 'name', s.id)
    expected = []
    if tail == '|дт':
        expected.append(words.Properties(r.CASE.DATIVE))
    if tail == '|x':
        expected.append('x')
    if name[0].isupper():
        expected.append(words.Properties(r.WORD_CASE.UPPER))
    check(list(s.dependencies) == expected, 'dependencies', s.dependencies)


def scn_blank_name():
    """a variable without a name is refused with the documented error"""
    variable = each('variable', ['', '[]', '[ ]', '[|дт]', '[ |дт]', '[  |x]', '[\t|x|дт]'])
    kind, value = outcome(templates.Substitution.parse, variable, ['x'])
    check(kind == 'raise', 'refused')
    check(isinstance(value, exceptions.WrongDependencyFormatError), 'refused with the documented error', value)


def scn_dependencies():
    """every part after the name is one dependency, in the written order: an external if it is one, a set of categories otherwise"""
    names = ['w', 'hero', 'enemy']
    expected = []
    variable = '[w'
    for i in range(each('number', [1, 2, 3])):
        kind = each('kind%d' % i, ['external', 'categories', 'nothing'])
        if kind == 'external':
            name = each('external%d' % i, ['hero', 'enemy', 'w'])
            variable = variable + '|' + each('pad%d' % i, ['', ' ']) + each('letters%d' % i, [name, name.upper()]) + each('pad%d' % i, ['', ' '])
            expected.append(name)
        elif kind == 'categories':
            value = rec('value%d' % i, [r.CASE, r.NUMBER, r.TIME][i])
            variable = variable + '|' + value.verbose_id
            expected.append(words.Properties(value))
        else:
            variable = variable + '|'
            expected.append(words.Properties())
    s = templates.Substitution.parse(variable + ']', names)
    check(s.id == 'w', 'name')
    check(len(s.dependencies) == len(expected), 'number of dependencies')
    for i in range(len(expected)):
        check(s.dependencies[i] == expected[i], 'dependency', i, s.dependencies[i])


def scn_categories():
    """the categories of a part are separated by commas, may be padded or left out, and later ones win"""
    relation = each('relation', relations())
    a, b = rec('a', relation), rec('b', relation)
    other = [x for x in relations() if x is not relation][0]
    c = rec('c', other)
    shape = each('shape', ['a', 'a,b', 'a,c', 'c,a', ' a', 'a ', ' a , c ', 'a,,c', ',a', 'a,', 'a, ,b', 'A'])
    parts = []
    last = None
    has_other = False
    for token in shape.split(','):
        spelled = token.replace('a', '{a}').replace('b', '{b}').replace('c', '{c}').replace('A', '{A}')
        if 'a' in token:
            parts.append(token[:token.index('a')] + a.verbose_id + token[token.index('a') + 1:])
            last = a
        elif 'b' in token:
            parts.append(b.verbose_id)
            last = b
        elif 'c' in token:
            parts.append(token[:token.index('c')] + c.verbose_id + token[token.index('c') + 1:])
            has_other = True
        elif 'A' in token:
            parts.append(a.verbose_id.upper())
            last = a
        else:
            parts.append(token)
    s = templates.Substitution.parse('[w|' + ','.join(parts) + ']', [])
    check(len(s.dependencies) == 1, 'one dependency')
    props = s.dependencies[0]
    check(props.is_specified(relation) and props.get(relation) == last, 'category', relation, props.get(relation))
    check(props.is_specified(other) == has_other, 'other category')
    if has_other:
        check(props.get(other) == c, 'other category')
    for third in relations():
        if third is not relation and third is not other:
            check(not props.is_specified(third), 'nothing else is specified', third)


def scn_unknown():
    """an unknown category is refused with the documented error, wherever it stands"""
    unknown = text('unknown', nonempty=True, forbid=SPECIAL + ' \t\n\r\x0b\x0c', lower=True)
    for known in verbose_ids():
        assume(unknown != known)
    assume(unknown != 'hero')
    shape = each('shape', ['?', 'дт,?', '?,дт', 'дт|?', 'hero|?', ' ? ', 'дт, ?'])
    kind, value = outcome(templates.Substitution.parse, '[w|' + shape.replace('?', unknown) + ']', ['hero'])
    check(kind == 'raise', 'refused')
    check(isinstance(value, exceptions.UnknownVerboseIdError), 'refused with the documented error', value)


def scn_external_first():
    """an external whose name is also a category is taken as the external"""
    value = rec('value', r.CASE)
    s = templates.Substitution.parse('[w|' + value.verbose_id + ']', [value.verbose_id])
    check(list(s.dependencies) == [value.verbose_id], 'dependency')


def scn_spelled_name():
    """a name keeps everything between its first and last visible character but the case of its letters"""
    name = each('name', ['a  b', 'a\tb', 'А-б', 'Дом 2', '2 дома', '5', '1,5', 'x.y', 'Ёлка', 'ёлка', 'кто-Нибудь', 'a', 'Я', '-', '_w', 'W_1', 'O\'Нил', '"Дом"', 'дом:мн', 'a/b', 'a b  c'])
    tail = each('tail', ['', '|рд', '|x'])
    s = templates.Substitution.parse('[' + each('pad', ['', ' ', '\t']) + name + each('pad', ['', ' ', '\t']) + tail + ']', ['x'])
    check(s.id == name.lower(), 'name', s.id)
    expected = [] if tail == '' else ['x'] if tail == '|x' else [words.Properties(r.CASE.GENITIVE)]
    if name[0].isupper():
        expected.append(words.Properties(r.WORD_CASE.UPPER))
    check(list(s.dependencies) == expected, 'dependencies', s.dependencies)


def scn_external_case():
    """a dependency is compared with the externals in lower case"""
    externals = each('externals', [['x', 'X'], ['X', 'x'], ['x'], ['герой', 'Герой', 'ГЕРОЙ']])
    name = externals[0].lower()
    spelled = each('spelled', [name, name.upper(), name.capitalize()])
    s = templates.Substitution.parse('[w|' + spelled + ']', externals)
    check(list(s.dependencies) == [name], 'dependency', s.dependencies)


def scn_repeated():
    """categories repeated in one part: the last one of every relation wins, whatever stands before it"""
    relation = each('relation', relations())
    other = [x for x in relations() if x is not relation][0]
    codes = {'a': rec('a', relation), 'b': rec('b', relation), 'c': rec('c', other), 'd': rec('d', other)}
    shape = each('shape', ['aba', 'abab', 'acba', 'abca', 'acdb', 'cadbc', 'aab', 'abb', 'ccda', 'bbaac', 'dacbad'])
    s = templates.Substitution.parse('[w|' + ','.join([codes[x].verbose_id for x in shape]) + ']', [])
    check(len(s.dependencies) == 1, 'one dependency')
    values = {relation: None, other: None}
    for x in shape:
        values[relation if x in 'ab' else other] = codes[x]
    for observed in (relation, other):
        check(s.dependencies[0].is_specified(observed) == (values[observed] is not None), 'category given', observed)
        check(s.dependencies[0].get(observed) == effective(values[observed], observed), 'category', observed, s.dependencies[0].get(observed))
