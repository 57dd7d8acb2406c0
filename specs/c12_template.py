"""Text of a template."""
from utg import words, templates, dictionary, relations as r

SPECIAL = '[]%|'


def form_of(value):
    return words.WordForm(words.Word(r.WORD_TYPE.TEXT, [value]))


def piece(name):
    """any text, possibly with the characters that mean something elsewhere"""
    shape = each(name + ' shape', ['?', '%', '?%?', '%%', '%s', '?]?', '|', ',', '%(a)s', '{}', '\\'])
    out = ''
    i = 0
    for c in shape:
        if c == '?':
            out = out + text(name + str(i), forbid=SPECIAL)
            i += 1
        else:
            out = out + c
    return out


def scn_verbatim():
    """the text around the variables is kept verbatim and every variable is replaced, in order, by its own word"""
    number = each('number', [0, 1, 2])
    values = [text('v0'), text('v1')]
    marks = ['[a]', '[b]']
    source, expected = piece('head'), piece('head')
    for i in range(number):
        tail = piece('tail') if i + 1 == number else text('middle', forbid=SPECIAL)
        source = source + marks[i] + tail
        expected = expected + values[i] + tail
    template = templates.Template()
    template.parse(source, ['a', 'b'])
    shown = template.substitute({'a': form_of(values[0]), 'b': form_of(values[1])}, dictionary.Dictionary())
    check(shown == expected, 'rendered text', shown, expected)
    again = template.substitute({'a': form_of(values[0]), 'b': form_of(values[1])}, dictionary.Dictionary())
    check(again == expected, 'text rendered again')


def scn_repeated():
    """variables that repeat, differ only in their categories or letter case, or touch each other are replaced one by one"""
    marks = [each('first', ['[a]', '[b]', '[A]', '[a|дт]']), each('second', ['[a]', '[b]', '[a|дт]']), each('third', ['[a]', '[b|]', '[ a ]'])]
    values = {'a': 'xy', 'b': text('b')}
    gap = each('gap', ['', ' ', '%', '[]', ']'])
    source, expected = '', ''
    for mark in marks:
        source = source + mark + gap
        name = 'b' if 'b' in mark else 'a'
        shown = values[name]
        expected = expected + ('Xy' if 'A' in mark else shown) + gap
    template = templates.Template()
    template.parse(source, ['a', 'b'])
    result = template.substitute({'a': form_of(values['a']), 'b': form_of(values['b'])}, dictionary.Dictionary())
    check(result == expected, 'rendered text', result, expected)


def scn_word_text():
    """the inserted words are not interpreted: what looks like markup or formatting in them is shown verbatim"""
    values = [each('v0', ['%', '%s', '[b]', '%%', '{0}', 'x']), each('v1', ['%(a)s', '[a]', '', '%d'])]
    template = templates.Template()
    template.parse('[a] [b]', ['a', 'b'])
    shown = template.substitute({'a': form_of(values[0]), 'b': form_of(values[1])}, dictionary.Dictionary())
    check(shown == values[0] + ' ' + values[1], 'rendered text', shown)


def scn_percent_in_markup():
    """a variable whose name contains a percent sign is looked up under that very name"""
    name = each('name', ['5%', '%', '%s', '100%%'])
    template = templates.Template()
    template.parse('x[' + name + ']%', [name])
    value = text('v')
    shown = template.substitute({name: form_of(value)}, dictionary.Dictionary())
    check(shown == 'x' + value + '%', 'rendered text', shown)


def scn_parse_again():
    """parsing another text into the same template forgets the previous one"""
    first = each('first', ['[a] x', 'x', '[a][b]', ''])
    second = each('second', ['[b]', 'y', '[a] [b]', '', '%'])
    values = {'a': text('a'), 'b': text('b')}
    template = templates.Template()
    template.parse(first, ['a', 'b'])
    template.parse(second, ['a', 'b'])
    shown = template.substitute({'a': form_of(values['a']), 'b': form_of(values['b'])}, dictionary.Dictionary())
    expected = {'[b]': values['b'], 'y': 'y', '[a] [b]': values['a'] + ' ' + values['b'], '': '', '%': '%'}[second]
    check(shown == expected, 'rendered text', shown)


def scn_two_templates():
    """two templates do not share anything"""
    one, two = templates.Template(), templates.Template()
    one.parse('[a]', ['a'])
    two.parse('[b] [a]', ['a', 'b'])
    three = templates.Template()
    a, b = text('a'), text('b')
    externals = {'a': form_of(a), 'b': form_of(b)}
    check(one.substitute(externals, dictionary.Dictionary()) == a, 'first template')
    check(two.substitute(externals, dictionary.Dictionary()) == b + ' ' + a, 'second template')
    check(three.template is None, 'fresh template')
    s, t = templates.Substitution(), templates.Substitution()
    s.dependencies.append('a')
    check(len(t.dependencies) == 0, 'fresh variable')


def scn_variable_spelling():
    """whatever stands between the brackets, line breaks included, belongs to the variable"""
    c = each('character', ['\n', '\t', '\r\n', ' ', '.', '*', '(', '\\', '-', '_', '1', 'ё', 'q', '/', ':', '{', '%', '$', '^', '"', "'", '<', ',', '#', '日'])
    place = each('place', ['inside', 'before', 'after', 'in the categories', 'alone'])
    blank = c.strip() == ''
    name = 'a' + c + 'b' if place == 'inside' else c if place == 'alone' and not blank else 'a'
    mark = '[' + name + ']'
    if place == 'before' and blank:
        mark = '[' + c + name + ']'
    elif place == 'after' and blank:
        mark = '[' + name + c + ']'
    elif place == 'in the categories' and blank:
        mark = '[' + name + '|' + c + 'дт,' + c + 'мн' + c + ']'
    elif place == 'in the categories':
        mark = '[' + name + '|' + c + ']'
    head, tail = each('head', ['', 'x', c]), each('tail', ['', 'y', c])
    value = text('v')
    externals = {name: form_of(value), 'b': form_of('b'), c: form_of(value)}
    template = templates.Template()
    template.parse(head + mark + tail + '[b]', list(externals.keys()))
    check(len(template.get_undictionaried_words({}, dictionary.Dictionary())) == 2, 'number of variables')
    check(template.substitute(externals, dictionary.Dictionary()) == head + value + tail + 'b', 'rendered text')


def scn_surroundings():
    """brackets without a partner, and what stands around them, is ordinary text"""
    head = each('head', ['', ']', ']]', 'x]', '\n', '%]', '[]', '[]]', '\\'])
    middle = each('middle', ['', ']', '[]', '\n', '%', ' '])
    tail = each('tail', ['', '[', ']', '[b', '[b|дт', 'b]', '[[', '%[', '\n', '[]'])
    value = text('v')
    template = templates.Template()
    source = head + '[a]' + middle + '[b]' + tail
    template.parse(source, ['a', 'b'])
    expected = head + value + middle + 'w' + tail
    check(template.substitute({'a': form_of(value), 'b': form_of('w')}, dictionary.Dictionary()) == expected, 'rendered text')


def scn_opening_brackets():
    """a variable extends from its opening bracket to the next closing one, further opening brackets included"""
    name = each('name', ['[a', 'a[', '[[a', 'a[b', '[', 'x[y[z'])
    head, tail = each('head', ['', 'x', ']', ' ']), each('tail', ['', ']', 'y', '[b]', '['])
    code = each('code', ['', '|дт', '|b', '|b|мн'])
    value = text('v')
    externals = {name: form_of(value), 'b': form_of('w')}
    template = templates.Template()
    template.parse(head + '[' + name + code + ']' + tail, list(externals.keys()))
    expected = [name] + (['b'] if tail == '[b]' else [])
    check(list(template.get_undictionaried_words({}, dictionary.Dictionary())) == expected, 'variables')
    check(template.substitute(externals, dictionary.Dictionary()) == head + value + (tail if tail != '[b]' else 'w'), 'rendered text')


def scn_many_variables():
    """any number of variables is replaced, in order"""
    number = each('number', list(range(13)))
    same = each('marks', ['different', 'equal', 'equal up to letter case'])
    source, expected, externals = 'x', 'x', {}
    for i in range(number):
        name = ('v%d' % i) if same == 'different' else 'v'
        mark = name.upper() if same != 'equal' and i % 2 else name
        externals[name] = form_of(name + '-')
        source = source + '[' + mark + ']' + ('%' if i % 3 == 0 else str(i))
        expected = expected + mark[0] + name[1:] + '-' + ('%' if i % 3 == 0 else str(i))
    template = templates.Template()
    template.parse(source, list(externals.keys()))
    check(template.substitute(externals, dictionary.Dictionary()) == expected, 'rendered text')
    check(template.get_undictionaried_words({}, dictionary.Dictionary()) == [x for x in ['v%d' % i if same == 'different' else 'v' for i in range(number)]], 'the variables, in order')
