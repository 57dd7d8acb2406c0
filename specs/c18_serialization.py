"""Serialized words, templates and categories."""
from utg import words, templates, dictionary, exceptions, relations as r
from specs.common import relations, same_set, forms_of, word_of, default_of


def way(data):
    """the data as it is, or after a trip through JSON"""
    return json_roundtrip(data) if each('json', [False, True]) else data


def scn_properties():
    """any set of categories is restored exactly"""
    left_out = each('left out', [None] + relations())
    values = [rec('value ' + x.__name__, x) for x in relations() if x is not left_out]
    props = words.Properties(*values)
    data = props.serialize()
    again = words.Properties.deserialize(way(data))
    check(again == props and same_set(again, props), 'restored categories')
    for relation in relations():
        check(again.is_specified(relation) == (relation is not left_out), 'specified categories', relation)
    check(props.serialize() == data, 'serialized again')
    check(again.serialize() == data, 'the restored set is serialized alike')


def scn_properties_sparse():
    """the same for sets with at most two categories"""
    pair = [each('first', relations()), each('second', relations())]
    values = [opt('a', pair[0]), opt('b', pair[1])]
    props = words.Properties(*values)
    again = words.Properties.deserialize(way(props.serialize()))
    check(again == props and same_set(again, props), 'restored categories')
    check(len(props.serialize()) == len([x for x in relations() if props.is_specified(x)]), 'one item per specified category')


def scn_unknown_ids():
    """categories and values that no longer exist are ignored, all others are kept"""
    relation = each('relation', relations())
    value = rec('value', relation)
    data = words.Properties(value).serialize()
    keys = list(data.keys())
    unknown_key = each('unknown category', [8, 99, 1000])
    unknown_value = each('unknown value', [0, 77])
    spelled = str(unknown_key) if each('json', [False, True]) else unknown_key
    shape = each('shape', ['category', 'value', 'both'])
    if shape != 'value':
        data[spelled] = unknown_value
    expected = words.Properties(value)
    if shape != 'category':
        data[keys[0]] = 77
        expected = words.Properties()
    kind, again = outcome(words.Properties.deserialize, data)
    check(kind == 'value', 'restored', again)
    check(again == expected, 'what still exists is kept, the rest is ignored', again)


def scn_word():
    """any word is restored exactly: part of speech, forms and categories"""
    word_type = each('type', r.WORD_TYPE.records)
    relation = each('relation', relations())
    own = opt('own', relation)
    other = opt('other', r.ANIMALITY)
    forms = forms_of(word_type, 'f')
    word = words.Word(word_type, forms, words.Properties(other, own))
    again = words.Word.deserialize(way(word.serialize()))
    check(again == word and not (again != word), 'restored word')
    check(again.type is word_type, 'part of speech')
    check(len(again.forms) == len(forms), 'number of forms')
    for i in range(len(forms)):
        check(again.forms[i] == forms[i], 'form', i)
    check(same_set(again.properties, word.properties), 'categories')
    check(again.serialize() == word.serialize(), 'serialized alike')


def scn_word_data():
    """the serialized word keeps its documented shape"""
    word_type = each('type', r.WORD_TYPE.records)
    own = opt('own', r.GENDER)
    forms = forms_of(word_type, 'f')
    word = words.Word(word_type, forms, words.Properties(own))
    data = word.serialize()
    check(data['type'] == word_type.value, 'part of speech')
    check(list(data['forms']) == forms, 'forms')
    check(data['properties'] == words.Properties(own).serialize(), 'categories')
    check(json_roundtrip(data)['type'] == word_type.value, 'the data survives JSON')


def scn_no_sharing():
    """the serialized data and the object do not share anything that can be changed"""
    word_type = each('type', [r.WORD_TYPE.TEXT, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN])
    forms = forms_of(word_type, 'f')
    kept = list(forms)
    word = words.Word(word_type, forms, words.Properties(r.GENDER.FEMININE))
    data = word.serialize()
    again = words.Word.deserialize(data)
    data['forms'][0] = 'changed'
    data['properties'][3] = 0
    check(word.forms[0] == kept[0], 'changing the data does not change the word')
    check(again.forms[0] == kept[0], 'changing the data does not change the restored word')
    check(word.properties == words.Properties(r.GENDER.FEMININE), 'changing the data does not change the categories')
    check(again.properties == words.Properties(r.GENDER.FEMININE), 'changing the data does not change the restored categories')
    fresh = word.serialize()
    word.forms[0] = 'other'
    check(fresh['forms'][0] == kept[0], 'changing the word does not change the data')
    template = templates.Template()
    template.parse('[a|b|дт]', ['b'])
    data = template.serialize()
    restored = templates.Template.deserialize(data)
    data['substitutions'][0]['dependencies'].append('c')
    data['substitutions'][0]['id'] = 'x'
    data['substitutions'].append(None)
    data['template'] = ''
    check(template == restored, 'changing the data changes no template')
    check(template.serialize() == restored.serialize(), 'changing the data changes no template')
    check(len(template.serialize()['substitutions']) == 1, 'changing the data changes no template')


def substitution():
    s = templates.Substitution()
    s.id = text('id')
    for i in range(each('dependencies', [0, 1, 2])):
        kind = each('kind%d' % i, ['external', 'categories', 'two categories', 'no categories'])
        if kind == 'external':
            s.dependencies.append(text('external%d' % i))
        elif kind == 'categories':
            relation = each('relation%d' % i, relations())
            s.dependencies.append(words.Properties(rec('value%d' % i, relation)))
        elif kind == 'two categories':
            s.dependencies.append(words.Properties(rec('case%d' % i, r.CASE), rec('number%d' % i, r.NUMBER)))
        else:
            s.dependencies.append(words.Properties())
    return s


def scn_substitution():
    """any variable is restored exactly: its name and its dependencies, in order"""
    s = substitution()
    again = templates.Substitution.deserialize(way(s.serialize()))
    check(again == s, 'restored variable')
    check(again.id == s.id, 'name')
    check(len(again.dependencies) == len(s.dependencies), 'number of dependencies')
    for i in range(len(s.dependencies)):
        check(again.dependencies[i] == s.dependencies[i], 'dependency', i)
    check(again.serialize() == s.serialize(), 'serialized alike')


def scn_template():
    """a restored template is equal to the original, renders the same text and lacks the same words"""
    source = each('source', ['', 'x', '[a]', 'x [a] y [b|a] z', '[A|дт,мн|b] 100% [b]', '[b][b|a|рд]%', '[a|дт|]'])
    template = templates.Template()
    template.parse(source, ['a', 'b'])
    again = templates.Template.deserialize(way(template.serialize()))
    check(again == template, 'restored template')
    a = words.WordForm(words.Word(r.WORD_TYPE.NOUN, ['a%d' % i for i in range(words.Word.get_forms_number(r.WORD_TYPE.NOUN))]))
    b = words.WordForm(words.Word(r.WORD_TYPE.PRONOUN, ['b%d' % i for i in range(words.Word.get_forms_number(r.WORD_TYPE.PRONOUN))], words.Properties(opt('b', r.NUMBER))))
    externals = {'a': a, 'b': b}
    store = dictionary.Dictionary()
    check(again.substitute(externals, store) == template.substitute(externals, store), 'rendered text')
    check(again.serialize() == template.serialize(), 'serialized alike')
    check(list(again.get_undictionaried_words({}, store)) == list(template.get_undictionaried_words({}, store)), 'missing words')


def scn_two_variables():
    """two variables of one template are restored each as it was, however much they resemble each other, as are their words"""
    pool = ['[a]', '[A]', '[b]', '[a|b]', '[a|дт]', '[a|рд]', '[a|b|дт]', '[a|дт|b]', '[a|дт,мн]', '[a|дт|мн]', '[a|]', '[b|]']
    source = each('first', pool) + each('between', ['', ' ']) + each('second', pool)
    template = templates.Template()
    template.parse(source, ['a', 'b'])
    again = templates.Template.deserialize(way(template.serialize()))
    check(again == template and template == again and not again != template, 'restored template')
    check(again.template == template.template, 'restored text')
    forms = words.Word.get_forms_number(r.WORD_TYPE.NOUN)
    a = words.WordForm(words.Word(r.WORD_TYPE.NOUN, ['a%d' % i for i in range(forms)]))
    b = words.WordForm(words.Word(r.WORD_TYPE.NOUN, ['b%d' % i for i in range(forms)]), words.Properties(r.CASE.DATIVE))
    store = dictionary.Dictionary()
    check(again.substitute({'a': a, 'b': b}, store) == template.substitute({'a': a, 'b': b}, store), 'rendered text')
    check(again.serialize() == template.serialize(), 'serialized alike')
    check(list(again.get_undictionaried_words({'b': b}, store)) == list(template.get_undictionaried_words({'b': b}, store)), 'missing words')


def scn_fresh_template():
    """a template nothing was parsed into is restored as such"""
    template = templates.Template()
    again = templates.Template.deserialize(way(template.serialize()))
    check(again == template, 'restored template')
    check(again.template is None, 'no text')


def scn_opaque_template():
    """the text of a template is restored verbatim"""
    source = each('before', ['', '%', '[a]']) + text('source', forbid='[]%') + each('after', ['', '%s', '[a]'])
    template = templates.Template()
    template.parse(source, ['a'])
    again = templates.Template.deserialize(way(template.serialize()))
    externals = {'a': words.WordForm(words.Word(r.WORD_TYPE.TEXT, [text('a')]))}
    check(again == template, 'restored template')
    check(again.substitute(externals, dictionary.Dictionary()) == template.substitute(externals, dictionary.Dictionary()), 'rendered text')


def scn_several():
    """restored objects do not influence each other"""
    first, second = words.Word(r.WORD_TYPE.TEXT, [text('a')]), words.Word(r.WORD_TYPE.TEXT, [text('b')], words.Properties(r.GENDER.FEMININE))
    one, two = words.Word.deserialize(first.serialize()), words.Word.deserialize(second.serialize())
    check(one == first and two == second, 'restored words')
    s, t = templates.Substitution.deserialize({'id': 'a', 'dependencies': []}), templates.Substitution.deserialize({'id': 'a', 'dependencies': []})
    s.dependencies.append('x')
    check(len(t.dependencies) == 0, 'restored variables do not share dependencies')
