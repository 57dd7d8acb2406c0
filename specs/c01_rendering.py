"""What a variable of a template is replaced with."""
from utg import words, templates, dictionary, exceptions, transformators, relations as r
from specs.common import relations, default_of, last_given, word_of, forms_of, effective
from specs.c02_numerals import noun_rule, adjective_rule
from specs.c05_preposition import expected as preposition_rule


def empty():
    return dictionary.Dictionary()


def names(relation):
    return [record.verbose_id for record in relation.records]


def pick(word_type, forms, values):
    """text of the slot; values: relation -> value or None"""
    return forms[layout_index(word_type, tuple([effective(values.get(x), x) for x in word_type.schema]))]


def external(name, *properties):
    """an external of a part of speech no noun agrees with"""
    return words.WordForm(words.Word(r.WORD_TYPE.TEXT, [text(name)]), words.Properties(*properties))


def scn_precedence():
    """the categories of an inserted word: its own win over the dependencies, later dependencies over earlier ones, and any dependency over the inserted form"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN])
    relation = each('relation', list(word_type.schema))
    base, own = opt('base', relation), opt('own', relation)
    first, second = opt('first', relation), opt('second', relation)
    shape = each('shape', ['', 'p', 'e', 'pp', 'pe', 'ep', 'ee'])
    forms = forms_of(word_type, 'f')
    form = words.WordForm(words.Word(word_type, forms, words.Properties(own)), words.Properties(base))
    externals = {'w': form}
    s = templates.Substitution()
    s.id = 'w'
    given = []
    for i in range(len(shape)):
        value = (first, second)[i]
        if shape[i] == 'p':
            s.dependencies.append(words.Properties(value))
        else:
            s.dependencies.append('x%d' % i)
            externals['x%d' % i] = external('x%d' % i, value)
        given.append(value)
    shown = s.get_text(externals, empty())
    check(shown == pick(word_type, forms, {relation: last_given(base, *(given + [own]))}), 'inserted text')
    # nothing that took part is changed
    check(form.properties.is_specified(relation) == (base is not None or own is not None), 'the inserted form is not changed')
    check(form.word.properties.is_specified(relation) == (own is not None), 'the inserted word is not changed')
    check(s.get_text(externals, empty()) == shown, 'rendering again gives the same text')


def scn_displayed_categories():
    """the categories a supplied form is displayed with on its own play no part in what a variable is replaced with"""
    relation = each('relation', list(r.WORD_TYPE.NOUN.schema))
    base, shown, dep, dep_shown = opt('base', relation), opt('shown', relation), opt('dependency', relation), opt('dependency shown', relation)
    forms = forms_of(r.WORD_TYPE.NOUN, 'f')
    form = words.WordForm(words.Word(r.WORD_TYPE.NOUN, forms), words.Properties(base), words.Properties(shown))
    master = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x']), words.Properties(dep), words.Properties(dep_shown))
    s = templates.Substitution()
    s.id = 'w'
    s.dependencies.append('x')
    check(s.get_text({'w': form, 'x': master}, empty()) == pick(r.WORD_TYPE.NOUN, forms, {relation: last_given(base, dep)}), 'inserted text')


def scn_independent_categories():
    """every category follows the precedence on its own"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN])
    schema = word_type.schema
    relation = each('relation', list(schema))
    other = each('other', [x for x in schema if x is not relation])
    base, dep, own = opt('base', relation), opt('dep', other), opt('own', other)
    forms = forms_of(word_type, 'f')
    form = words.WordForm(words.Word(word_type, forms, words.Properties(own)), words.Properties(base))
    s = templates.Substitution()
    s.id = 'w'
    s.dependencies.append(words.Properties(dep))
    shown = s.get_text({'w': form}, empty())
    check(shown == pick(word_type, forms, {relation: base, other: last_given(dep, own)}), 'inserted text')


def scn_markup_categories():
    """categories written in the markup reach the inserted word"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN, r.WORD_TYPE.PREPOSITION])
    relation = each('relation', list(word_type.schema))
    value = rec('value', relation)
    second = each('second', [x for x in word_type.schema if x is not relation] + [None])
    forms = forms_of(word_type, 'f')
    form = words.WordForm(words.Word(word_type, forms))
    markup = value.verbose_id
    values = {relation: value}
    if second is not None:
        other = rec('other', second)
        markup = markup + ',' + other.verbose_id
        values[second] = other
    s = templates.Substitution.parse('[w|' + markup + ']', ['w'])
    check(s.get_text({'w': form}, empty()) == pick(word_type, forms, values), 'inserted text')


def scn_source():
    """an external is preferred to a dictionary word of the same name; without either, rendering fails with the documented error"""
    where = each('where', ['external', 'dictionary', 'both', 'nowhere'])
    name = text('name', nonempty=True, forbid='|[]% \t\n\r\x0b\x0c', lower=True)
    a, b = text('a'), text('b')
    known = empty()
    forms = [name]
    if where == 'dictionary' or where == 'both':
        known.add_word(words.Word(r.WORD_TYPE.TEXT, [name]))
    externals = {}
    if where == 'external' or where == 'both':
        externals[name] = words.WordForm(words.Word(r.WORD_TYPE.TEXT, [a]))
    s = templates.Substitution()
    s.id = name
    kind, value = outcome(s.get_text, externals, known)
    if where == 'nowhere':
        check(kind == 'raise', 'a missing word is reported')
        check(isinstance(value, exceptions.NoWordsFoundError), 'a missing word is reported with the documented error', value)
    else:
        check(kind == 'value', 'the word is found', value)
        check(value == (name if where == 'dictionary' else a), 'the inserted word')


def scn_missing_dependency():
    """a dependency that is not supplied is reported with the documented error"""
    order = each('order', ['first', 'last', 'only'])
    s = templates.Substitution()
    s.id = 'w'
    missing = text('missing')
    known = empty()
    if each('dictionary', ['empty', 'knows the text']) != 'empty':
        known.add_word(words.Word(r.WORD_TYPE.TEXT, [missing]))
    assume(missing != 'w' and missing != 'x')
    if order == 'first':
        s.dependencies = [missing, 'x']
    elif order == 'last':
        s.dependencies = ['x', missing]
    else:
        s.dependencies = [missing]
    externals = {'w': words.WordForm(words.Word(r.WORD_TYPE.TEXT, [text('a')])), 'x': external('x')}
    kind, value = outcome(s.get_text, externals, known)
    check(kind == 'raise', 'the missing dependency is reported')
    check(isinstance(value, exceptions.ExternalDependecyNotFoundError), 'the missing dependency is reported with the documented error', value)
    check(value.arguments == {'dependency': missing}, 'the error names the missing dependency')


def scn_noun_after_numeral():
    """a noun that depends on a numeral agrees with it, in the case asked for by the other dependencies, wherever they stand"""
    order = each('order', ['numeral first', 'numeral last'])
    case = rec('case', r.CASE)
    numeral = each('numeral', list(r.INTEGER_FORM.records))
    mode = opt('mode', r.DEPENDENCY_MODE)
    animality = opt('animality', r.ANIMALITY)
    fixed = opt('fixed number', r.NUMBER)
    forms = forms_of(r.WORD_TYPE.NOUN, 'f')
    noun = words.WordForm(words.Word(r.WORD_TYPE.NOUN, forms, words.Properties(animality, fixed)))
    number = words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['n'], words.Properties(numeral)))
    s = templates.Substitution()
    s.id = 'w'
    written = words.Properties(case, mode)
    s.dependencies = ['n', written] if order == 'numeral first' else [written, 'n']
    shown = s.get_text({'w': noun, 'n': number}, empty())
    form, count, governed = noun_rule(numeral, effective(mode, r.DEPENDENCY_MODE), case, effective(animality, r.ANIMALITY))
    check(shown == pick(r.WORD_TYPE.NOUN, forms, {r.NOUN_FORM: form, r.NUMBER: count, r.CASE: last_given(case, governed)}), 'inserted text')


def scn_two_governors():
    """agreement with several words is applied in the order in which they are written"""
    first = each('first', [r.INTEGER_FORM.DUAL, r.INTEGER_FORM.PLURAL, r.INTEGER_FORM.SINGULAR])
    order = each('order', ['numeral, preposition', 'preposition, numeral', 'numeral, numeral'])
    case = rec('case', r.CASE)
    forms = forms_of(r.WORD_TYPE.NOUN, 'f')
    noun = words.WordForm(words.Word(r.WORD_TYPE.NOUN, forms))
    number = words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['n'], words.Properties(first)))
    second = words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['m'], words.Properties(r.INTEGER_FORM.PLURAL)))
    other = words.WordForm(words.Word(r.WORD_TYPE.PREPOSITION, ['a', 'b', 'c']))
    s = templates.Substitution()
    s.id = 'w'
    written = words.Properties(case)
    last = first
    if order == 'numeral, preposition':
        s.dependencies = [written, 'n', 'o']
    elif order == 'preposition, numeral':
        s.dependencies = [written, 'o', 'n']
    else:
        s.dependencies = [written, 'n', 'm']
        last = r.INTEGER_FORM.PLURAL
    shown = s.get_text({'w': noun, 'n': number, 'm': second, 'o': other}, empty())
    form, count, governed = noun_rule(last, r.DEPENDENCY_MODE.FULL, case, r.ANIMALITY.ANIMATE)
    if order == 'numeral, numeral':
        case2 = last_given(case, governed)
        form, count, governed = noun_rule(last, r.DEPENDENCY_MODE.FULL, case2, r.ANIMALITY.ANIMATE)
        case = case2
    check(shown == pick(r.WORD_TYPE.NOUN, forms, {r.NOUN_FORM: form, r.NUMBER: count, r.CASE: last_given(case, governed)}), 'inserted text')


def scn_preposition():
    """a preposition takes the form demanded by the word it depends on, over any form written in the markup"""
    written = opt('written', r.PREPOSITION_FORM)
    master = each('master', ['отъезд', 'дом', 'всех', ''])
    base = each('base', ['о', 'из', 'на', ''])
    forms = [base, text('s1'), text('s2')]
    prep = words.WordForm(words.Word(r.WORD_TYPE.PREPOSITION, forms))
    s = templates.Substitution()
    s.id = 'p'
    s.dependencies = ['m', words.Properties(written)]
    shown = s.get_text({'p': prep, 'm': words.WordForm(words.Word(r.WORD_TYPE.TEXT, [master]))}, empty())
    forced = preposition_rule(base, master, 1, False)
    check(shown == forms[effective(last_given(written, forced), r.PREPOSITION_FORM).value], 'inserted text')


def scn_prepositions_order():
    """a preposition that depends on several words takes the form demanded by the last one that demands any"""
    base = each('base', ['о', 'с'])
    written = opt('written', r.PREPOSITION_FORM)
    pool = ['мне', 'огонь', 'дом', 'ссора', '']
    masters = [each('master %d' % i, pool) for i in range(each('number', [2, 3]))]
    forms = [base, text('s1'), text('s2')]
    s = templates.Substitution()
    s.id = 'p'
    externals = {'p': words.WordForm(words.Word(r.WORD_TYPE.PREPOSITION, forms))}
    s.dependencies = [words.Properties(written)]
    chosen = written
    for i in range(len(masters)):
        externals['m%d' % i] = words.WordForm(words.Word(r.WORD_TYPE.TEXT, [masters[i]]))
        s.dependencies.append('m%d' % i)
        chosen = last_given(chosen, preposition_rule(base, masters[i], 2, False))
    check(s.get_text(externals, empty()) == forms[effective(chosen, r.PREPOSITION_FORM).value], 'inserted text', masters)


def scn_adjective_numerals():
    """an adjective that depends on two numerals agrees with both, in the written order"""
    case, gender = rec('case', r.CASE), rec('gender', r.GENDER)
    first, second = rec('first', r.INTEGER_FORM), rec('second', r.INTEGER_FORM)
    forms = forms_of(r.WORD_TYPE.ADJECTIVE, 'f')
    externals = {'w': words.WordForm(words.Word(r.WORD_TYPE.ADJECTIVE, forms)),
                 'i': words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['i'], words.Properties(first))),
                 'j': words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['j'], words.Properties(second)))}
    s = templates.Substitution()
    s.id = 'w'
    s.dependencies = [words.Properties(case, gender), 'i', 'j']
    # both see the overlaid categories, so the class of the last numeral decides; the case of the first rule is what the second one sees
    values = {r.CASE: case, r.GENDER: gender}
    for turn in range(2):
        number, governed = adjective_rule(second, r.DEPENDENCY_MODE.FULL, values[r.CASE], gender)
        values[r.NUMBER], values[r.CASE] = number, last_given(values[r.CASE], governed)
    check(s.get_text(externals, empty()) == pick(r.WORD_TYPE.ADJECTIVE, forms, values), 'inserted text')


def scn_recognised():
    """a dictionary word keeps the categories its spelling is recognised by, unless a dependency or the word itself says otherwise"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN, r.WORD_TYPE.VERB, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.PARTICIPLE])
    schema = word_type.schema
    keys = layout_keys(word_type)
    step = 1 if thorough() or len(keys) <= 20 else 13
    slot = each('slot', list(range(0, len(keys), step)))
    forms = ['ф%d' % i for i in range(len(keys))]
    position = (slot // step) % len(schema)
    relation = schema[position]
    written, own = opt('written', relation), None
    if each('own', ['no', 'yes']) == 'yes':
        own = keys[slot][position] if keys[slot][position] is not None else relation.records[-1]
    source = each('source', ['markup', 'word', 'nothing'])
    store = dictionary.Dictionary([words.Word(word_type, forms, words.Properties(own))])
    externals = {'x': words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x']), words.Properties(written))}
    name = ('Ф%d' if slot % 2 else 'ф%d') % slot
    s = templates.Substitution.parse('[' + name + ('|x' if source == 'word' else '') + ']', ['x'])
    if source == 'markup':
        s.dependencies.append(words.Properties(written))
    shown = s.get_text(externals, store)
    # all forms are spelled differently, so the spelling tells the slot
    values = {}
    for i in range(len(schema)):
        values[schema[i]] = keys[slot][i]
    values[relation] = last_given(values[relation], written if source != 'nothing' else None, own)
    expected = pick(word_type, forms, values)
    check(shown == (expected[0].upper() + expected[1:] if slot % 2 else expected), 'inserted text', slot, shown)


def scn_itself():
    """a variable may depend on itself: the word agrees with its own inserted form"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN, r.WORD_TYPE.VERB])
    s = templates.Substitution()
    s.id = 'w'
    if word_type is r.WORD_TYPE.PREPOSITION:
        base = each('base', ['о', 'из', 'в', 'об'])
        written = opt('written', r.PREPOSITION_FORM)
        forms = [base, 's1', 's2']
        word = words.WordForm(words.Word(word_type, forms), words.Properties(written))
        s.dependencies = ['w']
        # the preposition governs the form its own word is shown in
        assume(written is None or written == r.PREPOSITION_FORM.NORMAL)
        forced = preposition_rule(base, base, 1, False)
        check(s.get_text({'w': word}, empty()) == forms[effective(last_given(written, forced), r.PREPOSITION_FORM).value], 'inserted text')
    else:
        relation = word_type.schema[0]
        carried, written = opt('carried', relation), opt('written', relation)
        forms = forms_of(word_type, 'f')
        s.dependencies = [words.Properties(written), 'w'] if each('order', [0, 1]) else ['w', words.Properties(written)]
        last = last_given(written, carried) if isinstance(s.dependencies[0], words.Properties) else last_given(carried, written)
        word = words.WordForm(words.Word(word_type, forms), words.Properties(carried))
        check(s.get_text({'w': word}, empty()) == pick(word_type, forms, {relation: last}), 'inserted text')
