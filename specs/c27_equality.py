"""Equality of words, forms, categories, variables and templates."""
from utg import words, templates, dictionary, relations as r
from specs.common import relations, neighbour, same_set


def laws(a, b, equal, what):
    """equality is as expected, symmetric, reflexive, the opposite of inequality, and equal objects hash alike"""
    check((a == b) == equal, what + ': equality')
    check((b == a) == equal, what + ': equality is symmetric')
    check(a == a and b == b, what + ': equality is reflexive')
    check((a != b) == (not equal) and (b != a) == (not equal), what + ': inequality is the opposite of equality')
    check(not (a != a), what + ': nothing differs from itself')


def hashes(a, b, equal, what):
    check(hash(a) == hash(a), what + ': the hash is stable')
    if equal:
        check(hash(a) == hash(b), what + ': equal objects have equal hashes')
        check(len(set([a, b])) == 1 and {a: 1}.get(b) == 1, what + ': equal objects are one key')


def props(name, relation, other):
    return words.Properties(opt(name, relation), opt(name + ' too', other))


def scn_categories():
    """sets of categories are equal exactly when they specify the same categories alike"""
    relation = each('relation', relations())
    other = neighbour(relation)
    a, b = props('a', relation, other), props('b', other, relation)
    equal = same_set(a, b)
    laws(a, b, equal, 'categories')
    hashes(a, b, equal, 'categories')


def scn_words():
    """words are equal exactly when the part of speech, the forms and the own categories are"""
    types = [r.WORD_TYPE.TEXT, r.WORD_TYPE.INTEGER]
    one = words.Word(each('first type', types), [text('a')], words.Properties(opt('own', r.NUMBER)))
    two = words.Word(each('second type', types), [text('b')], words.Properties(opt('own too', r.NUMBER)))
    equal = one.type is two.type and one.forms[0] == two.forms[0] and same_set(one.properties, two.properties)
    laws(one, two, equal, 'words')
    hashes(one, two, equal, 'words')


def scn_word_forms_all_matter():
    """words that differ in any single form are different"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN])
    forms = ['f%d' % i for i in range(words.Word.get_forms_number(word_type))]
    place = each('place', [None] + list(range(len(forms))))
    changed = list(forms)
    if place is not None:
        changed[place] = each('form', ['', 'F0', 'f'])
    one, two = words.Word(word_type, forms), words.Word(word_type, changed)
    laws(one, two, place is None, 'words')
    hashes(one, two, place is None, 'words')


def scn_word_forms():
    """forms are equal exactly when their words and categories are, however the categories were asked for"""
    kind = each('word', [(['x'], ['x']), (['x'], ['y'])])
    one, two = words.Word(r.WORD_TYPE.TEXT, list(kind[0])), words.Word(r.WORD_TYPE.TEXT, list(kind[1]))
    asked, other = opt('asked', r.CASE), opt('asked too', r.CASE)
    how = each('asked for', ['none', 'argument', 'clone'])
    a = words.WordForm(one, words.Properties(asked))
    if how == 'none':
        assume(other is None)
        b = words.WordForm(two)
    elif how == 'argument':
        b = words.WordForm(two, words.Properties(other))
    else:
        b = words.WordForm(two, words.Properties(r.CASE.DATIVE).clone(other))
        assume(other is not None)
    equal = one == two and asked == other
    laws(a, b, equal, 'forms')
    hashes(a, b, equal, 'forms')
    if equal:
        check(a.form == b.form, 'equal forms are spelled alike')


def scn_displayed_categories():
    """forms displayed with separate categories obey the laws of equality as well"""
    asked, asked_too, shown, shown_too = opt('asked', r.CASE), opt('asked too', r.CASE), opt('shown', r.CASE), opt('shown too', r.CASE)
    one, two = words.Word(r.WORD_TYPE.TEXT, ['x']), words.Word(r.WORD_TYPE.TEXT, ['x'])
    a = words.WordForm(one, words.Properties(asked), words.Properties(shown))
    b = words.WordForm(two, words.Properties(asked_too), words.Properties(shown_too))
    equal = a == b
    laws(a, b, equal, 'forms')
    hashes(a, b, equal, 'forms')
    if asked == asked_too and shown == shown_too:
        check(equal, 'forms with the same word and categories are equal')
    if asked != asked_too:
        check(not equal, 'forms with other categories are different')
    plain = words.WordForm(one, words.Properties(asked))
    laws(a, plain, a == plain, 'forms')
    hashes(a, plain, a == plain, 'forms')
    hashes(plain, a, plain == a, 'forms')


def scn_variables():
    """variables are equal exactly when the names and the dependencies, in order, are"""
    choices = [[], ['a'], ['b'], ['a', 'b'], ['b', 'a'], [words.Properties(r.CASE.DATIVE)], [words.Properties(r.CASE.GENITIVE)], ['a', words.Properties()], [words.Properties(r.CASE.DATIVE), 'a']]
    numbers = list(range(len(choices)))
    one, two = templates.Substitution(), templates.Substitution()
    one.id, two.id = text('a'), text('b')
    m, n = each('first', numbers), each('second', numbers)
    one.dependencies, two.dependencies = list(choices[m]), list(choices[n])
    laws(one, two, one.id == two.id and m == n, 'variables')


def scn_templates():
    """templates parsed from the same text are equal; a different text, variable or dependency makes them different"""
    texts = ['', ' ', 'x', '[a]', '[b]', '[A]', '[a|b]', '[a|дт]', '[a|рд]', '[a][b]', '[b][a]', '[a] [b]', '%', '%s', '[a]%s', 'x[a]', '[a]x']
    m, n = each('first', texts), each('second', texts)
    one, two = templates.Template(), templates.Template()
    one.parse(m, ['a', 'b'])
    two.parse(n, ['a', 'b'])
    laws(one, two, m == n, 'templates')
    fresh = templates.Template()
    check((fresh == one) == False and (one == fresh) == False, 'a template nothing was parsed into differs from the others')
    check(fresh == templates.Template(), 'fresh templates are equal')


def scn_other_types():
    """objects of the library equal nothing of another kind, and comparing them fails on nothing"""
    word = words.Word(r.WORD_TYPE.TEXT, ['x'])
    template = templates.Template()
    template.parse('x', [])
    objects = [words.Properties(), words.Properties(r.CASE.DATIVE), word, words.WordForm(word), templates.Substitution(), template]
    n = each('object', list(range(len(objects))))
    others = [None, '', 'x', 0, 1, False, (), [], {}, r.CASE.DATIVE, r.WORD_TYPE.TEXT] + [objects[i] for i in range(len(objects)) if i != n]
    other = each('other', list(range(len(others))))
    a, b = objects[n], others[other]
    kind, value = outcome(lambda: a == b)
    check(kind == 'value', 'comparison does not fail', value)
    check(not value, 'objects of different kinds are different')
    kind, value = outcome(lambda: a != b)
    check(kind == 'value', 'comparison does not fail', value)
    check(value == True, 'objects of different kinds are different')
    kind, value = outcome(lambda: b == a)
    check(kind == 'value' and not value, 'objects of different kinds are different', value)
    check(not (a in [b]), 'membership')


def scn_lookups():
    """equal words and forms are interchangeable as keys"""
    own = opt('own', r.GENDER)
    one = words.Word(r.WORD_TYPE.PREPOSITION, ['a', 'b', 'c'], words.Properties(own))
    two = words.Word(r.WORD_TYPE.PREPOSITION, ['a', 'b', 'c'], words.Properties(own))
    three = words.Word(r.WORD_TYPE.PREPOSITION, ['a', 'b', 'd'], words.Properties(own))
    check(len(set([one, two, three])) == 2, 'words in a set')
    known = {one: 1, three: 3}
    check(known[two] == 1 and known[three] == 3, 'words as keys')
    asked = words.Properties(rec('asked', r.PREPOSITION_FORM))
    forms = {words.WordForm(one, asked): 1}
    check(forms.get(words.WordForm(two, asked)) == 1, 'forms as keys')
    check(forms.get(words.WordForm(three, asked)) is None, 'forms as keys')
    store = dictionary.Dictionary([one, two])
    check(len(store.get_words()) == 1, 'equal words of a dictionary are listed once')
    # reading facts and forms of a word does not affect comparisons
    one.number_of_syllables
    one.has_fluent_vowel
    check(one == two and hash(one) == hash(two), 'reading facts does not make words different')
    form = words.WordForm(one, asked)
    form.form
    check(form == words.WordForm(two, asked), 'reading the text does not make forms different')


def scn_dependency_kinds():
    """a dependency on a supplied word never equals a set of categories, whatever the word is called"""
    categories = each('categories', [[], [r.NUMBER.PLURAL], [r.CASE.DATIVE, r.NUMBER.PLURAL]])
    given = words.Properties(*categories)
    codes = ','.join([x.verbose_id for x in categories])
    name = each('name', [str(given), codes, '(' + codes + ')', repr(given.serialize()), str(hash(given)), '()', ''])
    one, two = templates.Substitution(), templates.Substitution()
    one.id = two.id = 'w'
    around = each('around', [[], ['x']])
    one.dependencies, two.dependencies = around + [given], around + [name]
    check(not (one == two) and not (two == one), 'different variables', name)
    check(one != two and two != one, 'different variables are unequal', name)
    two.dependencies = around + [words.Properties(*categories)]
    check(one == two, 'the same variable')
