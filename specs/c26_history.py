"""What was done before has no influence: the same operations with other inputs first, then compared with the reference."""
from utg import words, templates, dictionary, lexicon, transformators, constructors, exceptions, data, logic, relations as r
from specs.common import relations, default_of, last_given, word_of, effective
from specs.c02_numerals import noun_rule, adjective_rule, NOUN_LIKE, ADJECTIVE_LIKE
from specs.c05_preposition import expected as preposition_rule
from specs.c22_nearest import score
from specs.c23_autofill import expected_forms
from specs.c24_facts import fluent, syllables, cluster
from specs.c15_lexicon import eligible, nearest, check_choice, same


def labels(word_type, prefix):
    return [prefix + str(i) for i in range(len(layout_keys(word_type)))]


def shown(word_type, forms, values):
    """text of the slot; values: relation -> value or None"""
    return forms[layout_index(word_type, tuple([effective(values.get(x), x) for x in word_type.schema]))]


# ---------------------------------------------------------------- agreement

KINDS = [r.INTEGER_FORM, r.DEPENDENCY_MODE, r.CASE, r.ANIMALITY, r.GENDER, r.NUMBER, r.NOUN_FORM, r.PERSON]


def governed(slave_type, given):
    """the categories the numeral imposes, by the reference table"""
    value = lambda relation: effective(given[relation], relation)
    if slave_type in NOUN_LIKE:
        form, number, case = noun_rule(value(r.INTEGER_FORM), value(r.DEPENDENCY_MODE), value(r.CASE), value(r.ANIMALITY))
        return {r.NOUN_FORM: form, r.NUMBER: number, r.CASE: case}
    number, case = adjective_rule(value(r.INTEGER_FORM), value(r.DEPENDENCY_MODE), value(r.CASE), value(r.GENDER))
    return {r.NUMBER: number, r.CASE: case}


def agree(slave, given, numeral):
    props = words.Properties(*given.values())
    result = transformators.transform(slave, props, numeral)
    imposed = governed(slave.type, given)
    for relation in KINDS:
        value = last_given(given[relation], imposed.get(relation))
        check(result.is_specified(relation) == (value is not None), 'category given or not', relation)
        check(result.get(relation) == effective(value, relation), 'value of the category', relation, result.get(relation))
    return props


def agreement_after_agreement(types):
    first_type = each('first slave', types)
    varied = each('varied', KINDS + ['slave'])
    given = {relation: None for relation in KINDS}
    given[r.INTEGER_FORM], given[r.CASE] = rec('numeral', r.INTEGER_FORM), rec('case', r.CASE)
    given[r.NUMBER] = r.NUMBER.PLURAL
    numeral = words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['n']))
    if varied in (r.ANIMALITY, r.GENDER):
        given[varied] = rec('value', varied)
    before = agree(words.Word(first_type, labels(first_type, 'a')), given, numeral)
    again = dict(given)
    second_type = first_type
    if varied == 'slave':
        second_type = each('second slave', [t for t in NOUN_LIKE + ADJECTIVE_LIKE if t is not first_type])
    else:
        again[varied] = opt('other', varied)
    agree(words.Word(second_type, labels(second_type, 'b')), again, words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['m'])))
    for relation in KINDS:
        check(before.get(relation) == effective(given[relation], relation), 'the first categories are as they were', relation)


def scn_noun_agreement():
    """agreement of a noun with a numeral follows the table whatever was agreed before"""
    agreement_after_agreement(NOUN_LIKE)


def scn_adjective_agreement():
    """agreement of an adjective with a numeral follows the table whatever was agreed before"""
    agreement_after_agreement(ADJECTIVE_LIKE if thorough() else [r.WORD_TYPE.ADJECTIVE, r.WORD_TYPE.VERB])


def governor(name):
    """a governing word: text shown, number of syllables, fluent vowel"""
    entry = each(name, [('сне', 'prep', True), ('сне', 'text', False), ('власти', 'text', False), ('отъезд', 'text', False), ('всех', 'text', False), ('', 'text', False), ('доме', 'text', False)])
    if entry[1] == 'text':
        return words.WordForm(words.Word(r.WORD_TYPE.TEXT, [entry[0]])), entry[0], syllables(entry[0]), False
    # a one-syllable word with a fluent vowel
    word = words.Word(r.WORD_TYPE.PREPOSITION, ['сон', entry[0], 'снов'])
    return words.WordForm(word, words.Properties(r.PREPOSITION_FORM.ALTERNATIVE)), entry[0], 1, True


def scn_preposition():
    """the form of a preposition follows the rule whatever prepositions and words were met before"""
    same_objects = each('the same preposition', [True, False])
    bases = ['о', 'в', 'из', 'на']
    first, second = each('first', bases), each('second', bases)
    assume((first == second) == same_objects)
    one = words.Word(r.WORD_TYPE.PREPOSITION, [first, 's', 't'])
    two = one if same_objects else words.Word(r.WORD_TYPE.PREPOSITION, [second, 's', 't'])
    a, b = opt('asked first', r.PREPOSITION_FORM), opt('asked second', r.PREPOSITION_FORM)
    for slave, asked, name in ((one, a, 'first governor'), (two, b, 'second governor')):
        master, text_shown, count, is_fluent = governor(name)
        result = transformators.transform(slave, words.Properties(asked), master)
        forced = preposition_rule(slave.forms[0], text_shown, count, is_fluent)
        check(result.get(r.PREPOSITION_FORM) == effective(last_given(asked, forced), r.PREPOSITION_FORM), 'form of the preposition', slave.forms[0], text_shown)


# ---------------------------------------------------------------- rendering

def noun(prefix, *own):
    return words.Word(r.WORD_TYPE.NOUN, labels(r.WORD_TYPE.NOUN, prefix), words.Properties(*own))


def scn_variable():
    """a variable is rendered from the words supplied now, not from those supplied before"""
    case = rec('case', r.CASE)
    s = templates.Substitution()
    s.id = 'w'
    s.dependencies = [words.Properties(case), 'n'] if each('order', [0, 1]) else ['n', words.Properties(case)]
    varied = each('varied', ['word', 'own', 'numeral', 'form', 'source', 'nothing'])
    stored = dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, ['w'])])
    numerals = [each('first numeral', [r.INTEGER_FORM.SINGULAR, r.INTEGER_FORM.PLURAL]), each('second numeral', [r.INTEGER_FORM.DUAL, r.INTEGER_FORM.PLURAL, r.INTEGER_FORM.SINGULAR])]
    results, expected = [], []
    base = noun('a')
    for turn in range(2):
        word, own, asked = base, None, None
        numeral = numerals[turn] if varied == 'numeral' else numerals[0]
        if varied == 'word' and turn == 1:
            word = noun('b')
        if varied == 'own' and turn == 1:
            own = r.ANIMALITY.INANIMATE
            word = noun('a', own)
        if varied == 'form' and turn == 1:
            asked = r.CASE.DATIVE
        externals = {'n': words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['n'], words.Properties(numeral)))}
        if varied == 'source' and turn == 1:
            results.append(s.get_text(externals, stored))
            expected.append('w')
            continue
        externals['w'] = words.WordForm(word, words.Properties(asked))
        results.append(s.get_text(externals, stored))
        form, count, imposed = noun_rule(numeral, r.DEPENDENCY_MODE.FULL, case, effective(own, r.ANIMALITY))
        expected.append(shown(r.WORD_TYPE.NOUN, word.forms, {r.NOUN_FORM: form, r.NUMBER: count, r.CASE: last_given(case, imposed)}))
    check(results[0] == expected[0], 'text of the first rendering')
    check(results[1] == expected[1], 'text of the second rendering')


def scn_template():
    """a template is rendered from the words supplied now; the missing words it reports are those missing now"""
    template = templates.Template()
    template.parse('A [a] % [b|дт] [A]', ['a', 'b'])
    stored = [each('stored first', [(), ('a',), ('a', 'b')]), each('stored second', [(), ('b',), ('a', 'b')])]
    given = [each('given first', [(), ('a',), ('a', 'b')]), each('given second', [(), ('b',), ('a', 'b'), ('a',)])]
    for turn in range(2):
        externals = {x: words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['%s%d' % (x, turn)])) for x in given[turn]}
        store = dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, [x]) for x in stored[turn]])
        missing = [x for x in ('a', 'b', 'a') if x not in given[turn] and x not in stored[turn]]
        check(list(template.get_undictionaried_words(externals, store)) == missing, 'missing words')
        kind, value = outcome(template.substitute, externals, store)
        check((kind == 'value') == (len(missing) == 0), 'rendering succeeds when nothing is missing', value)
        if not missing:
            a = 'a%d' % turn if 'a' in given[turn] else 'a'
            b = 'b%d' % turn if 'b' in given[turn] else 'b'
            check(value == 'A ' + a + ' % ' + b + ' ' + a[0].upper() + a[1:], 'rendered text', value)


def scn_same_dictionary():
    """words registered in a dictionary between two requests take part in the second one"""
    template = templates.Template()
    template.parse('[a] [b]', [])
    store = dictionary.Dictionary()
    first = each('first', [None, 'a', 'b', 'c'])
    if first is not None:
        store.add_word(words.Word(r.WORD_TYPE.TEXT, [first]))
    known = [first]
    for turn in range(2):
        for x in ('a', 'b', 'c'):
            check(store.has_word(x) == (x in known), 'known word', x)
            kind, value = outcome(store.get_word, x)
            check((kind == 'value') == (x in known), 'found word', x)
            if kind == 'value':
                check(value.form == x, 'text of the found word')
        check(len(store.get_words()) == len([x for x in known if x is not None]), 'number of words')
        missing = [x for x in ('a', 'b') if x not in known]
        check(list(template.get_undictionaried_words({}, store)) == missing, 'missing words')
        kind, value = outcome(template.substitute, {}, store)
        check((kind == 'value') == (missing == []), 'rendering succeeds when nothing is missing', value)
        if kind == 'value':
            check(value == 'a b', 'rendered text')
        for x in each('added', [('a', 'b'), ('b',), ('c',)]):
            if x not in known:
                store.add_word(words.Word(r.WORD_TYPE.TEXT, [x]))
                known.append(x)


def scn_better_word():
    """a better word registered after a text was looked up wins the text from then on"""
    worse, better = words.Word(r.WORD_TYPE.TEXT, ['x']), words.Word(r.WORD_TYPE.PRONOUN, ['x'] * len(layout_keys(r.WORD_TYPE.PRONOUN)))
    best = words.Word(r.WORD_TYPE.NOUN, ['x'] * len(layout_keys(r.WORD_TYPE.NOUN)))
    store = dictionary.Dictionary([worse])
    check(store.get_word('x').word is worse and list(store.get_words())[0] is worse, 'the only word')
    store.add_word(better)
    check(store.get_word('x').word is better and list(store.get_words())[0] is better, 'the better word')
    template = templates.Template()
    template.parse('[x|мн]', [])
    check(template.substitute({}, store) == 'x', 'rendered text')
    store.add_word(best)
    check(store.get_word('x').word is best and list(store.get_words())[0] is best and len(store.get_words()) == 1, 'the best word')


# ---------------------------------------------------------------- markup

def scn_markup():
    """the same markup is read with the names known now"""
    variable = each('variable', ['[w|дт]', '[W|hero]', '[w|дт|мн]', '[w| ДТ ,]'])
    known = [each('known first', [(), ('дт',), ('hero',), ('дт', 'мн', 'hero')]), each('known second', [(), ('дт',), ('hero',), ('дт', 'мн', 'hero')])]
    results = []
    for turn in range(2):
        names = known[turn]
        expected, failure = [], None
        for part in variable[1:-1].split('|')[1:]:
            part = part.strip().lower()
            if part in names:
                expected.append(part)
            elif part == 'hero':
                failure = 'hero'
            else:
                expected.append(words.Properties({'дт': r.CASE.DATIVE, 'мн': r.NUMBER.PLURAL, 'дт ,': r.CASE.DATIVE}[part]))
        if variable[1] == 'W':
            expected.append(words.Properties(r.WORD_CASE.UPPER))
        kind, value = outcome(templates.Substitution.parse, variable, list(names))
        check((kind == 'value') == (failure is None), 'readable', value)
        if failure is not None:
            check(isinstance(value, exceptions.UnknownVerboseIdError) and value.arguments == {'verbose_id': failure}, 'unknown code')
        else:
            check(value.id == 'w' and list(value.dependencies) == expected, 'dependencies')
            results.append((value, expected))
    for value, expected in results:
        check(value.id == 'w' and list(value.dependencies) == expected, 'dependencies are still the same')


def scn_variables_are_separate():
    """changing one parsed variable does not change another one parsed from the same text"""
    variable = each('variable', ['[w|дт]', '[W]', '[w]', '[w|hero|мн]'])
    one, two = templates.Substitution.parse(variable, ['hero']), templates.Substitution.parse(variable, ['hero'])
    check(one == two, 'equal variables')
    size = len(two.dependencies)
    one.dependencies.append('x')
    one.id = 'q'
    check(two.id == 'w' and len(two.dependencies) == size, 'the other variable')
    three = templates.Substitution.parse(variable, ['hero'])
    check(three == two, 'a variable parsed later')
    check(templates.Substitution().dependencies == [] and templates.Substitution().id is None, 'a fresh variable is empty')


def scn_parsing():
    """a template parsed from the same text is a template of its own, read with the names known now"""
    text_parsed = each('text', ['x [a|b] y', '[a] [b]', 'x'])
    one, two = templates.Template(), templates.Template()
    one.parse(text_parsed, ['b'])
    two.parse(text_parsed, ['a', 'b'])
    check(one == two, 'equal templates')
    saved = two.serialize()
    one.parse('[c] %', [])
    check(two.serialize() == saved, 'parsing a template again changes that template only')
    kind, value = outcome(one.parse, text_parsed, [])
    check((kind == 'raise') == ('|' in text_parsed), 'names known before are not known now', value)
    check(two.serialize() == saved, 'parsing a template again changes that template only')


# ---------------------------------------------------------------- words

def scn_forms():
    """a word shows the form asked for now, whatever form of it or of another word was asked for before"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN, r.WORD_TYPE.PREPOSITION])
    schema = list(word_type.schema)
    varied = each('varied', schema + ['word', 'own', 'letter case'])
    relation = varied if varied in schema else schema[0]
    a, b = opt('a', relation), opt('b', relation)
    own, own2 = None, None
    if varied == 'own':
        own, own2 = opt('own', relation), opt('own2', relation)
    one = words.Word(word_type, labels(word_type, 'x'), words.Properties(own))
    two = one
    if varied in ('word', 'own'):
        two = words.Word(word_type, labels(word_type, 'y' if varied == 'word' else 'x'), words.Properties(own2))
    first, second = words.Properties(a), words.Properties(b, r.WORD_CASE.UPPER if varied == 'letter case' else None)
    upper = lambda value: value[0].upper() + value[1:] if varied == 'letter case' else value
    expected = [shown(word_type, one.forms, {relation: last_given(a, own)}), shown(word_type, two.forms, {relation: last_given(b, own2)})]
    how = each('how', ['form', 'get_form', 'WordForm', 'normal'])
    if how == 'form':
        check(one.form(first) == expected[0] and two.form(second) == expected[1] and one.form(first) == expected[0], 'shown form')
    elif how == 'get_form':
        check(words.WordForm.get_form(one, words.Properties(first, own)) == expected[0], 'shown form')
        check(words.WordForm.get_form(two, words.Properties(second, own2)) == upper(expected[1]), 'shown form')
        check(words.WordForm.get_form(one, words.Properties(first, own)) == expected[0], 'shown form')
    elif how == 'WordForm':
        f, g = words.WordForm(one, first), words.WordForm(two, second)
        check(f.form == expected[0] and g.form == upper(expected[1]) and f.form == expected[0], 'shown form')
        check(words.WordForm(one, second, first).form == shown(word_type, one.forms, {relation: last_given(a, own)}), 'shown form')
    else:
        check(one.form(first) == expected[0], 'shown form')
        check(two.normal_form() == shown(word_type, two.forms, {relation: own2}), 'normal form')
        check(one.normal_form() == shown(word_type, one.forms, {relation: own}), 'normal form')


def scn_categories():
    """a set of categories is read as it was built, whatever set was read before"""
    relation = each('relation', relations())
    a, b = opt('a', relation), opt('b', relation)
    other = each('other', [r.CASE, r.NUMBER])
    assume(other is not relation)
    one, two = words.Properties(a), words.Properties(b, other.records[1])
    for turn in range(2):
        check(one.get(relation) == effective(a, relation) and two.get(relation) == effective(b, relation), 'value')
        check(one.is_specified(relation) == (a is not None) and two.is_specified(relation) == (b is not None), 'given or not')
        check(one.get_raw_key((relation, other)) == (effective(a, relation), other.records[0]), 'key')
        check(two.get_raw_key((relation, other)) == (effective(b, relation), other.records[1]), 'key of the other set')
        check(two.get_raw_key((other, relation)) == (other.records[1], effective(b, relation)), 'key in another order')
        check(two.get_raw_key((other,)) == (other.records[1],), 'shorter key')


def scn_facts():
    """facts of words that share some forms are those of each word"""
    first = each('first', ['сон', 'лев', 'ива', ''])
    rest = [(first, first), ('сна', 'снов'), ('льва', ''), ('ивы', 'ив'), ('', '')]
    one = words.Word(r.WORD_TYPE.PREPOSITION, [first] + list(each('rest of one', rest)))
    two = words.Word(r.WORD_TYPE.PREPOSITION, [first] + list(each('rest of two', rest)))
    three = words.Word(r.WORD_TYPE.PREPOSITION, [each('other first', ['волна', 'мне'])] + list(one.forms[1:]))
    for turn in range(2):
        for word in (one, two, three):
            check(word.has_fluent_vowel == fluent(word.forms), 'fluent vowel', word.forms[0], word.forms[1], word.forms[2])
            check(word.number_of_syllables == syllables(word.forms[0]), 'syllables', word.forms[0])
            for i in range(3):
                form = words.WordForm(word, words.Properties(list(r.PREPOSITION_FORM.records)[i]))
                check(form.starts_with_consonant_cluster == cluster(word.forms[i]), 'consonant cluster', word.forms[i])


def scn_filling():
    """filling a word depends on its own blank forms, not on the words filled before"""
    word_type = each('type', [r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN])
    patterns = [(0,), (1,), (2,), (0, 1), (1, 2), (0, 2)]
    for name in ('first', 'second'):
        places = each(name, patterns)
        if word_type is r.WORD_TYPE.NOUN:
            places = [(0, 4, 15)[i] for i in places]
        forms = [('%s%d' % (name, i) if i in places else '') for i in range(len(layout_keys(word_type)))]
        word = words.Word(word_type, list(forms))
        word.autofill_missed_forms()
        expected = expected_forms(word_type, forms)
        check(word.forms == expected, 'filled forms', name)


def scn_nearest():
    """the nearest slot is looked for among the slots offered now"""
    key = (r.CASE.GENITIVE, r.NUMBER.PLURAL, r.GENDER.NEUTER)
    pool = [(r.CASE.GENITIVE, r.NUMBER.SINGULAR, r.GENDER.MASCULINE), (r.CASE.DATIVE, r.NUMBER.PLURAL, r.GENDER.NEUTER), (r.CASE.GENITIVE, r.NUMBER.PLURAL, r.GENDER.FEMININE), key]
    other = (r.CASE.DATIVE, r.NUMBER.PLURAL, r.GENDER.MASCULINE)
    asked = [key, each('second key', [key, other])]
    for turn in range(2):
        offered = [pool[i] for i in each('offered %d' % turn, [(0,), (1,), (0, 1), (0, 2), (1, 2), (2, 1), (0, 3), (0, 1, 2), ()])]
        result = logic.get_nearest_key(asked[turn], offered)
        best, value = None, -1
        for slot in offered:
            s = score([i for i in range(3) if slot[i] is asked[turn][i]])
            if s > value:
                best, value = slot, s
        check(result is best, 'nearest slot', turn)


# ---------------------------------------------------------------- lexicons

def scn_requests():
    """a request for templates is answered by itself, whatever was requested before"""
    items = [templates.Template() for i in range(3)]
    entries = [('k', items[0], frozenset(['a'])), ('k', items[1], frozenset()), ('l', items[2], frozenset(['a', 'b']))]
    lex = lexicon.Lexicon()
    for key, t, restrictions in entries:
        lex.add_template(key, t, restrictions)
    asked = [frozenset(), frozenset(['a']), frozenset(['b']), frozenset(['a', 'b'])]
    for turn in range(2):
        key = each('key %d' % turn, ['k', 'l', 'm'])
        wanted = each('asked %d' % turn, asked)
        how = each('how %d' % turn, ['all', 'random', 'nearest'])
        if how == 'all':
            check(same(lex.get_templates(key, wanted), eligible(entries, key, wanted)), 'offered templates')
        elif how == 'random':
            check_choice(lex, lex.get_random_template, key, wanted, key != 'm', eligible(entries, key, wanted))
        else:
            check_choice(lex, lex.get_random_nearest_template, key, wanted, key != 'm', nearest(entries, key, wanted))
        for k in ('k', 'l', 'm'):
            check(lex.has_key(k) == (k != 'm'), 'known keys', k)


# ---------------------------------------------------------------- stored data and errors

def scn_restoring():
    """restored objects are independent of what was restored or stored before"""
    a, b = rec('a', r.CASE), opt('b', r.CASE)
    one, two = words.Properties(a), words.Properties(b, r.NUMBER.PLURAL)
    saved = [one.serialize(), two.serialize()]
    check(words.Properties.deserialize(saved[0]) == one and words.Properties.deserialize(saved[1]) == two, 'restored categories')
    check(words.Properties.deserialize(json_roundtrip(saved[0])) == one, 'restored categories again')
    first = words.Word(r.WORD_TYPE.PREPOSITION, ['в', 'во', 'x'], one)
    second = words.Word(r.WORD_TYPE.PREPOSITION, ['в', 'y', ''], two)
    kept = [first.serialize(), second.serialize()]
    back = [words.Word.deserialize(x) for x in kept]
    check(back[0] == first and back[1] == second and back[0] != back[1], 'restored words')
    back[0].forms[1] = 'changed'
    check(words.Word.deserialize(kept[0]) == first and first.serialize() == kept[0], 'restored again')
    check(words.Word.deserialize(kept[1]) == second, 'restored again')


def scn_errors():
    """an error tells what is wrong now, not what was wrong before"""
    for turn in range(2):
        x = each('text %d' % turn, ['a', 'b'])
        error = raised(dictionary.Dictionary().get_word, x)
        check(isinstance(error, exceptions.NoWordsFoundError) and error.arguments == {'text': x}, 'missing word')
        check(x in str(error), 'message')
        error = raised(templates.Substitution.parse_properties, 'дт,' + x)
        check(isinstance(error, exceptions.UnknownVerboseIdError) and error.arguments == {'verbose_id': x}, 'unknown code')
        error = raised(lexicon.Lexicon().get_random_template, x)
        check(isinstance(error, exceptions.UnknownLexiconKeyError) and error.arguments == {'key': x}, 'unknown key')
        n = each('number %d' % turn, [0, 2])
        error = raised(words.Word, r.WORD_TYPE.TEXT, [x] * n)
        check(isinstance(error, exceptions.WrongFormsNumberError) and error.arguments['wrong_number'] == n and error.arguments['forms'] == [x] * n, 'number of forms')
        check(templates.Substitution.parse_properties('дт') == words.Properties(r.CASE.DATIVE), 'correct input after an error')


def scn_printing():
    """a set of categories prints its own categories, whatever was printed before"""
    relation = each('relation', relations())
    a, b = opt('a', relation), rec('b', relation)
    one, two = words.Properties(a, r.CASE.DATIVE), words.Properties(r.CASE.GENITIVE, b)
    first = str(one)
    assume(relation is not r.CASE)
    check(first in (('(дт)', '(дт)') if a is None else ('(дт,' + a.verbose_id + ')', '(' + a.verbose_id + ',дт)')), 'printed', first)
    check(str(two) in ('(рд,' + b.verbose_id + ')', '(' + b.verbose_id + ',рд)'), 'printed', str(two))
    check(str(one) == first, 'printed again')
