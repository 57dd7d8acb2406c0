"""Two operations that only read what they share, one of them running in the middle of the other."""
from utg import words, templates, dictionary, lexicon, transformators, constructors, exceptions, logic, relations as r
from specs.common import relations, default_of, last_given, effective
from specs.c02_numerals import noun_rule
from specs.c05_preposition import expected as preposition_rule
from specs.c06_integers import expect as expect_integer
from specs.c15_lexicon import eligible, nearest, same, contains
from specs.c23_autofill import expected_forms
from specs.c24_facts import fluent, syllables, cluster
from specs.c26_history import labels, shown, noun


class Kept(object):
    """what the operation in the middle returned"""
    def __init__(self):
        self.value = None
        self.ran = False

    def keep(self, value):
        self.value = value
        self.ran = True


def together(first, second):
    """results of both; the second operation runs at any step of the first one, or after it"""
    kept = Kept()
    result = meanwhile(first, lambda: kept.keep(second()))
    if not kept.ran:
        kept.keep(second())
    return result, kept.value


def scn_numerals():
    """numerals built at the same time are those built one after the other"""
    ready = each('built before', [None, 5, 20000])
    if ready is not None:
        constructors.construct_integer(ready)
    numbers = [0, 1, 3, 12, 10000, 10001, -5]
    n, m = each('n', numbers), each('m', numbers)
    a, b = together(lambda: constructors.construct_integer(n), lambda: constructors.construct_integer(m))
    expect_integer(a, n, 'numeral')
    expect_integer(b, m, 'other numeral')
    for c in (0, 2, 9999):
        expect_integer(constructors.construct_integer(c), c, 'numeral built later')


def scn_forms():
    """a word shown at the same time in two ways shows both forms"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.VERB])
    relation = each('kind', list(word_type.schema)[:2])
    own = opt('own', relation) if each('with own', [False, True]) else None
    word = words.Word(word_type, labels(word_type, 'x'), words.Properties(own))
    a, b = rec('a', relation), rec('b', relation)
    how = each('how', ['form', 'get_form', 'WordForm', 'normal'])

    def show(value):
        if how == 'form':
            return word.form(words.Properties(value))
        if how == 'get_form':
            return words.WordForm.get_form(word, words.Properties(value, own))
        if how == 'WordForm':
            return words.WordForm(word, words.Properties(value)).form
        return word.normal_form()
    x, y = together(lambda: show(a), lambda: show(b))
    if how == 'normal':
        check(x == y and x == shown(word_type, word.forms, {relation: own}), 'normal form', x)
    else:
        check(x == shown(word_type, word.forms, {relation: last_given(a, own)}), 'form', x)
        check(y == shown(word_type, word.forms, {relation: last_given(b, own)}), 'other form', y)


def scn_same_form():
    """one displayed word looked at twice, with its letter case and categories"""
    request = opt('letter case', r.WORD_CASE)
    word = noun('x')
    form = words.WordForm(word, words.Properties(r.CASE.DATIVE, request))
    text_shown = shown(r.WORD_TYPE.NOUN, word.forms, {r.CASE: r.CASE.DATIVE})
    if request == r.WORD_CASE.UPPER:
        text_shown = text_shown[0].upper() + text_shown[1:]

    def look():
        return (form.form, form.starts_with_consonant_cluster, form.properties.get(r.CASE), word.has_fluent_vowel, word.number_of_syllables)
    for result in together(look, look):
        check(result[0] == text_shown and result[2] is r.CASE.DATIVE, 'displayed word', result[0])
        check(result[1] == cluster(text_shown) and result[3] == fluent(word.forms) and result[4] == syllables(word.forms[0]), 'facts about the word')


def scn_facts():
    """facts of two words asked for at the same time are those of each word"""
    pool = [['сон', 'сна', 'снов'], ['ива', 'ивы', ''], ['', 'всех', '']]
    one, two = words.Word(r.WORD_TYPE.PREPOSITION, list(each('one', pool))), words.Word(r.WORD_TYPE.PREPOSITION, list(each('two', pool)))
    if each('the same word', [False, True]):
        two = one
    if each('filled before', [False, True]):
        check(one.has_fluent_vowel == fluent(one.forms) and one.number_of_syllables == syllables(one.forms[0]), 'facts before')
        one.autofill_missed_forms()

    def look(word):
        return (word.has_fluent_vowel, word.number_of_syllables)
    x, y = together(lambda: look(one), lambda: look(two))
    check(x == (fluent(one.forms), syllables(one.forms[0])), 'facts of the word')
    check(y == (fluent(two.forms), syllables(two.forms[0])), 'facts of the other word')


def scn_categories():
    """a set of categories read, copied, printed and stored at the same time"""
    a, b = rec('a', r.CASE), opt('b', r.NUMBER)
    props = words.Properties(a, b)
    whole = props.serialize()

    def use(how, relation, value):
        if how == 'read':
            return (props.get(relation), props.is_specified(relation), props.get_raw_key((relation, r.GENDER)))
        if how == 'copy':
            copy = props.clone(value)
            return (copy.get(relation), copy.is_specified(r.CASE), copy.get_raw_key((relation, r.GENDER)))
        if how == 'store':
            return (words.Properties.deserialize(props.serialize()) == props, str(props) == str(words.Properties(a, b)), hash(props) == hash(words.Properties(a, b)))
        return (props == words.Properties(a, b), props == words.Properties(a, b, r.GENDER.NEUTER), words.Properties(value).get(relation))

    def result(how, relation, value, given):
        if how == 'read':
            return (effective(given, relation), given is not None, (effective(given, relation), r.GENDER.records[0]))
        if how == 'copy':
            return (value, True, (value, r.GENDER.records[0]))
        if how == 'store':
            return (True, True, True)
        return (True, False, value)
    how, other = each('how', ['read', 'copy', 'store', 'compare']), each('meanwhile', ['read', 'copy', 'store', 'compare'])
    x, y = together(lambda: use(how, r.CASE, r.CASE.DATIVE), lambda: use(other, r.NUMBER, r.NUMBER.PLURAL))
    check(x == result(how, r.CASE, r.CASE.DATIVE, a), 'result', how)
    check(y == result(other, r.NUMBER, r.NUMBER.PLURAL, b), 'other result', other)
    check(props.serialize() == whole, 'the shared set')


def scn_agreement():
    """agreement of words with numerals and of prepositions with words, two at a time"""
    word = noun('x')
    prep = words.Word(r.WORD_TYPE.PREPOSITION, [each('preposition', ['о', 'в', 'из']), 's', 't'])
    forms = [each(name, [r.INTEGER_FORM.SINGULAR, r.INTEGER_FORM.DUAL]) for name in ('numeral', 'other numeral')]
    numerals = [words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['n'], words.Properties(x))) for x in forms]
    shown_texts = ['власти', 'отъезд']
    masters = [words.WordForm(words.Word(r.WORD_TYPE.TEXT, [x])) for x in shown_texts]
    case = each('case', [r.CASE.NOMINATIVE, r.CASE.DATIVE])

    def agree(kind, i):
        if kind == 'numeral':
            return transformators.transform(slave_word=word, slave_propeties=words.Properties(case, forms[i]), master_form=numerals[i])
        return transformators.transform(slave_word=prep, slave_propeties=words.Properties(), master_form=masters[i])

    def verify(kind, i, result):
        if kind == 'numeral':
            form, count, imposed = noun_rule(forms[i], r.DEPENDENCY_MODE.FULL, case, r.ANIMALITY.ANIMATE)
            check(result.get(r.NUMBER) == count, 'number the numeral demands', result.get(r.NUMBER), count)
            check(result.get(r.NOUN_FORM) == form, 'kind of form the numeral demands', result.get(r.NOUN_FORM), form)
            check(result.get(r.CASE) == last_given(case, imposed), 'case the numeral demands', result.get(r.CASE))
        else:
            forced = preposition_rule(prep.forms[0], shown_texts[i], syllables(shown_texts[i]), False)
            check(result.get(r.PREPOSITION_FORM) == effective(forced, r.PREPOSITION_FORM), 'form of the preposition')
    one, two = each('one', ['numeral', 'preposition']), each('two', ['numeral', 'preposition'])
    x, y = together(lambda: agree(one, 0), lambda: agree(two, 1))
    verify(one, 0, x)
    verify(two, 1, y)


def scn_rendering():
    """one template rendered for two sets of words at the same time, with one dictionary"""
    template = templates.Template()
    template.parse('A [w|n|дт] % [t]', ['w', 'n'])
    word = noun('x')
    store = dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, ['t'])])

    def supplied(numeral):
        return {'n': words.WordForm(words.Word(r.WORD_TYPE.INTEGER, ['n'], words.Properties(numeral))), 'w': words.WordForm(word)}

    def expected(numeral):
        form, count, imposed = noun_rule(numeral, r.DEPENDENCY_MODE.FULL, r.CASE.DATIVE, r.ANIMALITY.ANIMATE)
        return 'A ' + shown(r.WORD_TYPE.NOUN, word.forms, {r.NOUN_FORM: form, r.NUMBER: count, r.CASE: last_given(r.CASE.DATIVE, imposed)}) + ' % t'
    a, b = each('numeral', [r.INTEGER_FORM.SINGULAR, r.INTEGER_FORM.PLURAL]), each('other numeral', [r.INTEGER_FORM.DUAL, r.INTEGER_FORM.SINGULAR])
    other = each('meanwhile', ['render', 'missing', 'store', 'compare'])

    def second():
        if other == 'render':
            return template.substitute(supplied(b), store) == expected(b)
        if other == 'missing':
            return template.get_undictionaried_words(supplied(b), store) == [] and list(template.get_undictionaried_words({}, dictionary.Dictionary())) == ['w', 't']
        if other == 'store':
            return templates.Template.deserialize(template.serialize()) == template
        return template == templates.Template.deserialize(template.serialize()) and template != templates.Template()
    x, y = together(lambda: template.substitute(supplied(a), store), second)
    check(x == expected(a), 'rendered text', x)
    check(y, 'other operation', other)
    check(template.substitute(supplied(b), store) == expected(b), 'text rendered later')


def scn_missing():
    """missing words reported for two sets of words at the same time"""
    template = templates.Template()
    template.parse('[a] [b] [c]', ['a', 'b', 'c'])
    store = dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, ['c'])])
    given = [each(name, [(), ('a',), ('b',), ('a', 'b')]) for name in ('given', 'other')]

    def report(i):
        return template.get_undictionaried_words({x: words.WordForm(words.Word(r.WORD_TYPE.TEXT, [x])) for x in given[i]}, store)
    results = together(lambda: report(0), lambda: report(1))
    for i in range(2):
        check(list(results[i]) == [x for x in ('a', 'b') if x not in given[i]], 'missing words', i)


def scn_dictionary():
    """two texts looked up in one dictionary at the same time"""
    stored = [words.Word(r.WORD_TYPE.PREPOSITION, ['a', 'b', 'c']), words.Word(r.WORD_TYPE.TEXT, ['d'])]
    store = dictionary.Dictionary(stored)
    names = ['a', 'c', 'd', 'z']
    texts = [each('text', names), each('other text', names)]
    how = [each('how', ['get', 'has', 'all']), each('meanwhile', ['get', 'has', 'all'])]

    def look(i):
        if how[i] == 'get':
            return outcome(store.get_word, texts[i])
        if how[i] == 'has':
            return store.has_word(texts[i])
        return store.get_words()
    results = together(lambda: look(0), lambda: look(1))
    for i in range(2):
        if how[i] == 'has':
            check(results[i] == (texts[i] != 'z'), 'known word', texts[i])
        elif how[i] == 'all':
            check(len(results[i]) == 2 and contains(results[i], stored[0]) and contains(results[i], stored[1]), 'all words')
        elif texts[i] == 'z':
            check(results[i][0] == 'raise' and isinstance(results[i][1], exceptions.NoWordsFoundError) and results[i][1].arguments == {'text': 'z'}, 'unknown word')
        else:
            check(results[i][0] == 'value' and results[i][1].form == texts[i] and results[i][1].word is stored[1 if texts[i] == 'd' else 0], 'found word')


def scn_lexicon():
    """two requests to one lexicon at the same time"""
    items = [templates.Template() for i in range(4)]
    entries = [('k', items[0], frozenset(['a'])), ('k', items[1], frozenset()), ('k', items[2], frozenset(['a', 'b'])), ('l', items[3], frozenset(['b']))]
    lex = lexicon.Lexicon()
    for key, t, restrictions in entries:
        lex.add_template(key, t, restrictions)
    requests = [('k', frozenset()), ('k', frozenset(['a', 'b'])), ('l', frozenset(['a'])), ('m', frozenset())]
    asked = [each('request', requests), each('other request', requests)]
    how = [each('how', ['all', 'random', 'nearest']), each('meanwhile', ['all', 'random', 'nearest'])]

    def request(i):
        key, wanted = asked[i]
        if how[i] == 'all':
            return lex.get_templates(key, wanted)
        if how[i] == 'random':
            return outcome(lex.get_random_template, key, wanted)
        return outcome(lex.get_random_nearest_template, key, wanted)
    results = together(lambda: request(0), lambda: request(1))
    for i in range(2):
        key, wanted = asked[i]
        if how[i] == 'all':
            check(same(results[i], eligible(entries, key, wanted)), 'offered templates')
            continue
        expected = eligible(entries, key, wanted) if how[i] == 'random' else (nearest(entries, key, wanted) if eligible(entries, key, wanted) else [])
        kind, value = results[i]
        check((kind == 'value') == (expected != []), 'a template is found')
        if expected:
            check(all([contains(expected, t) for t in possible(value)]), 'only fitting templates are chosen')
        else:
            check(isinstance(value, exceptions.UnknownLexiconKeyError if key == 'm' else exceptions.NoTemplatesWithSpecifiedRestrictions), 'the failure')
            check(value.arguments == ({'key': key} if key == 'm' else {'key': key, 'restrictions': wanted}), 'arguments of the failure')
    check(not lex.has_key('m') and lex.has_key('k') and lex.has_key('l'), 'known keys')


def scn_parsing():
    """two variables and two templates read at the same time"""
    variables = [each('variable', ['[w|дт]', '[W|мн,дт]', '[w|hero]']), each('other variable', ['[w|hero|мн]', '[w|дт]', '[W]'])]
    whole = each('what', ['variables', 'templates'])
    parts = {'[w|дт]': [words.Properties(r.CASE.DATIVE)], '[W|мн,дт]': [words.Properties(r.CASE.DATIVE, r.NUMBER.PLURAL), words.Properties(r.WORD_CASE.UPPER)],
             '[w|hero]': ['hero'], '[w|hero|мн]': ['hero', words.Properties(r.NUMBER.PLURAL)], '[W]': [words.Properties(r.WORD_CASE.UPPER)]}

    def read(i):
        if whole == 'variables':
            s = templates.Substitution.parse(variables[i], ['hero'])
            return (s.id, list(s.dependencies))
        t = templates.Template()
        t.parse('x ' + variables[i] + ' y', ['hero'])
        saved = t.serialize()
        return (saved['template'], [templates.Substitution.deserialize(s).dependencies for s in saved['substitutions']])
    results = together(lambda: read(0), lambda: read(1))
    for i in range(2):
        if whole == 'variables':
            check(results[i] == ('w', parts[variables[i]]), 'variable', variables[i])
        else:
            check(results[i] == ('x %s y', [parts[variables[i]]]), 'template', variables[i])


def scn_failures():
    """errors met at the same time tell each its own story"""
    names = [each('name', ['a', 'b']), each('other name', ['a', 'b'])]
    kinds = [each('kind', ['word', 'code', 'key']), each('other kind', ['word', 'code', 'key'])]

    def fail(i):
        if kinds[i] == 'word':
            return outcome(dictionary.Dictionary().get_word, names[i])
        if kinds[i] == 'code':
            return outcome(templates.Substitution.parse_properties, 'дт,' + names[i])
        return outcome(lexicon.Lexicon().get_random_template, names[i])
    results = together(lambda: fail(0), lambda: fail(1))
    for i in range(2):
        kind, value = results[i]
        check(kind == 'raise', 'failure', kinds[i])
        check(isinstance(value, {'word': exceptions.NoWordsFoundError, 'code': exceptions.UnknownVerboseIdError, 'key': exceptions.UnknownLexiconKeyError}[kinds[i]]), 'kind of the failure')
        check(value.arguments == {{'word': 'text', 'code': 'verbose_id', 'key': 'key'}[kinds[i]]: names[i]}, 'arguments of the failure')
        check(names[i] in str(value), 'message of the failure')


def scn_words():
    """words built, filled and stored at the same time"""
    given = [each('given', [('x', '', ''), ('', 'y', ''), ('', '', 'z')]), each('other', [('u', '', 'v'), ('', 'y', '')])]

    def build(i):
        word = words.Word(r.WORD_TYPE.PREPOSITION, list(given[i]))
        word.autofill_missed_forms()
        return words.Word.deserialize(word.serialize())
    results = together(lambda: build(0), lambda: build(1))
    for i in range(2):
        check(results[i].forms == expected_forms(r.WORD_TYPE.PREPOSITION, list(given[i])), 'forms of the word', i)


def scn_nearest():
    """nearest slots looked for at the same time"""
    pool = [(r.CASE.GENITIVE, r.NUMBER.SINGULAR), (r.CASE.DATIVE, r.NUMBER.PLURAL)]
    keys = [each('key', pool), each('other key', pool)]
    results = together(lambda: logic.get_nearest_key(keys[0], list(pool)), lambda: logic.get_nearest_key(keys[1], list(pool)))
    for i in range(2):
        check(results[i] is keys[i] or results[i] == keys[i], 'nearest slot', i)
