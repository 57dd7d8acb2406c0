"""The same object in several roles: registered twice, supplied under several names, shared by several owners."""
from utg import words, templates, dictionary, lexicon, constructors, transformators, relations as r
from specs.common import default_of, word_of, same_set
from specs.c15_lexicon import eligible, nearest, same, contains, check_choice


def label_word(word_type, prefix, *own):
    forms = [prefix + str(i) for i in range(words.Word.get_forms_number(word_type))]
    return words.Word(word_type, forms, words.Properties(*own))


def scn_template():
    """a template may be registered several times, with other restrictions or under other keys: every registration counts on its own"""
    shared, other = templates.Template(), templates.Template()
    shapes = ['', 'a', 'b', 'ab']
    first, second, third = each('first', shapes), each('second', shapes), each('third', shapes)
    third_key = each('third key', ['k', 'l'])
    between = each('between', [False, True])
    entries = [('k', shared, frozenset(first))]
    if between:
        entries.append(('k', other, frozenset('a')))
    entries.append(('k', shared, frozenset(second)))
    entries.append((third_key, shared, frozenset(third)))
    lex = lexicon.Lexicon()
    for key, t, restrictions in entries:
        lex.add_template(key, t, restrictions)
    for asked in ('', 'a', 'b', 'ab', 'abc'):
        for key in ('k', 'l'):
            expected = eligible(entries, key, frozenset(asked))
            check(same(list(lex.get_templates(key, frozenset(asked))), expected), 'offered templates', key, asked)
    asked, key = each('asked', ['', 'a', 'b', 'ab']), each('key', ['k', 'l'])
    known = any([k == key for k, t, restrictions in entries])
    check_choice(lex, lex.get_random_nearest_template, key, frozenset(asked), known, nearest(entries, key, frozenset(asked)))


def scn_restrictions():
    """templates may be registered with one and the same set of restrictions, and a request may be that very set"""
    restrictions = frozenset(each('restrictions', ['', 'a', 'ab']))
    one, two = templates.Template(), templates.Template()
    entries = [('k', one, restrictions), ('k', two, restrictions), ('l', two, restrictions)]
    lex, again = lexicon.Lexicon(), lexicon.Lexicon()
    for key, t, x in entries:
        lex.add_template(key, t, x)
    again.add_template('k', one, restrictions)
    for key in ('k', 'l', 'm'):
        check(same(list(lex.get_templates(key, restrictions)), eligible(entries, key, restrictions)), 'offered templates', key)
    check(same(list(again.get_templates('k', restrictions)), [one]), 'templates of another lexicon')
    check_choice(lex, lex.get_random_nearest_template, 'k', restrictions, True, [one, two])
    check_choice(lex, lex.get_random_template, 'k', restrictions, True, [one, two])


def scn_forms_of_one_word():
    """forms of one and the same word are equal exactly when their categories are, also when they are spelled alike"""
    word_type = each('type', [r.WORD_TYPE.TEXT, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.NOUN])
    word = words.Word(word_type, ['x'] * words.Word.get_forms_number(word_type), words.Properties(opt('own', r.GENDER)))
    asked, other = opt('asked', r.NUMBER), opt('asked too', r.NUMBER)
    read = each('read before', [False, True])
    one, two = words.WordForm(word, words.Properties(asked)), words.WordForm(word, words.Properties(other))
    if read:
        check(one.form == two.form, 'spelled alike')
    equal = asked == other
    check((one == two) == equal and (two == one) == equal, 'equality')
    check((one != two) == (not equal), 'inequality')
    check(not equal or hash(one) == hash(two), 'hashes of equal forms')
    check(len(set([one, two])) == (1 if equal else 2), 'forms in a set')
    check(one == one and word == word and not (one != one), 'an object equals itself')
    check(words.Word(word_type, word.forms, word.properties) == word, 'a word made of the parts of another one equals it')


def scn_supplied_twice():
    """one word form may be supplied under several names, as the word shown and as the word agreed with"""
    master_type = each('type', [t for t in r.WORD_TYPE.records])
    shown = rec('case', r.CASE)
    word = label_word(master_type, 'm', r.GENDER.FEMININE)
    form = words.WordForm(word, words.Properties(shown))
    once = words.WordForm(word, words.Properties(shown))
    adjective = words.WordForm(label_word(r.WORD_TYPE.ADJECTIVE, 'a'))
    source = each('source', ['[x]', '[x][y]', '[z|x]', '[z|x|y]', '[x|y]', '[x|y|мн]', '[x|x|y]', '[z|мн|x] [y|z]', '[z|y|x|рд]'])
    template = templates.Template()
    template.parse(source, ['x', 'y', 'z'])
    store = dictionary.Dictionary()
    both = template.substitute({'x': form, 'y': form, 'z': adjective}, store)
    apart = template.substitute({'x': form, 'y': once, 'z': words.WordForm(label_word(r.WORD_TYPE.ADJECTIVE, 'a'))}, store)
    check(both == apart, 'rendered text', source, both, apart)
    check(template.substitute({'x': form, 'y': form, 'z': adjective}, store) == both, 'rendered again', source)


def scn_categories():
    """one set of categories may belong to several words and forms, and be overlaid with itself"""
    relation, other = r.CASE, r.NUMBER
    shared = words.Properties(opt('a', relation), opt('b', other))
    added = opt('c', relation)
    copies = [words.Properties(shared, shared), shared.clone(shared), shared.clone(), words.Properties(shared, None, shared), words.Properties(shared)]
    for copied in copies:
        check(copied is not shared and copied == shared and same_set(copied, shared), 'overlaid with itself')
    changed = words.Properties(shared, added, shared)
    for x in (relation, other):
        expected = shared.get(x) if shared.is_specified(x) or x is other or added is None else added
        check(changed.get(x) == expected, 'the set given last wins', x)
    one = words.Word(r.WORD_TYPE.PREPOSITION, ['p0', 'p1', 'p2'], shared)
    two = words.Word(r.WORD_TYPE.PREPOSITION, ['q0', 'q1', 'q2'], shared)
    form = words.WordForm(one, shared, shared)
    check(one.form(words.Properties(r.PREPOSITION_FORM.SPECIAL)) == 'p2' and two.form(words.Properties(r.PREPOSITION_FORM.SPECIAL)) == 'q2', 'forms of both words')
    check(form.properties == shared and one.form(shared) == 'p0' and two.form(shared) == 'q0', 'categories of the form')
    stored, again = one.serialize(), two.serialize()
    check(stored['properties'] == again['properties'] and stored['properties'] is not again['properties'], 'stored data is not shared')
    check(words.Word.deserialize(stored) == one and words.Word.deserialize(again) == two, 'both are restored')


def scn_registered():
    """one word may be registered in several dictionaries, among other words, and supplied at the same time"""
    word = label_word(r.WORD_TYPE.PREPOSITION, 'p')
    rival = words.Word(r.WORD_TYPE.PREPOSITION, ['p0', 'o1', 'o2'])
    order = each('order', [(0, 1), (1, 0), (0, 1, 0), (0,), (1, 0, 0)])
    first, second = dictionary.Dictionary(), dictionary.Dictionary([word])
    for i in order:
        first.add_word([word, rival][i])
    winner = rival if 1 in order else word
    check(first.get_word('p0').word is winner, 'the winner among the words registered')
    check(second.get_word('p0').word is word, 'the other dictionary')
    check(first.get_word('p1').word is word and first.has_word('o2') == (1 in order), 'other forms')
    check(len(first.get_words()) == (2 if 1 in order else 1), 'the set of words')
    template = templates.Template()
    template.parse('[p0][p1][x]', ['x'])
    text = template.substitute({'x': second.get_word('p2')}, second)
    check(text == 'p0p1p2', 'rendered text', text)


def scn_agreement():
    """a word agrees with one and the same form time and again, and several words agree with it"""
    numeral = constructors.construct_integer(each('number', [1, 2, 5, 22, 1000000]))
    asked = rec('case', r.CASE)
    noun, adjective = label_word(r.WORD_TYPE.NOUN, 'n'), label_word(r.WORD_TYPE.ADJECTIVE, 'a')
    template = templates.Template()
    case = asked.verbose_id
    template.parse('[n|%s|k] [a|%s|k] [n|%s|k] [m|k|%s]' % (case, case, case, case), ['n', 'a', 'k', 'm'])
    form = words.WordForm(noun)
    single = templates.Template()
    single.parse('[n|%s|k]' % case, ['n', 'k'])
    alone = single.substitute({'n': words.WordForm(label_word(r.WORD_TYPE.NOUN, 'n')), 'k': numeral}, dictionary.Dictionary())
    single.parse('[a|%s|k]' % case, ['a', 'k'])
    beside = single.substitute({'a': words.WordForm(adjective), 'k': numeral}, dictionary.Dictionary())
    externals = {'n': form, 'm': form, 'a': words.WordForm(adjective), 'k': numeral}
    text = template.substitute(externals, dictionary.Dictionary())
    check(text == ' '.join([alone, beside, alone, alone]), 'rendered text', text)


def scn_filled():
    """words that share their categories are filled in separately, and filling a word twice changes nothing more"""
    shared = words.Properties(r.GENDER.FEMININE)
    number = words.Word.get_forms_number(r.WORD_TYPE.PRONOUN)
    given = each('given', [0, 3, number - 1])
    forms = [('f' if i == given else '') for i in range(number)]
    one = words.Word(r.WORD_TYPE.PRONOUN, forms, shared)
    two = words.Word(r.WORD_TYPE.PRONOUN, forms, shared)
    one.autofill_missed_forms()
    one.autofill_missed_forms()
    check(one.forms == ['f'] * number, 'the filled word')
    check(two.forms == forms and two.properties == shared, 'the other word')
    two.forms[given] = 'g'
    two.autofill_missed_forms()
    check(two.forms == ['g'] * number and one.forms == ['f'] * number, 'filled separately')
