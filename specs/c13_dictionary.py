"""Looking words up in a dictionary."""
from utg import words, dictionary, templates, exceptions, relations as r
from specs.common import default_of

# one record per candidate: part of speech, places of the common text, text of the other places, own categories
CANDIDATES = [
    (r.WORD_TYPE.NOUN, (0,), 'b', None),
    (r.WORD_TYPE.NOUN, (3,), 'a', None),
    (r.WORD_TYPE.NOUN, (3,), 'y', None),
    (r.WORD_TYPE.NOUN, (9,), 'y', None),
    (r.WORD_TYPE.NOUN, (9,), 'y', r.GENDER.FEMININE),
    (r.WORD_TYPE.NOUN, (9,), 'y', r.GENDER.MASCULINE),
    (r.WORD_TYPE.NOUN, (0, 3), 'b', None),
    (r.WORD_TYPE.NOUN, (3, 9), 'b', None),
    (r.WORD_TYPE.NOUN, (9, 12), 'b', r.NUMBER.PLURAL),
    (r.WORD_TYPE.NOUN, (), 'b', None),
    (r.WORD_TYPE.PREPOSITION, (0,), 'b', None),
    (r.WORD_TYPE.PREPOSITION, (1,), 'y', None),
    (r.WORD_TYPE.PREPOSITION, (2,), 'y', None),
    (r.WORD_TYPE.PREPOSITION, (0, 1, 2), 'y', r.PREPOSITION_FORM.SPECIAL),
    (r.WORD_TYPE.TEXT, (0,), '', None),
    (r.WORD_TYPE.TEXT, (0,), '', r.NUMBER.PLURAL),
    (r.WORD_TYPE.INTEGER, (0,), '', r.INTEGER_FORM.DUAL),
    (r.WORD_TYPE.VERB, (4,), 'z', None),
]

COMMON = 'xx'


def build(candidate):
    word_type, places, filler, own = candidate
    forms = [filler + str(i) for i in range(len(layout_keys(word_type)))]
    for place in places:
        forms[place] = COMMON
    return words.Word(word_type, forms, words.Properties(own))


def slots(word, own):
    """(text, categories) of every form of the word"""
    keys = layout_keys(word.type)
    schema = word.type.schema
    result = []
    for key in keys:
        values = {}
        for j in range(len(schema)):
            if key[j] is not None:
                values[schema[j]] = key[j]
        if own is not None:
            values[own._relation] = own
        pinned = tuple([values.get(x) or x.records[0] for x in schema])
        result.append((word.forms[layout_index(word.type, pinned)], values))
    return result


def distance(values):
    """how many categories differ from their defaults"""
    return len([x for x in values if values[x] != default_of(x)])


def better(a, b):
    """a replaces b: earlier part of speech, then smaller list of forms, then closer to the default categories"""
    if a[0].type is not b[0].type:
        return a[0].type.value < b[0].type.value
    if a[0].forms != b[0].forms:
        return a[0].forms < b[0].forms
    return distance(a[1]) < distance(b[1])


def winner(entries, shown):
    best = None
    for word, own in entries:
        for shape, values in slots(word, own):
            if shape == shown and (best is None or better((word, values), best)):
                best = (word, values)
    return best


def verify(result, entries, shown):
    best = winner(entries, shown)
    check(result.has_word(shown) == (best is not None), 'the text is known exactly when some form is spelled so', shown)
    kind, value = outcome(result.get_word, shown)
    if best is None:
        check(kind == 'raise' and isinstance(value, exceptions.NoWordsFoundError), 'an unknown text is reported', value)
        check(value.arguments == {'text': shown}, 'the report names the text', value.arguments)
        return
    check(kind == 'value', 'the text is found', value)
    check(value.word is best[0], 'the word that wins the text', shown, best[0].type)
    check(value.form == shown, 'the form is spelled as requested')
    for relation in best[1]:
        check(value.properties.get(relation) == best[1][relation], 'categories of the winning form', relation)
    for relation in best[0].type.schema:
        check(value.properties.is_specified(relation) == (relation in best[1]), 'categories of the winning form', relation)


def fill(entries, way):
    if way == 'constructor':
        return dictionary.Dictionary([word for word, own in entries])
    result = dictionary.Dictionary()
    for word, own in entries:
        result.add_word(word)
    return result


def run(chosen, probes):
    entries = [(build(c), c[3]) for c in chosen]
    result = fill(entries, each('way', ['constructor', 'one by one']))
    for shown in probes:
        verify(result, entries, shown)


def scn_pairs():
    """two words that share a text: the winner does not depend on the order of registration, except that of equal candidates the first one stays"""
    numbers = list(range(len(CANDIDATES)))
    a, b = each('first', numbers), each('second', numbers)
    run([CANDIDATES[a], CANDIDATES[b]], [COMMON, 'b0', 'y8'])


def scn_triples():
    """three words that share a text, in every order"""
    numbers = [1, 3, 4, 7, 10, 12, 15] if not thorough() else list(range(len(CANDIDATES)))
    chosen = [each(name, numbers) for name in ('first', 'second', 'third')]
    run([CANDIDATES[n] for n in chosen], [COMMON])


def scn_spelling():
    """texts are compared exactly: letter case, spaces and ё matter"""
    stored = each('stored', ['ёж', 'еж', 'Ёж', ' ёж', '', 'ё'])
    asked = each('asked', ['ёж', 'еж', 'Ёж', ' ёж', '', 'ё', 'ёжик'])
    word = words.Word(r.WORD_TYPE.TEXT, [stored])
    result = dictionary.Dictionary([word])
    verify(result, [(word, None)], asked)


def scn_any_text():
    """whatever the spelling, a registered form is found and no other text is"""
    stored, asked = text('stored'), text('asked')
    word = words.Word(r.WORD_TYPE.TEXT, [stored])
    result = dictionary.Dictionary()
    check(not result.has_word(asked), 'an empty dictionary knows nothing')
    result.add_word(word)
    check(result.has_word(asked) == (asked == stored), 'known texts')
    error = raised(result.get_word, asked)
    if asked == stored:
        check(error is None, 'a known text is found', error)
        check(result.get_word(asked).word is word, 'the word of the text')
    else:
        check(isinstance(error, exceptions.NoWordsFoundError), 'an unknown text is reported', error)
    check(len(result.get_words()) == 1, 'one word is registered')


def scn_all_forms_known():
    """every form of a registered word can be looked up"""
    word_type = each('type', r.WORD_TYPE.records)
    word = words.Word(word_type, ['f%d' % i for i in range(len(layout_keys(word_type)))])
    result = dictionary.Dictionary([word])
    verify_all = [result.has_word(f) for f in word.forms]
    check(all(verify_all), 'all forms are known')
    for i in range(len(word.forms)):
        check(result.get_word(word.forms[i]).word is word, 'word of the form', i)
    check(not result.has_word('f%d' % len(word.forms)), 'no other text is known')


def scn_words():
    """the set of words consists of the words that won at least one text"""
    numbers = [0, 2, 3, 5, 9, 10, 13, 14]
    chosen = [CANDIDATES[each(name, numbers)] for name in ('first', 'second')]
    entries = [(build(c), c[3]) for c in chosen]
    result = fill(entries, 'one by one')
    texts = set([f for word, own in entries for f in word.forms])
    expected = [winner(entries, f)[0] for f in texts]
    found = list(result.get_words())
    for word in found:
        check(any([word == x for x in expected]), 'a listed word won some text')
    for word in expected:
        check(any([word == x for x in found]), 'a word that won some text is listed')
    for i in range(len(found)):
        for j in range(i):
            check(found[i] != found[j], 'no word is listed twice')


def scn_isolation():
    """dictionaries do not influence each other"""
    word = words.Word(r.WORD_TYPE.TEXT, ['xx'])
    one, two = dictionary.Dictionary(), dictionary.Dictionary()
    one.add_word(word)
    check(one.has_word('xx') and not two.has_word('xx'), 'only the first dictionary knows the word')
    three = dictionary.Dictionary()
    check(not three.has_word('xx') and len(three.get_words()) == 0, 'a new dictionary is empty')
    given = [word]
    four = dictionary.Dictionary(given)
    four.add_word(words.Word(r.WORD_TYPE.TEXT, ['yy']))
    check(len(given) == 1, 'the given list of words is not changed')


def scn_again():
    """registering the same word again changes nothing"""
    n = each('candidate', list(range(len(CANDIDATES))))
    word = build(CANDIDATES[n])
    entries = [(word, CANDIDATES[n][3])]
    result = dictionary.Dictionary([word, word])
    for shown in set(word.forms):
        verify(result, entries, shown)
    check(len(result.get_words()) == 1, 'one word')
