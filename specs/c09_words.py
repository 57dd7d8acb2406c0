"""A word and its forms."""
from utg import words, data, exceptions, relations as r
from specs.common import relations, default_of, last_given, word_of, forms_of, effective, same_set


def pinnable(word_type):
    """schema relations a word may fix for all its forms"""
    return list(word_type.schema)


def scn_form_selection():
    """asking a word for a form returns the stored form of the requested categories, absent categories read as their defaults and the word's own categories win over the requested ones"""
    word_type = each('type', r.WORD_TYPE.records)
    schema = word_type.schema
    pinned_relation = each('pinned', [None] + list(schema))
    # the categories the caller gives: every one, none, or every one but the one named
    absent = each('absent', ['nothing', 'everything'] + list(schema))
    asked = {}
    for relation in schema:
        asked[relation] = rec('asked ' + relation.__name__, relation) if absent != 'everything' and absent is not relation else None
    own = rec('own', pinned_relation) if pinned_relation is not None else None
    forms = forms_of(word_type, 'f')
    word = words.Word(word_type, forms, words.Properties(own))
    props = words.Properties(*asked.values())
    result = word.form(props)
    key = []
    for relation in schema:
        value = own if relation is pinned_relation else asked[relation]
        key.append(effective(value, relation))
    check(result == forms[layout_index(word_type, tuple(key))], 'the form of the requested categories')
    for relation in schema:
        check(props.is_specified(relation) == (asked[relation] is not None), 'the request is not changed')


def scn_normal_form():
    """the normal form is the form of the word's own categories, everything else default"""
    word_type = each('type', r.WORD_TYPE.records)
    schema = word_type.schema
    own = [opt('own ' + relation.__name__, relation) for relation in schema]
    forms = forms_of(word_type, 'f')
    word = words.Word(word_type, forms, words.Properties(*own))
    key = tuple([effective(own[i], schema[i]) for i in range(len(schema))])
    check(word.normal_form() == forms[layout_index(word_type, key)], 'normal form')


def scn_forms_number():
    """a word is accepted exactly when it brings one form per slot of its part of speech"""
    word_type = each('type', r.WORD_TYPE.records)
    expected = len(layout_keys(word_type))
    check(words.Word.get_forms_number(word_type) == expected, 'number of forms', words.Word.get_forms_number(word_type), expected)
    given = each('given', [0, 1, 2, expected - 1, expected, expected + 1, expected + 7])
    assume(given >= 0)
    kind, value = outcome(words.Word, word_type, ['x'] * given)
    if given == expected:
        check(kind == 'value', 'a complete word is accepted', value)
    else:
        check(kind == 'raise', 'an incomplete word is refused', given, expected)
        check(isinstance(value, exceptions.WrongFormsNumberError), 'refused with the documented error', value)


def scn_slots():
    """the slots of a part of speech are listed in storage order"""
    word_type = each('type', r.WORD_TYPE.records)
    check(list(words.Word.get_keys(word_type)) == list(layout_keys(word_type)), 'slots in storage order')


def scn_all_forms():
    """iterating over all forms yields exactly one word form per slot, in slot order, carrying the categories of the slot"""
    word_type = each('type', r.WORD_TYPE.records)
    keys = layout_keys(word_type)
    forms = forms_of(word_type, 'f')
    # a category that is not part of the schema: it must be visible in every form and not influence the choice
    extra_relation = [x for x in relations() if x not in word_type.schema][0]
    extra = rec('extra', extra_relation)
    word = words.Word(word_type, forms, words.Properties(extra))
    result = list(word.all_forms())
    check(len(result) == len(forms), 'number of word forms')
    for i in range(len(keys)):
        check(result[i].word is word, 'the word of the form')
        check(result[i].form == forms[i], 'text of the slot', i)
        check(result[i].properties.get(extra_relation) == extra, 'categories of the word are visible in the form')
        for j in range(len(word_type.schema)):
            relation = word_type.schema[j]
            check(result[i].properties.is_specified(relation) == (keys[i][j] is not None), 'categories of the slot', relation, i)
            check(result[i].properties.get(relation) == effective(keys[i][j], relation), 'categories of the slot', relation, i)


def scn_all_forms_pinned():
    """a word that fixes a category of its schema offers only forms of that category"""
    word_type = each('type', [t for t in r.WORD_TYPE.records if t.schema])
    relation = each('pinned', list(word_type.schema))
    own = each('own', list(relation.records))
    forms = forms_of(word_type, 'f')
    word = words.Word(word_type, forms, words.Properties(own))
    keys = layout_keys(word_type)
    result = list(word.all_forms())
    check(len(result) == len(forms), 'number of word forms')
    for i in range(len(keys)):
        key = [own if word_type.schema[j] is relation else effective(keys[i][j], word_type.schema[j]) for j in range(len(word_type.schema))]
        check(result[i].form == forms[layout_index(word_type, tuple(key))], 'text of the pinned form', i)
        check(result[i].properties.get(relation) == own, 'the fixed category')


def scn_word_form():
    """a word form shows the form of its own categories overlaid by the word's; separate form categories select the text only"""
    word_type = each('type', [r.WORD_TYPE.NOUN, r.WORD_TYPE.PRONOUN, r.WORD_TYPE.PREPOSITION, r.WORD_TYPE.VERB])
    schema = word_type.schema
    relation = each('relation', list(schema))
    own, asked, shown = opt('own', relation), opt('asked', relation), opt('shown', relation)
    forms = forms_of(word_type, 'f')
    word = words.Word(word_type, forms, words.Properties(own))
    mode = each('mode', ['plain', 'properties', 'form properties', 'both'])

    def pick(value):
        return forms[layout_index(word_type, tuple([effective(value if x is relation else None, x) for x in schema]))]

    if mode == 'plain':
        form = words.WordForm(word)
        seen, texted = own, own
    elif mode == 'properties':
        form = words.WordForm(word, words.Properties(asked))
        seen, texted = last_given(asked, own), last_given(asked, own)
    elif mode == 'form properties':
        form = words.WordForm(word, form_properties=words.Properties(shown))
        seen, texted = own, last_given(shown, own)
    else:
        form = words.WordForm(word, words.Properties(asked), words.Properties(shown))
        seen, texted = last_given(asked, own), last_given(shown, own)
    check(form.form == pick(texted), 'text of the word form')
    check(form.form == pick(texted), 'text of the word form, read again')
    check(form.properties.get(relation) == effective(seen, relation), 'categories of the word form')
    check(form.properties.is_specified(relation) == (seen is not None), 'categories of the word form')
    check(form.word is word, 'the word of the form')


def scn_test_word():
    """a generated test word fills every slot with a label that spells the categories of the slot"""
    word_type = each('type', r.WORD_TYPE.records)
    prefix, suffix = text('prefix'), text('suffix')
    word = words.Word.create_test_word(word_type, prefix, suffix)
    keys = layout_keys(word_type)
    check(word.type == word_type, 'part of speech')
    check(len(word.forms) == len(keys), 'number of forms')
    for i in range(len(keys)):
        label = ','.join([p.verbose_id for p in keys[i] if p is not None])
        check(word.forms[i] == prefix + label + suffix, 'label of the slot', i)
    own = opt('gender', r.GENDER)
    other = words.Word.create_test_word(word_type, properties=words.Properties(own))
    check(other.properties.get(r.GENDER) == effective(own, r.GENDER), 'requested categories')
