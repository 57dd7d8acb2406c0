"""Capitalisation of the first letter."""
from utg import words, templates, dictionary, relations as r
from specs.common import default_of, effective


def capital(value):
    return value if value == '' else value[0].upper() + value[1:]


def scn_word_form():
    """an upper-case request changes the first letter of a form only; any other request, and a blank form, is shown verbatim"""
    shape = each('shape', ['properties', 'form properties', 'word', 'none'])
    request = opt('letter case', r.WORD_CASE)
    f = text('f')
    own = words.Properties(request) if shape == 'word' else words.Properties()
    word = words.Word(r.WORD_TYPE.TEXT, [f], own)
    if shape == 'properties':
        form = words.WordForm(word, words.Properties(request))
    elif shape == 'form properties':
        form = words.WordForm(word, form_properties=words.Properties(request))
    else:
        form = words.WordForm(word)
        if shape == 'none':
            request = None
    check(form.form == (capital(f) if request == r.WORD_CASE.UPPER else f), 'text of the form', form.form)
    check(word.forms == [f], 'the stored form is not changed')
    check(words.WordForm.get_form(word, words.Properties(request)) == (capital(f) if request == r.WORD_CASE.UPPER else f), 'text of the form, asked directly')


def scn_each_slot():
    """capitalisation never changes which form is chosen"""
    word_type = each('type', list(r.WORD_TYPE.records))
    keys = layout_keys(word_type)
    i = each('slot', list(range(len(keys))))
    forms = [text('f%d' % k) for k in range(len(keys))]
    word = words.Word(word_type, forms)
    request = opt('letter case', r.WORD_CASE)
    props = words.Properties(*keys[i]).clone(request)
    shown = words.WordForm(word, props).form
    check(shown == (capital(forms[i]) if request == r.WORD_CASE.UPPER else forms[i]), 'text of the slot', i)


def scn_markup():
    """in a template the first letter of the variable decides the letter case of the inserted word, unless the word fixes its own"""
    name = text('name', nonempty=True, forbid='|[]% \t\n\r\x0b\x0c')
    f = text('f')
    fixed = opt('fixed', r.WORD_CASE)
    word = words.WordForm(words.Word(r.WORD_TYPE.TEXT, [f], words.Properties(fixed)))
    s = templates.Substitution.parse('[' + name + ']', [])
    shown = s.get_text({name.lower(): word}, dictionary.Dictionary())
    upper = fixed == r.WORD_CASE.UPPER if fixed is not None else name[0].isupper()
    check(shown == (capital(f) if upper else f), 'inserted text')


def scn_name_against_codes():
    """the first letter of the name has the last say over the letter case the codes and the words of the other variables ask for"""
    upper = each('capitalised', [True, False])
    how = each('asked', ['code', 'code later', 'other word', 'both'])
    asked = each('letter case', [r.WORD_CASE.UPPER, r.WORD_CASE.LOWER])
    code = 'загл' if asked == r.WORD_CASE.UPPER else 'строч'
    f = text('f')
    other = words.WordForm(words.Word(r.WORD_TYPE.TEXT, ['x']), words.Properties(asked))
    markup = {'code': code, 'code later': 'им,ед|' + code, 'other word': 'x', 'both': 'x|' + code}[how]
    s = templates.Substitution.parse('[' + ('Имя' if upper else 'имя') + '|' + markup + ']', ['x'])
    word = words.WordForm(words.Word(r.WORD_TYPE.TEXT, [f]))
    external = {'x': other}
    if each('source', ['external', 'dictionary']) == 'external':
        external['имя'] = word
        shown = s.get_text(external, dictionary.Dictionary())
    else:
        f2 = 'имя'
        shown = s.get_text(external, dictionary.Dictionary([words.Word(r.WORD_TYPE.TEXT, [f2])]))
        f = f2
    check(shown == (capital(f) if upper or asked == r.WORD_CASE.UPPER else f), 'inserted text', how)
