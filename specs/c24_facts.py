"""Facts derived from the spelling of a word."""
from utg import words, data, relations as r

VOWELS = 'аеёиоуыэюяАЕЁИОУЫЭЮЯ'
CONSONANTS = 'бвгджзйклмнпрстфхцчшщъьБВГДЖЗЙКЛМНПРСТФХЦЧШЩЪЬ'
SOFT = 'еёюяЕЁЮЯ'


def vowels(value):
    return [c for c in value if c in VOWELS]


def syllables(value):
    return max(1, len(vowels(value)))


def fluent(forms):
    """some form loses or changes a vowel of the first one"""
    base = vowels(forms[0])
    for form in forms[1:]:
        if form != '' and vowels(form)[:len(base)] != base:
            return True
    return False


def cluster(value):
    if value == '' or value[0] not in CONSONANTS:
        return False
    return len(value) == 1 or value[1] in CONSONANTS


def spelled(name, shapes):
    """text of the shape: v any vowel, c any consonant, x any character"""
    shape = each(name + ' shape', shapes)
    out = ''
    for i in range(len(shape)):
        if shape[i] == 'v':
            out = out + char(name + str(i), list(VOWELS))
        elif shape[i] == 'c':
            out = out + char(name + str(i), list(CONSONANTS))
        elif shape[i] == 'x':
            out = out + char(name + str(i))
        else:
            out = out + shape[i]
    return out


def scn_alphabet():
    """letters are vowels or consonants (signs count as consonants), never both"""
    c = char('letter')
    check((c in data.VOWELS) == (c in VOWELS), 'vowel', c)
    check((c in data.CONSONANTS) == (c in CONSONANTS), 'consonant', c)
    check((c in data.J_VOWELS) == (c in SOFT), 'iotated vowel', c)
    check((c in data.NOT_J_VOWELS) == (c in VOWELS and c not in SOFT), 'other vowel', c)


def scn_syllables():
    """the number of syllables is the number of vowels of the first form, at least one"""
    first = spelled('f', ['', 'x', 'xx', 'кx', 'xа', 'ёxё', 'Аxьx', 'рыэxаеёиоуюяЯЁЮЭЫУОИЕА-а й', 'всплеск'])
    word = words.Word(r.WORD_TYPE.PREPOSITION, [first, each('second', ['', 'ааа', 'ст']), ''])
    check(word.number_of_syllables == syllables(first), 'number of syllables', first)
    check(word.number_of_syllables == syllables(first), 'read again')


def scn_fluent_vowel():
    """a word has a fluent vowel when some spelled form does not repeat the vowels of the first one"""
    first = each('first', ['', 'сон', 'лев', 'кто', 'рот', 'вс', 'день'])
    other = each('second', ['', 'сна', 'льва', 'лев', 'сонный', 'ро', 'х', 'дня', 'дней'])
    third = each('third', ['', 'снов', 'лен', 'рта', 'сон', 'СОН'])
    forms = [first, other, third]
    word = words.Word(r.WORD_TYPE.PREPOSITION, forms)
    check(word.has_fluent_vowel == fluent(forms), 'fluent vowel', first, other, third)
    check(word.has_fluent_vowel == fluent(forms), 'read again')


def scn_fluent_vowel_letters():
    """the same letter by letter"""
    a, b, c = char('a', list('аеёоыАЯъйбz')), char('b', list('аеёоыАЯъйбz')), char('c', list('аобz'))
    forms = ['к' + a + 'т', 'кт' + b, 'к' + c + each('tail', ['', 'а'])]
    word = words.Word(r.WORD_TYPE.PREPOSITION, forms)
    check(word.has_fluent_vowel == fluent(forms), 'fluent vowel')


def scn_consonant_cluster():
    """a word form starts with a consonant cluster when its first two letters are consonants, or it is a single consonant"""
    first = spelled('f', ['', 'x', 'xx', 'xxx', 'cv', 'cc'])
    upper = each('upper', [False, True])
    word = words.Word(r.WORD_TYPE.PREPOSITION, [first, 'а', 'б'])
    form = words.WordForm(word, words.Properties(r.WORD_CASE.UPPER) if upper else None)
    check(form.starts_with_consonant_cluster == cluster(first), 'consonant cluster', first)
    check(form.starts_with_consonant_cluster == cluster(first), 'read again')


def scn_cluster_of_the_shown_form():
    """the cluster is that of the form shown, not of the word's first form"""
    forms = [spelled('f', ['ве', 'вс']), spelled('g', ['ст', 'со', 'ё']), spelled('h', ['', 'ль', 'xx'])]
    word = words.Word(r.WORD_TYPE.PREPOSITION, forms)
    asked = each('asked', list(r.PREPOSITION_FORM.records))
    form = words.WordForm(word, words.Properties(asked))
    index = list(r.PREPOSITION_FORM.records).index(asked)
    check(form.starts_with_consonant_cluster == cluster(forms[index]), 'consonant cluster')


def scn_after_autofill():
    """facts follow the forms that autofill has filled in, whether or not they were read before"""
    forms = [each('first', ['', 'сон', 'ива']), each('second', ['', 'сна', 'ива']), each('third', ['', 'снов', 'о'])]
    word = words.Word(r.WORD_TYPE.PREPOSITION, list(forms))
    if each('read before', [False, True]):
        check(word.number_of_syllables == syllables(forms[0]), 'number of syllables before')
        check(word.has_fluent_vowel == fluent(forms), 'fluent vowel before')
    word.autofill_missed_forms()
    check(word.number_of_syllables == syllables(word.forms[0]), 'number of syllables after')
    check(word.has_fluent_vowel == fluent(word.forms), 'fluent vowel after')


def scn_words_are_separate():
    """facts of one word are not those of another"""
    one, two = words.Word(r.WORD_TYPE.TEXT, [each('one', ['ива', 'с', 'сон'])]), words.Word(r.WORD_TYPE.TEXT, [each('two', ['волна', 'в', 'о'])])
    a, b = words.WordForm(one), words.WordForm(two)
    for turn in range(2):
        check(one.number_of_syllables == syllables(one.forms[0]) and two.number_of_syllables == syllables(two.forms[0]), 'syllables')
        check(a.starts_with_consonant_cluster == cluster(one.forms[0]) and b.starts_with_consonant_cluster == cluster(two.forms[0]), 'cluster')
        check(a.form == one.forms[0] and b.form == two.forms[0], 'text')
