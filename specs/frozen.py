"""Persistent codes: what stored words and templates refer to.  Existing entries must keep their meaning."""
# relation, record, stored value, code used in template markup; the first record of a relation is its default
CODES = [
    ('CASE', 'NOMINATIVE', 0, 'им'),
    ('CASE', 'GENITIVE', 1, 'рд'),
    ('CASE', 'DATIVE', 2, 'дт'),
    ('CASE', 'ACCUSATIVE', 3, 'вн'),
    ('CASE', 'INSTRUMENTAL', 4, 'тв'),
    ('CASE', 'PREPOSITIONAL', 5, 'пр'),
    ('ANIMALITY', 'ANIMATE', 0, 'од'),
    ('ANIMALITY', 'INANIMATE', 1, 'но'),
    ('NUMBER', 'SINGULAR', 0, 'ед'),
    ('NUMBER', 'PLURAL', 1, 'мн'),
    ('GENDER', 'MASCULINE', 0, 'мр'),
    ('GENDER', 'NEUTER', 1, 'ср'),
    ('GENDER', 'FEMININE', 2, 'жр'),
    ('VERB_FORM', 'INFINITIVE', 0, 'инф'),
    ('VERB_FORM', 'INDICATIVE', 1, 'изъяв'),
    ('VERB_FORM', 'IMPERATIVE', 3, 'пов'),
    ('TIME', 'PAST', 1, 'прш'),
    ('TIME', 'PRESENT', 2, 'нст'),
    ('TIME', 'FUTURE', 3, 'буд'),
    ('PERSON', 'FIRST', 0, '1л'),
    ('PERSON', 'SECOND', 1, '2л'),
    ('PERSON', 'THIRD', 2, '3л'),
    ('ASPECT', 'IMPERFECTIVE', 0, 'несов'),
    ('ASPECT', 'PERFECTIVE', 1, 'сов'),
    ('ADJECTIVE_CATEGORY', 'QUALITY', 0, 'кач'),
    ('ADJECTIVE_CATEGORY', 'RELATIVE', 1, 'отн'),
    ('ADJECTIVE_CATEGORY', 'POSSESSIVE', 2, 'прит'),
    ('GRADE', 'POSITIVE', 0, 'пол'),
    ('GRADE', 'COMPARATIVE', 1, 'сравн'),
    ('GRADE', 'SUPERLATIVE', 2, 'прев'),
    ('PRONOUN_CATEGORY', 'PERSONAL', 0, 'личн'),
    ('PRONOUN_CATEGORY', 'REFLEXIVE', 1, 'возвр'),
    ('PRONOUN_CATEGORY', 'POSSESSIVE', 2, 'притяж'),
    ('PRONOUN_CATEGORY', 'INTERROGATIVE', 3, 'вопр'),
    ('PRONOUN_CATEGORY', 'RELATIVE', 4, 'относ'),
    ('PRONOUN_CATEGORY', 'DEMONSTRATIVE', 5, 'указат'),
    ('PRONOUN_CATEGORY', 'ATTRIBUTIVE', 6, 'опред'),
    ('PRONOUN_CATEGORY', 'NEGATIVE', 7, 'отриц'),
    ('PRONOUN_CATEGORY', 'VAGUE', 8, 'неопр'),
    ('PRONOUN_CATEGORY', 'MUTUAL', 9, 'взаимн'),
    ('WORD_CASE', 'LOWER', 0, 'строч'),
    ('WORD_CASE', 'UPPER', 1, 'загл'),
    ('WORD_TYPE', 'NOUN', 0, 'сущ'),
    ('WORD_TYPE', 'ADJECTIVE', 1, 'прил'),
    ('WORD_TYPE', 'PRONOUN', 2, 'мест'),
    ('WORD_TYPE', 'VERB', 3, 'гл'),
    ('WORD_TYPE', 'PARTICIPLE', 4, 'прич'),
    ('WORD_TYPE', 'INTEGER', 5, 'целое'),
    ('WORD_TYPE', 'TEXT', 6, 'текст'),
    ('WORD_TYPE', 'PREPOSITION', 10, 'предл'),
    ('INTEGER_FORM', 'SINGULAR', 0, 'цо'),
    ('INTEGER_FORM', 'DUAL', 1, 'цд'),
    ('INTEGER_FORM', 'COMPOSITE_DUAL', 2, 'цсд'),
    ('INTEGER_FORM', 'PLURAL', 3, 'цост'),
    ('INTEGER_FORM', 'MIL_BIL', 4, 'цмм'),
    ('VOICE', 'DIRECT', 0, 'прям'),
    ('VOICE', 'REVERSE', 1, 'взв'),
    ('PREPOSITION_FORM', 'NORMAL', 0, 'осн'),
    ('PREPOSITION_FORM', 'ALTERNATIVE', 1, 'алт'),
    ('PREPOSITION_FORM', 'SPECIAL', 2, 'спц'),
    ('ADJECTIVE_FORM', 'FULL', 0, 'полнприл'),
    ('ADJECTIVE_FORM', 'SHORT', 1, 'крприл'),
    ('PARTICIPLE_FORM', 'FULL', 0, 'полнприч'),
    ('PARTICIPLE_FORM', 'SHORT', 1, 'крприч'),
    ('NOUN_FORM', 'NORMAL', 0, 'нс'),
    ('NOUN_FORM', 'COUNTABLE', 1, 'счт'),
    ('DEPENDENCY_MODE', 'FULL', 0, 'пзв'),
    ('DEPENDENCY_MODE', 'SEMANTIC', 1, 'сзв'),
]

# stored key of a category, relation
CATEGORIES = [
    (0, 'CASE'),
    (1, 'ANIMALITY'),
    (2, 'NUMBER'),
    (3, 'GENDER'),
    (4, 'VERB_FORM'),
    (5, 'TIME'),
    (6, 'PERSON'),
    (7, 'ASPECT'),
    (9, 'ADJECTIVE_CATEGORY'),
    (10, 'GRADE'),
    (11, 'PRONOUN_CATEGORY'),
    (12, 'WORD_CASE'),
    (13, 'WORD_TYPE'),
    (14, 'INTEGER_FORM'),
    (15, 'VOICE'),
    (16, 'PREPOSITION_FORM'),
    (17, 'ADJECTIVE_FORM'),
    (18, 'PARTICIPLE_FORM'),
    (19, 'NOUN_FORM'),
    (20, 'DEPENDENCY_MODE'),
]

# part of speech, categories its forms vary by, in storage order
SCHEMAS = [
    ('NOUN', ('NOUN_FORM', 'NUMBER', 'CASE')),
    ('ADJECTIVE', ('ADJECTIVE_FORM', 'GRADE', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER')),
    ('PRONOUN', ('ANIMALITY', 'NUMBER', 'CASE', 'GENDER')),
    ('VERB', ('VERB_FORM', 'TIME', 'NUMBER', 'PERSON', 'GENDER')),
    ('PARTICIPLE', ('PARTICIPLE_FORM', 'TIME', 'ANIMALITY', 'NUMBER', 'CASE', 'GENDER')),
    ('INTEGER', ()),
    ('TEXT', ()),
    ('PREPOSITION', ('PREPOSITION_FORM',)),
]

# part of speech, categories a word of it may fix: name and whether it is required
PROPERTIES = [
    ('NOUN', (('ANIMALITY', True), ('GENDER', True), ('NUMBER', False))),
    ('ADJECTIVE', (('ADJECTIVE_CATEGORY', True),)),
    ('PRONOUN', (('PRONOUN_CATEGORY', True), ('PERSON', False))),
    ('VERB', (('ASPECT', True), ('VOICE', True))),
    ('PARTICIPLE', (('ASPECT', True), ('VOICE', True))),
    ('INTEGER', (('NUMBER', True), ('INTEGER_FORM', True))),
    ('TEXT', ()),
    ('PREPOSITION', ()),
]

# part of speech, value, categories that are left blank in a slot that has the value
EXCLUSIONS = [
    ('NOUN', 'NUMBER', 'PLURAL', ('GENDER',)),
    ('ADJECTIVE', 'NUMBER', 'PLURAL', ('GENDER',)),
    ('ADJECTIVE', 'ADJECTIVE_FORM', 'SHORT', ('CASE', 'ANIMALITY', 'GRADE')),
    ('ADJECTIVE', 'GRADE', 'COMPARATIVE', ('NUMBER', 'CASE', 'GENDER', 'ANIMALITY')),
    ('PRONOUN', 'NUMBER', 'PLURAL', ('GENDER',)),
    ('VERB', 'VERB_FORM', 'INFINITIVE', ('TIME', 'PERSON', 'NUMBER', 'GENDER')),
    ('VERB', 'VERB_FORM', 'IMPERATIVE', ('TIME', 'GENDER')),
    ('VERB', 'NUMBER', 'PLURAL', ('GENDER',)),
    ('VERB', 'TIME', 'PAST', ('PERSON',)),
    ('VERB', 'TIME', 'PRESENT', ('GENDER',)),
    ('VERB', 'TIME', 'FUTURE', ('GENDER',)),
    ('PARTICIPLE', 'NUMBER', 'PLURAL', ('GENDER',)),
    ('PARTICIPLE', 'PARTICIPLE_FORM', 'SHORT', ('TIME', 'VOICE', 'CASE', 'ANIMALITY')),
]

# part of speech, values that do not occur together in a slot
FORBIDDEN = [
    ('NOUN', (('NOUN_FORM', 'COUNTABLE'), ('NUMBER', 'SINGULAR'))),
    ('VERB', (('VERB_FORM', 'IMPERATIVE'), ('PERSON', 'THIRD'))),
    ('VERB', (('VERB_FORM', 'IMPERATIVE'), ('PERSON', 'FIRST'), ('NUMBER', 'SINGULAR'))),
]
