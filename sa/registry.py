"""What is claimed, and which scenarios and rules decide it."""

REF = 'reference layout'
RAW = 'interpreted layout'
RAW_REV = 'interpreted layout, reversed sets'


def P(id, title, statement, over, text, why, files, mechanism, scenarios=None, rules=(), anchors=(), explanation='', state=(), observe=(),
      technique=None, note='', assumptions=(), max_findings=3, repeat=True):
    return {'id': id, 'title': title, 'statement': statement, 'over': over, 'text': text, 'why': why, 'files': files, 'mechanism': mechanism,
            'scenarios': scenarios or {}, 'rules': list(rules), 'anchors': list(anchors), 'explanation': explanation, 'state': list(state),
            'observe': list(observe), 'technique': technique, 'note': note, 'assumptions': list(assumptions), 'max_findings': max_findings, 'repeat': repeat}


ALL = [
    P('C01', 'A variable is replaced with the right form of the right word',
      'A variable of a template is replaced with the word supplied under its name, or, failing that, with the dictionary word of that text. The form shown is chosen by categories overlaid in the order: categories of the supplied form, then the dependencies of the variable in the order written (categories, or the categories of a supplied word), then the word\'s own fixed categories; agreement with each supplied dependency is then applied in the order written. A word or dependency that is available nowhere is reported with the documented error.',
      ['inputs'], 'all words, category values, dependency lists and sources of the word',
      'tests render a few fixed phrases; the precedence has to hold for every category, every overlay order and every mix of dependencies',
      ['utg/templates.py', 'utg/words.py', 'utg/transformators.py'],
      [('the variable collects dependency categories, adds the word\'s own and overlays them on the base form', 'utg/templates.py Substitution.get_text'), ('agreement', 'utg/transformators.py transform')],
      {REF: [('c01_rendering', None), ('c26_history', ['scn_variable', 'scn_better_word']), ('sizes', ['scn_many_dependencies', 'scn_base_categories', 'scn_dependency_anywhere', 'scn_missing_anywhere']), ('same', ['scn_supplied_twice', 'scn_agreement'])]}, observe=['Substitution.get_text', 'Template.substitute'],
      anchors=['utg.templates.Substitution.get_text', 'utg.transformators.transform'],
      explanation='abstract interpretation of Substitution.get_text and everything it calls, for every abstract class of base categories, dependencies (kinds, order, values), own categories and word sources; the inserted text must be the form slot that an independent overlay specification selects'),
    P('C02', 'Nouns and pronouns agree with numerals',
      'A noun or pronoun that depends on a number takes the form Russian grammar demands: singular after 1; genitive singular after 2-4 in the nominative (and in the accusative, if inanimate, or in any case for compound numerals ending in 2-4); countable genitive plural after 5 and more in the nominative and accusative and after a million or billion in every case; otherwise the countable plural of the requested case. In the semantic mode only the number changes: singular after 1, plural otherwise, with the normal noun form. No other category is touched.',
      ['inputs'], 'all numeral classes x dependency modes x cases x animacies x other categories',
      'the tests sample a few numerals and cases; the rule is a table over five numeral classes, six cases, two animacies and two modes, with everything else preserved',
      ['utg/transformators.py'], [('agreement of nouns with numerals', 'utg/transformators.py _noun_integer')],
      {REF: [('c02_numerals', ['scn_noun', 'scn_noun_beside']), ('c26_history', ['scn_noun_agreement']), ('c01_rendering', ['scn_noun_after_numeral']), ('same', ['scn_agreement'])]}, anchors=['utg.transformators.transform', 'utg.transformators._noun_integer'], observe=['transform'],
      explanation='value-set abstract interpretation of the agreement function over all 5x2x6x2 combinations with the remaining categories symbolic; the resulting categories are compared with an independent grammar table, including the frame (categories that must be untouched)'),
    P('C03', 'Adjectives, verbs and participles agree with numerals',
      'An adjective, verb or participle that depends on a number takes: the singular after 1; after 2-4 in the nominative and accusative the genitive plural (masculine, neuter) or nominative plural (feminine); after compound numerals ending in 2-4 in the nominative and accusative the genitive singular; after 5 and more in the nominative and accusative, and after a million or billion in every case, the genitive plural; otherwise the plural of the requested case. In the semantic mode only the number changes: singular after 1, plural otherwise. No other category is touched.',
      ['inputs'], 'all numeral classes x dependency modes x cases x genders x other categories',
      'the tests sample a few combinations of the 5x2x6x3 table and never check what must stay unchanged',
      ['utg/transformators.py'], [('agreement of adjectives with numerals', 'utg/transformators.py _adjective_integer')],
      {REF: [('c02_numerals', ['scn_adjective', 'scn_adjective_beside']), ('c26_history', ['scn_adjective_agreement']), ('c01_rendering', ['scn_adjective_numerals']), ('same', ['scn_agreement'])]}, anchors=['utg.transformators.transform', 'utg.transformators._adjective_integer'], observe=['transform'],
      explanation='value-set abstract interpretation of the agreement function over all combinations with the remaining categories symbolic; compared with an independent grammar table, including the frame'),
    P('C04', 'Agreement applies exactly to the pairs it is defined for',
      'Numbers govern nouns, pronouns, adjectives, verbs and participles; prepositions adapt to a governing word of any part of speech. Every other pair of parts of speech leaves the requested categories unchanged. A preposition can only have its preposition form changed.',
      ['inputs'], 'all pairs of parts of speech, all categories',
      'there are 64 pairs of parts of speech; tests touch a handful, and a wrong or missing entry for a rare pair is invisible to them',
      ['utg/transformators.py'], [('dispatch on the two parts of speech', 'utg/transformators.py transform')],
      {REF: [('c04_dispatch', None), ('c01_rendering', ['scn_two_governors'])]}, anchors=['utg.transformators.transform'], observe=['transform'],
      explanation='abstract interpretation of the dispatcher for every ordered pair of parts of speech with symbolic categories and spellings'),
    P('C05', 'A preposition takes the form its governing word demands',
      'A preposition ending in a consonant takes its alternative form before a one-syllable word with a fluent vowel whose shown form starts with a consonant cluster, and "в" / "с" also before a cluster starting with the same letter. A preposition ending otherwise takes its special form when it is "о" and the shown form is one of "всех", "мне", "всём", "что", "всей", and its alternative form before a vowel other than е, ё, ю, я. In every other case, including blank texts, the requested form stays.',
      ['inputs'], 'all spellings of prepositions and governing words',
      'the rule depends on letters of two arbitrary words; tests list a dozen phrases',
      ['utg/transformators.py', 'utg/words.py', 'utg/data.py'], [('preposition rules', 'utg/transformators.py _preposition_any'), ('letter classes', 'utg/data.py')],
      {REF: [('c05_preposition', None), ('c26_history', ['scn_preposition']), ('c01_rendering', ['scn_preposition', 'scn_prepositions_order'])]}, anchors=['utg.transformators.transform'], observe=['transform'],
      explanation='abstract interpretation over symbolic spellings: texts are split into first/second letters (value sets over the alphabet) and an opaque rest, refined only where the code asks; each class is compared with an independent statement of the rule'),
    P('C06', 'Every integer gets the right grammatical class',
      'The word made from an integer reads as its decimal text and, by absolute value, is classed: exactly 1 million or 1 billion as million/billion; 1 as singular (and singular number); 2, 3, 4 as dual; last two digits 10-19 as plural; last digit 1 as singular numeral; last digit 2-4 as compound dual; anything else as plural. Its number category is plural except for exactly one.',
      ['inputs'], 'all integers, of either sign and any size',
      'the integers are unbounded and the classes are given by residues and exceptions; tests sample a few dozen',
      ['utg/constructors.py'], [('classification', 'utg/constructors.py _construct_integer')],
      {REF: [('c06_integers', ['scn_every_integer'])]}, anchors=['utg.constructors.construct_integer'], observe=['construct_integer'],
      explanation='interval x residue-class abstract interpretation: all integers are partitioned into finitely many classes (interval, residue modulo 100) on which every branch is constant; the class table is compared with an independent one'),
    P('C07', 'Integers do not depend on what was requested before',
      'The word obtained for an integer is the same whether or not any other integer, from inside or outside the range kept in memory, was requested before, and repeating a request gives an equal word. This holds at and across the boundaries of the range kept in memory and for negative integers.',
      ['inputs', 'histories'], 'all integers, any one or two earlier requests',
      'an index error at the boundary of the stored range shows for particular numbers and histories only',
      ['utg/constructors.py'], [('stored range of integers', 'utg/constructors.py construct_integer')],
      {REF: [('c06_integers', ['scn_after_other_requests', 'scn_repeated', 'scn_long_history'])]}, anchors=['utg.constructors.construct_integer'], observe=['construct_integer'],
      explanation='the same partition of the integers, with symbolic earlier requests; the stored table is evaluated lazily at a symbolic index so that one evaluation covers the whole range'),
    P('C08', 'Sets of categories are overlays in which the last value wins',
      'A set built from values, absent values and other sets holds, for each kind of category, the last value given; kinds that were not given are unspecified and read as their default (the first value of the kind, none for the part of speech). Copies are new sets, sources are never changed, and two sets are equal exactly when they specify the same kinds with the same values. The lookup key for a list of kinds gives the effective value of each, in order.',
      ['inputs'], 'all kinds of categories, values, absences and argument orders',
      'sixteen kinds of categories in arbitrary overlay orders; tests use two or three',
      ['utg/words.py', 'utg/data.py', 'utg/logic.py'], [('overlay', 'utg/words.py Properties'), ('defaults', 'utg/logic.py get_default_properties')],
      {REF: [('c26_before', ['scn_categories']), ('c08_properties', None), ('c26_history', ['scn_categories']), ('sizes', ['scn_many_sources']), ('same', ['scn_categories'])]}, anchors=['utg.words.Properties.__init__', 'utg.words.Properties.get'], observe=['Properties.get', 'Properties.is_specified', 'Properties.clone', 'Properties.get_raw_key'],
      explanation='abstract interpretation of constructor, clone, get, is_specified, get_raw_key and equality over symbolic values of every relation and every argument shape'),
    P('C09', 'A word shows the slot its categories select, its own first',
      'Asking a word for a form gives the text of the slot selected by the requested categories overlaid with the word\'s own fixed ones; its normal form is the slot of its own categories, and enumerating it yields every slot once, in slot order, with the categories of that slot. A word must have exactly as many forms as its part of speech has slots. A generated test word carries, in every slot, the codes of that slot\'s categories between the given prefix and suffix.',
      ['inputs'], 'all parts of speech, all slots, all categories and fixed categories',
      'hundreds of slots and thousands of category combinations; tests look at a few',
      ['utg/words.py'], [('form lookup', 'utg/words.py Word.form'), ('slot enumeration', 'utg/words.py Word.all_forms'), ('test words', 'utg/words.py Word.create_test_word')],
      {REF: [('c26_before', ['scn_filled_in_forms', 'scn_container']), ('c09_words', None), ('c26_history', ['scn_forms']), ('sizes', ['scn_long_words']), ('strange', ['scn_texts'])]}, anchors=['utg.words.Word.form', 'utg.words.Word.all_forms', 'utg.words.WordForm.__init__'], observe=['Word.form', 'Word.normal_form', 'Word.all_forms', 'WordForm.form'],
      explanation='abstract interpretation with opaque form texts and symbolic categories; the text shown must be the slot given by the reference layout'),
    P('C10', 'Capitalisation affects exactly the first letter',
      'When upper case is requested (by category, or by an upper-case first letter of a variable\'s name), the text shown is the selected form with its first letter upper-cased and everything after it unchanged; without the request the form is shown as it is. A blank form stays blank in both cases. Capitalisation does not influence which form is selected.',
      ['inputs'], 'all form texts (including blank), all slots',
      'depends on arbitrary texts: blank, one letter, first letters without case',
      ['utg/words.py', 'utg/templates.py'], [('capitalisation', 'utg/words.py WordForm.get_form'), ('request in the markup', 'utg/templates.py Substitution.parse')],
      {REF: [('c10_capital', None), ('c26_history', ['scn_forms']), ('sizes', ['scn_long_words']), ('strange', ['scn_texts', 'scn_names'])]}, anchors=['utg.words.WordForm.get_form', 'utg.templates.Substitution.parse'], observe=['WordForm.form', 'Template.substitute'],
      explanation='string abstract domain (blank / first letter value set / opaque rest) through form lookup and capitalisation'),
    P('C11', 'The markup of a variable is read as documented',
      'The text between brackets is split at vertical bars: the first part is the name, surrounding blanks ignored, compared in lower case, and a name starting with an upper-case letter adds upper case as the last dependency; every other part, surrounding blanks and letter case ignored, is a dependency on a supplied word when it is a known name, and otherwise a comma-separated list of category codes in which blanks around codes and empty codes are ignored and later codes of a kind win. Order of dependencies is kept. A blank name and an unknown code are reported with the documented errors.',
      ['inputs'], 'all markup texts, names, code lists and known names',
      'free-form text: blanks, case, empty parts, clashes between names and codes; tests have a few well-formed examples',
      ['utg/templates.py'], [('markup parser', 'utg/templates.py Substitution.parse'), ('code lists', 'utg/templates.py Substitution.parse_properties')],
      {REF: [('c11_markup', None), ('c26_history', ['scn_markup', 'scn_variables_are_separate']), ('sizes', ['scn_long_markup', 'scn_long_code_list']), ('strange', ['scn_names', 'scn_dependencies', 'scn_blanks'])]}, anchors=['utg.templates.Substitution.parse', 'utg.templates.Substitution.parse_properties'], observe=['Substitution.parse', 'Substitution.parse_properties'],
      explanation='abstract interpretation of the parser over a free-monoid string domain (literals, opaque names, value sets of characters, whitespace runs)'),
    P('C12', 'Text outside the markup is reproduced verbatim',
      'Rendering replaces each bracketed variable, in order, and reproduces everything else, percent signs and formatting-like sequences included, exactly as written. Repeated variables are all replaced, inserted texts are never interpreted, and parsing a new text into a template leaves nothing of the old one.',
      ['inputs', 'histories'], 'all template texts and inserted texts, any earlier parse',
      'arbitrary text with percent signs and repeated markup; tests render plain sentences',
      ['utg/templates.py'], [('template compilation', 'utg/templates.py Template.parse'), ('rendering', 'utg/templates.py Template.substitute')],
      {REF: [('c26_before', ['scn_template']), ('c12_template', None), ('c26_history', ['scn_template', 'scn_parsing']), ('sizes', ['scn_long_text']), ('strange', ['scn_inserted'])]}, anchors=['utg.templates.Template.parse', 'utg.templates.Template.substitute'], observe=['Template.parse', 'Template.substitute'],
      explanation='free-monoid string domain through escaping, regular-expression scan, replacement and formatting; opaque text pieces stand for every bracket- and percent-free text'),
    P('C13', 'The dictionary resolves a text to a well-defined form',
      'Every form of a registered word can be looked up by its exact text, and no other text can. Among forms spelled alike the winner is the one whose part of speech has the smaller code, then whose word has the smaller list of forms, then whose categories differ least from the defaults; complete ties keep the form registered first, so otherwise the order of registration does not matter. The set of words contains each word that won some text once, and a missing text is reported with the documented error.',
      ['inputs', 'histories'], 'all sets of clashing words and registration orders',
      'clashes between several words in any order of registration; tests register two or three words',
      ['utg/dictionary.py', 'utg/words.py'], [('registration', 'utg/dictionary.py Dictionary.add_word'), ('lookup', 'utg/dictionary.py Dictionary.get_word')],
      {REF: [('c26_before', ['scn_dictionary']), ('c13_dictionary', None), ('c26_history', ['scn_same_dictionary', 'scn_better_word']), ('sizes', ['scn_long_words', 'scn_many_clashes', 'scn_many_words']), ('strange', ['scn_texts']), ('same', ['scn_registered'])]}, anchors=['utg.dictionary.Dictionary.add_word', 'utg.dictionary.Dictionary.get_word'], observe=['Dictionary.get_word', 'Dictionary.has_word', 'Dictionary.get_words'],
      explanation='abstract interpretation of registration and lookup for all ordered pairs (and triples) of candidate classes that differ in each criterion, and for opaque spellings; compared with an independent winner specification'),
    P('C14', 'The report of missing words matches what rendering needs',
      'The words a template reports as missing are exactly its variables that are neither supplied nor in the dictionary, one entry per occurrence in order of appearance. If nothing is reported and every dependency is supplied, no lookup fails during rendering; if something is reported, rendering fails with the documented error. Dependencies are not reported.',
      ['inputs'], 'all templates, supplied words and dictionaries',
      'a relation between two operations that must agree on every template; tests check each on its own example',
      ['utg/templates.py', 'utg/dictionary.py'], [('report', 'utg/templates.py Template.get_undictionaried_words')],
      {REF: [('c26_before', ['scn_template']), ('c14_missing', None), ('c26_history', ['scn_template', 'scn_same_dictionary']), ('sizes', ['scn_many_missing', 'scn_missing_anywhere']), ('strange', ['scn_names']), ('c01_rendering', ['scn_source', 'scn_missing_dependency'])]}, anchors=['utg.templates.Template.get_undictionaried_words'], observe=['Template.get_undictionaried_words', 'Template.substitute'],
      explanation='abstract interpretation of both operations on the same abstract template, with opaque names and all supply combinations'),
    P('C15', 'A lexicon offers exactly the templates a request allows',
      'The templates offered for a key are exactly those registered under it whose restrictions are all among the requested ones, in the order of registration; a random choice returns one of them and can return any of them. An unknown key and a request nothing fits are reported with the documented errors naming the key (and the request). By default a template has no restrictions and a request contains none.',
      ['inputs', 'histories'], 'all registrations, keys and restriction sets',
      'subset relations between arbitrary sets; tests have three templates',
      ['utg/lexicon.py'], [('selection', 'utg/lexicon.py Lexicon.get_templates'), ('choice', 'utg/lexicon.py Lexicon.get_random_template')],
      {REF: [('c26_before', ['scn_lexicon']), ('c15_lexicon', ['scn_eligible', 'scn_eligible_finite', 'scn_many', 'scn_defaults', 'scn_unknown_key']), ('c26_history', ['scn_requests']), ('sizes', ['scn_many_templates']), ('same', ['scn_template', 'scn_restrictions'])]}, anchors=['utg.lexicon.Lexicon.get_templates', 'utg.lexicon.Lexicon.get_random_template'],
      observe=['Lexicon.get_templates', 'Lexicon.get_random_template', 'Lexicon.has_key'],
      explanation='abstract interpretation with opaque restriction sets (subset relations refined on demand) and all small finite ones; the random choice is an unconstrained value set, so the possible outcomes are compared with the specified ones'),
    P('C16', 'The nearest template uses as many requested restrictions as possible',
      'The nearest choice returns only templates whose restrictions are all requested and which have the most restrictions in common with the request, and can return each of them, whatever the order of registration. An unknown key and a request nothing fits are reported with the documented errors.',
      ['inputs', 'histories'], 'all registrations and restriction sets',
      'a maximum over arbitrary sets in arbitrary order; tests have one example',
      ['utg/lexicon.py'], [('nearest selection', 'utg/lexicon.py Lexicon._get_nearest_templates')],
      {REF: [('c26_before', ['scn_lexicon']), ('c15_lexicon', ['scn_nearest', 'scn_nearest_finite', 'scn_nearest_sizes', 'scn_unknown_key']), ('c26_history', ['scn_requests']), ('sizes', ['scn_many_templates']), ('same', ['scn_template', 'scn_restrictions'])]}, anchors=['utg.lexicon.Lexicon.get_random_nearest_template'], observe=['Lexicon.get_random_nearest_template'],
      explanation='abstract interpretation over opaque sets with symbolic cardinalities of intersections, and over all small finite sets, in every registration order'),
    P('C17', 'Lexicons are independent and always up to date',
      'What is registered in one lexicon or under one key never shows in another; asking never changes a lexicon and does not make a key known. A template registered after a request takes part in the next request.',
      ['inputs', 'histories'], 'all interleavings of registration and requests on two lexicons',
      'a shared default or a stale memory shows only in particular histories',
      ['utg/lexicon.py'], [('storage', 'utg/lexicon.py Lexicon.add_template')],
      {REF: [('c26_before', ['scn_lexicon']), ('c15_lexicon', ['scn_isolation', 'scn_growing', 'scn_keys']), ('c26_history', ['scn_requests']), ('sizes', ['scn_many_keys']), ('same', ['scn_template', 'scn_restrictions']), ('c25_effects', ['scn_lexicon_requests'])]}, anchors=['utg.lexicon.Lexicon.add_template', 'utg.lexicon.Lexicon.get_templates'], observe=['Lexicon.get_templates', 'Lexicon.has_key'],
      explanation='abstract interpretation of interleaved registrations and requests on two lexicons'),
    P('C18', 'Serialization restores words, categories and templates exactly',
      'A word, set of categories, variable or template restored from its serialized data, directly or after a trip through JSON, equals the original, behaves like it and serializes to the same data. Kinds or values of categories that no longer exist are ignored on restoring. Data and object share nothing that can be changed.',
      ['inputs', 'histories'], 'all words, categories, variables and templates; direct and JSON',
      'round trips must hold for every value, and JSON turns integer keys into strings; tests restore one or two objects',
      ['utg/words.py', 'utg/templates.py'], [('serialize / deserialize', 'utg/words.py, utg/templates.py')],
      {REF: [('c26_before', ['scn_container', 'scn_categories']), ('c18_serialization', None), ('c26_history', ['scn_restoring']), ('sizes', ['scn_large_data', 'scn_long_text', 'scn_long_words']), ('strange', ['scn_texts', 'scn_inserted', 'scn_names'])]}, anchors=['utg.words.Word.serialize', 'utg.words.Properties.deserialize', 'utg.templates.Template.deserialize'], observe=['serialize', 'deserialize'],
      explanation='abstract interpretation of serialize followed by deserialize on symbolic categories and opaque texts, with a JSON model in between'),
    P('C19', 'Stored codes keep their meaning',
      'The numbers under which parts of speech, kinds of categories and their values are stored never change their meaning: each number still denotes the same category as in the stored data of existing users, every kind of category can be stored, and no number is used twice. The order of categories that defines the slots of each part of speech, the kinds a word may fix for itself and the default of each kind are part of that contract.',
      ['configurations'], 'all parts of speech, kinds of categories and values',
      'stored data from earlier versions is not part of the test suite; renumbering passes every round-trip test',
      ['utg/relations.py'], [('numbers of the enumerations', 'utg/relations.py')],
      {REF: [('c19_codes', None)]}, anchors=['utg.relations'], observe=['serialize', 'deserialize'],
      explanation='the enumerations are evaluated from the source and compared, through serialization, with the frozen code table specs/frozen.py'),
    P('C20', 'The slots of each part of speech are exactly the documented ones',
      'The slots of a part of speech are all combinations of its categories, in lexicographic order, with a category left blank when an earlier one excludes it and the forbidden combinations left out. Slots are numbered 0, 1, 2... without gaps, the two tables of slots are inverse to each other, and the number of forms of a word is the number of slots. Exclusions and forbidden combinations are those stored words were written with. A category that presets another one (countable forms preset the plural) occurs only in slots that carry it.',
      ['configurations'], 'all parts of speech and all combinations of categories',
      'a few thousand combinations; a test compares counts or single slots',
      ['utg/logic.py', 'utg/restrictions.py', 'utg/data.py'], [('slot generator', 'utg/logic.py get_caches'), ('exclusions', 'utg/restrictions.py')],
      {RAW: [('c20_layout', None)]}, anchors=['utg.logic.get_caches'], observe=['Word.get_keys', 'Word.get_forms_number'],
      explanation='abstract interpretation of the slot generator for every part of speech; the generated tables are compared with an independent description of the exclusions (specs/c20_layout.py and sa/layout.py)'),
    P('C21', 'Every combination of categories resolves to a slot',
      'For every part of speech, every full combination of its categories resolves to exactly one existing slot: the slot with the same categories if there is one (blank categories of a slot match anything), and otherwise the slot nearest to it. Every slot is reached by some combination.',
      ['inputs'], 'all full combinations of categories of every part of speech',
      'thousands of combinations, most of which no test asks for; a missing one is a crash at rendering',
      ['utg/logic.py', 'utg/data.py'], [('resolution table', 'utg/logic.py get_raw_caches')],
      {RAW: [('c21_resolution', None)]}, anchors=['utg.logic.get_raw_caches', 'utg.logic.get_nearest_key'], observe=['Word.form'],
      explanation='abstract interpretation of the resolution table generator; totality and target slot are checked for every full combination against an independent specification'),
    P('C22', 'The nearest slot is the one that agrees most',
      'Among the available slots the nearest one agrees with the wanted slot in the most positions, a later position weighing slightly more than an earlier one; of equally near slots the first is taken. Blank positions agree with blank ones only. Without any available slot there is no nearest one.',
      ['inputs'], 'all wanted slots and lists of available slots',
      'a maximum over arbitrary lists with ties; tests have three examples',
      ['utg/logic.py'], [('nearest slot', 'utg/logic.py get_nearest_key')],
      {REF: [('c22_nearest', None), ('c26_history', ['scn_nearest']), ('sizes', ['scn_many_slots'])]}, anchors=['utg.logic.get_nearest_key'], observe=['get_nearest_key', 'Word.autofill_missed_forms'],
      explanation='abstract interpretation over symbolic agreement patterns of two and three candidates, six positions, and over the real slot lists'),
    P('C23', 'Missed forms are filled from the nearest given form',
      'Filling in missed forms leaves every given form as it is and gives every missed slot the text of the nearest slot whose form was given, never of one that was itself just filled. If no form was given, nothing changes. Words do not influence each other, even when they were made from the same list, which stays as it was.',
      ['inputs'], 'all parts of speech and patterns of missed forms',
      'hundreds of slots, any subset of which may be missing; tests have one or two patterns',
      ['utg/words.py', 'utg/logic.py'], [('filling', 'utg/words.py Word.autofill_missed_forms')],
      {REF: [('c26_before', ['scn_filled_in', 'scn_container']), ('c23_autofill', None), ('c26_history', ['scn_filling']), ('same', ['scn_filled']), ('c25_effects', ['scn_filling'])]}, anchors=['utg.words.Word.autofill_missed_forms'], observe=['Word.autofill_missed_forms'],
      explanation='abstract interpretation of autofill with opaque given forms for patterns of given slots; the filled slots are compared with an independent nearest-slot specification'),
    P('C24', 'Facts about a word follow its current spelling',
      'The number of syllables is the number of vowels of the first form, at least one; a word has a fluent vowel when the vowels of some non-blank form do not begin with those of the first; a shown form starts with a consonant cluster when its first two letters are consonants or it is a single consonant. The facts are the same however often and in whatever order they are read, the facts of a word follow its forms after missed ones were filled in (a form handed out before keeps showing what it showed), and facts of one word never show on another. Letters are classed as vowels and consonants (signs included) of the Russian alphabet in both cases.',
      ['inputs', 'histories'], 'all spellings; facts read before and after forms are filled in',
      'arbitrary spellings and stored results that may become stale',
      ['utg/words.py', 'utg/data.py', 'utg/utils.py'], [('facts', 'utg/words.py'), ('stored results', 'utg/utils.py lazy_property'), ('letters', 'utg/data.py')],
      {REF: [('c26_before', ['scn_filled_in_facts']), ('c24_facts', None), ('c26_history', ['scn_facts']), ('sizes', ['scn_long_words'])]}, anchors=['utg.words.Word.number_of_syllables', 'utg.words.Word.has_fluent_vowel', 'utg.words.WordForm.starts_with_consonant_cluster', 'utg.utils.lazy_property', 'utg.data'],
      observe=['Word.number_of_syllables', 'Word.has_fluent_vowel', 'WordForm.starts_with_consonant_cluster'],
      explanation='abstract interpretation with letters as value sets over the alphabet and opaque rests; facts before and after autofill compared with an independent definition'),
    P('C25', 'Using the library changes nothing it was given',
      'Rendering, agreement, comparison, parsing, serialization, lookup and selection leave templates, words, forms, categories, dictionaries, lexicons, and the lists and mappings passed in exactly as they were. Only parsing a template, adding to a dictionary or lexicon and filling in missed forms change an object, and only their own. Objects created without explicit contents always start empty, whatever was done with others before.',
      ['inputs', 'histories'], 'all operations, inputs and sequences of operations',
      'a shared default or an in-place update shows only in the next use of the shared object',
      ['utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/transformators.py', 'utg/constructors.py'], [('copies on change', 'utg/words.py Properties.clone')],
      {REF: [('c25_effects', None), ('same', ['scn_categories', 'scn_filled', 'scn_supplied_twice']), ('c23_autofill', ['scn_words_of_one_list', 'scn_words_are_separate']), ('c18_serialization', ['scn_no_sharing']), ('c12_template', ['scn_two_templates']), ('c15_lexicon', ['scn_isolation'])]}, rules=['categories_immutable'], anchors=['utg.words.Properties.clone', 'utg.templates.Substitution.get_text'], observe=['every public operation'],
      explanation='abstract interpretation of every public operation with the observable state of all arguments compared before and after; plus a who-may-write rule: the state of a set of categories is written only during its construction, at every store and call site of the package'),
    P('C26', 'Results depend on the inputs only',
      'Rendering, parsing, agreement, lookup, comparison, serialization and the slot tables are functions of their inputs: they involve no chance, time, environment or object identity, and do not depend on the iteration order of sets, on what was done before, or on the order in which words were registered or supplied (ties of equal candidates aside). Random choices are made among the fitting templates in the order of registration.',
      ['inputs', 'histories', 'configurations'], 'all inputs, earlier operations and set iteration orders',
      'hash randomisation and history change results between processes only; a test run sees one order',
      ['utg/templates.py', 'utg/words.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/logic.py', 'utg/transformators.py'], [('ordered tables', 'utg/logic.py'), ('choice', 'utg/lexicon.py')],
      {REF: [('c26_before', None), ('c26_determinism', None), ('c26_history', None)], RAW_REV: [('c20_layout', None), ('c21_resolution', None)], 'reference layout, reversed sets': [('c26_determinism', None), ('c29_vocabulary', None)]}, rules=['no_chance'],
      anchors=['utg.logic.get_caches', 'utg.templates.Template.substitute'], observe=['every public operation'],
      explanation='call-graph reachability from every public entry point to sources of chance, time, environment and identity (over-approximate resolution), plus abstract interpretation of paired runs with different histories and both set iteration orders, at load time and at run time'),
    P('C27', 'Equality and hashing are consistent',
      'Sets of categories, words, forms, variables and templates are equal exactly when their contents are; equality is reflexive and symmetric, inequality is its opposite, and comparison with anything else gives "different" without failing. Equal sets of categories, words and forms have equal hashes, so they are interchangeable as keys; reading derived facts does not affect comparison.',
      ['inputs'], 'all pairs of objects, including foreign ones',
      'laws over pairs of arbitrary objects; tests compare a few',
      ['utg/words.py', 'utg/templates.py'], [('__eq__ / __hash__', 'utg/words.py, utg/templates.py')],
      {REF: [('c26_before', ['scn_categories', 'scn_container']), ('c27_equality', None), ('same', ['scn_forms_of_one_word']), ('sizes', ['scn_difference_anywhere', 'scn_long_words']), ('strange', ['scn_texts'])]}, anchors=['utg.words.Properties.__eq__', 'utg.words.Word.__eq__', 'utg.words.WordForm.__eq__', 'utg.templates.Template.__eq__'], observe=['==', '!=', 'hash', 'sets and dicts'],
      explanation='abstract interpretation of both comparison directions and hashing over symbolic contents; hashes are terms, so equal hashes must follow from equal contents'),
    P('C28', 'Failures are reported with complete documented errors',
      'A wrong number of forms, unknown category codes, blank names, missing words and dependencies, unknown lexicon keys and unsatisfiable requests are reported with their own error, which belongs to the documented family, carries the offending values as arguments and mentions them in its message. Wherever the library raises one of its errors it supplies everything the message needs, and nothing in the library swallows errors. Correct input raises none.',
      ['inputs'], 'all raise sites, error classes and offending inputs',
      'an incomplete error turns into an unrelated failure only when it is raised; tests check the class at most',
      ['utg/exceptions.py', 'utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/transformators.py'], [('errors', 'utg/exceptions.py')],
      {REF: [('c28_errors', None), ('c26_history', ['scn_errors'])]}, rules=['error_arguments', 'errors_not_swallowed'], anchors=['utg.exceptions.UtgError.__init__'], observe=['raised errors'],
      explanation='whole-program rule: at every raise site the keyword arguments cover the placeholders of the class message; handlers that drop everything are forbidden; plus abstract interpretation of every failure of the public interface'),
    P('C29', 'Every category can be written, unambiguously, by its code',
      'Every value of every kind of category has the documented code, codes are unique over all kinds, contain nothing the markup would misread (blanks, commas, bars, brackets, upper case), and writing the code in the markup selects exactly that value. Every category the library itself refers to exists.',
      ['inputs', 'configurations'], 'all kinds of categories and values',
      'a clash between two of some seventy codes silently changes the meaning of stored templates; tests use a few codes',
      ['utg/relations.py', 'utg/logic.py', 'utg/data.py'], [('codes', 'utg/relations.py'), ('code table', 'utg/logic.py get_verbose_to_relations')],
      {REF: [('c29_vocabulary', ['scn_documented_codes', 'scn_complete_and_unambiguous', 'scn_writable'])]}, rules=['vocabulary_references'], anchors=['utg.logic.get_verbose_to_relations', 'utg.relations'], observe=['Substitution.parse_properties'],
      explanation='the enumerations and the code table are evaluated from the source and compared with the documented codes; a whole-program rule resolves every reference to a category record'),
    P('C30', 'Migrations bring stored words to the current slots',
      'Every migration can be loaded and run, refers only to categories that exist and leads between recorded layouts; the last one leads to the current slots, and each reads every position as the categories the previous one wrote there. A migrated word has one form per slot of the target, slots that already existed keep their form, new slots borrow the form of the nearest old one, and part of speech, categories and unrelated words are unchanged.',
      ['inputs', 'configurations'], 'all migrations, parts of speech, slots and forms',
      'the tests never run migrations; a mistake silently scrambles the forms of every stored word',
      ['utg/migrations'], [('recorded layouts and their mapping', 'utg/migrations/m_*.py')],
      {REF: [('c30_migrations', None)]}, rules=['migration_vocabulary', 'frozen_migrations'], anchors=['utg.logic.get_nearest_key'], observe=['migrate'],
      explanation='abstract interpretation of every migration with opaque forms against the recorded layouts, agreement of consecutive layouts, and two whole-program rules on the migration modules (every referenced category exists; layouts are recorded, not taken from the running library)',
      max_findings=12),
    P('C31', 'A set of categories prints as the list of its codes',
      'The printed form of a set of categories is the codes of exactly the specified values, in the fixed order of the kinds, separated by commas in parentheses, whatever the order in which they were given.',
      ['inputs'], 'all sets of categories',
      'any subset of sixteen kinds; tests print one',
      ['utg/words.py'], [('printing', 'utg/words.py Properties.__str__')],
      {REF: [('c29_vocabulary', ['scn_printed', 'scn_printed_order', 'scn_printed_any']), ('c26_history', ['scn_printing'])]}, anchors=['utg.words.Properties.__str__'], observe=['str'],
      explanation='abstract interpretation of printing over symbolic categories, compared with an independent rendering'),
    P('C32', 'Reading from several threads gives the results of reading alone',
      'Building numerals, showing and examining words, reading and copying sets of categories, agreeing, parsing, rendering, reporting missing words, looking words up, choosing templates, storing and restoring may be done by several threads at once on shared words, sets of categories, dictionaries, lexicons and templates that nobody changes meanwhile: each gives the result it would give alone, on the first use as on later ones.',
      ['schedules', 'inputs'], 'all switches from one operation to another between two statements',
      'tests are single-threaded; a result stored in two steps, or in a shared place, is wrong only when two uses meet',
      ['utg/constructors.py', 'utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/transformators.py', 'utg/logic.py'],
      [('stored numerals are published complete', 'utg/constructors.py construct_integer'), ('facts about words are computed from the forms', 'utg/utils.py'), ('rendering keeps its intermediate results to itself', 'utg/templates.py Substitution.get_text')],
      {REF: [('c32_together', None)]}, repeat=False, anchors=['utg.constructors.construct_integer', 'utg.templates.Template.substitute'], observe=['construct_integer', 'Template.substitute', 'Dictionary.get_word', 'Lexicon.get_templates'],
      explanation='abstract interpretation of pairs of operations in which the second one runs as a whole before each statement the first one executes, compared with the reference of each operation'),
    P('C33', 'Random choices are fair',
      'Given a fair source of chance, a random choice of a template returns each registration that fits the request with the same probability, and the nearest choice each nearest one, whatever was requested before and in whatever order they were registered.',
      ['inputs', 'histories'], 'all outcomes of the source of chance',
      'a distribution cannot be asserted by example; a biased choice still returns fitting templates',
      ['utg/lexicon.py'], [('choice', 'utg/lexicon.py Lexicon.get_random_template'), ('nearest choice', 'utg/lexicon.py Lexicon.get_random_nearest_template')],
      {REF: [('c33_fairness', None)]}, repeat=False, anchors=['utg.lexicon.Lexicon.get_random_template', 'utg.lexicon.Lexicon.get_random_nearest_template'], observe=['Lexicon.get_random_template', 'Lexicon.get_random_nearest_template'],
      explanation='abstract interpretation of the choice with a symbolic draw; the classes of each request partition the source of chance, and the weight of the classes that return a template is its probability, compared with equal shares'),
]

CHECKS = {p['id']: p for p in ALL}

NOT_APPLICABLE = [
    P('N01', 'Rendered sentences are grammatical Russian',
      'For correctly filled words and correctly marked-up templates the rendered sentence is grammatical Russian.',
      ['inputs'], 'all sentences', 'no finite test set settles grammar', ['utg/transformators.py'], [('agreement rules', 'utg/transformators.py')]),
    P('N04', 'Cost stays bounded',
      'Rendering takes time proportional to the template and its dependencies, and loading the library takes bounded time and memory.',
      ['inputs'], 'all templates', 'tests do not measure cost', ['utg/logic.py', 'utg/constructors.py'], [('tables computed once', 'utg/data.py')]),
]
REASONS = {
    'N01': 'grammaticality of a natural language has no oracle in the source; the decidable clauses (agreement tables, slot selection, prepositions) are claimed as C02-C05, C09, C10',
    'N04': 'running time and memory are run-time quantities that no sound static bound in reach covers for arbitrary dictionaries and templates',
}
TECHNIQUE = 'abstract interpretation of the syntax tree (value sets, intervals x residues, string pieces, opaque sets) against a reference specification, with on-demand partitioning'

# What the abstract classes of each property bound (stated in DESIGN.md)
BOUNDS = {
    'C01': 'categories symbolic; up to two dependencies of a variable, one governing numeral or word, base form with and without categories; chains of up to 40 dependencies',
    'C02': 'none: 5 numeral classes x 2 modes x 6 cases x 2 animacies x every other category symbolic',
    'C03': 'none: 5 numeral classes x 2 modes x 6 cases x 3 genders x every other category symbolic',
    'C04': 'none on pairs and categories (64 pairs, symbolic categories); spellings symbolic in their first letters and opaque in the rest',
    'C05': 'none on spellings: first two letters and the vowels of each text are value sets over the alphabet, the rest opaque; words of one to three forms',
    'C06': 'none: all integers (intervals x residues modulo 100, refined on demand)',
    'C07': 'none on integers; up to two earlier requests, and one history of thousands of requests',
    'C08': 'none on values; up to three positional sources per set; up to 40 sources',
    'C09': 'none on slots and categories; one or two own categories at a time',
    'C10': 'none on spellings (first letter a value set, rest opaque)',
    'C11': 'names opaque; up to three dependencies and two categories per dependency; up to 40 dependencies; names and texts of special shape',
    'C12': 'surrounding text opaque (free of brackets, percent signs excepted where they are the subject); up to three variables per template; up to 40 variables and texts of thousands of characters at selected sizes',
    'C13': 'two and three clashing words from every class that differs in a criterion, in every order; spellings opaque; up to 40 clashing words at selected sizes',
    'C14': 'up to three variables per template, every supply combination, opaque names; up to 40 missing names',
    'C15': 'arbitrary restriction sets for two templates, all sets over a universe of three restrictions, three templates for order; up to 40 templates at selected sizes',
    'C16': 'arbitrary restriction sets for two templates, all sets over a small universe for three templates in every order; up to 40 templates at selected sizes',
    'C17': 'two lexicons, two keys, up to three registrations between requests; up to 40 keys',
    'C18': 'categories symbolic (any subset of sixteen kinds); forms opaque; templates of up to two variables plus opaque text; long texts and many entries at selected sizes',
    'C19': 'none: all codes of the frozen table',
    'C20': 'none: all parts of speech and combinations',
    'C21': 'none: all complete combinations of all parts of speech',
    'C22': 'two or three candidates of up to six positions, and the real slot lists',
    'C23': 'all patterns of parts of speech with few slots; one or two given, one blank and block patterns for the others',
    'C24': 'none on letters; words of up to three forms and texts of up to three letters plus opaque rests',
    'C25': 'the public operations once each, and in pairs where state could be shared',
    'C26': 'one earlier operation; both orders of iteration of every set, at load time and at run time; reachability over the whole package',
    'C27': 'none on contents (symbolic); one foreign object of each kind',
    'C28': 'every raise site of the package; every documented failure',
    'C29': 'none: all codes',
    'C30': 'all migrations, parts of speech and slots; forms opaque',
    'C31': 'none: any subset of the sixteen kinds, in several orders',
    'C32': 'two operations, one switch: the second runs as a whole before a statement (its first or second execution) of the first; the interpreter lock of CPython is assumed, so a statement of the library is one step',
    'C33': 'eight lexicons of up to eight templates, five requests, one earlier request; the operations of the module random are taken as fair',
}
