#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json (only properties with a check module are claimed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(pid, title, statement, over, text, why, files, mechanism, observe=(), note='', technique=''):
    PROPS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=list(observe), note=note, technique=technique))


A = 'pymorphy2/analyzer.py'
T = 'pymorphy2/tagset.py'
L = 'pymorphy2/units/by_lookup.py'
N = 'pymorphy2/units/by_analogy.py'
H = 'pymorphy2/units/by_hyphen.py'
S = 'pymorphy2/units/by_shape.py'
AB = 'pymorphy2/units/abbreviations.py'
U = 'pymorphy2/units/base.py'
UU = 'pymorphy2/units/utils.py'
UN = 'pymorphy2/units/unkn.py'
W = 'pymorphy2/opencorpora_dict/wrapper.py'
CO = 'pymorphy2/opencorpora_dict/compile.py'
PA = 'pymorphy2/opencorpora_dict/parse.py'
PP = 'pymorphy2/opencorpora_dict/preprocess.py'
PR = 'pymorphy2/opencorpora_dict/probability.py'
ST = 'pymorphy2/opencorpora_dict/storage.py'
D = 'pymorphy2/dawg.py'
RU = 'pymorphy2/lang/ru/config.py'
UK = 'pymorphy2/lang/uk/config.py'
SH = 'pymorphy2/shapes.py'
TK = 'pymorphy2/tokenizers.py'
UT = 'pymorphy2/utils.py'
CL = 'pymorphy2/cli.py'
CA = 'pymorphy2/cache.py'

P('C01', 'Every token gets a well-formed analysis; UNKN only when nothing else fits',
  'For every Unicode token, parse, tag and normal_forms return without an exception and with at least one result, '
  'every analysis has a non-negative finite score and a tag made of known grammemes, and its lexeme, normalized form and '
  'inflections can be asked for. A token (or what follows a known prefix or precedes a particle in it) which no rule can '
  'analyse gets exactly one analysis: tag UNKN, with the lower-cased token as the word and as the normal form.',
  ['inputs'], 'all Unicode tokens of ordinary length (words, invented words, numbers, punctuation, Latin, mixtures, any code point)',
  'tests parse a few dozen fixed tokens; totality is about every string, including letters without a Unicode name',
  [A, UN, SH, S, N, H], [('pipeline of analyzer units that ends with the UNKN unit', A), ('UnknAnalyzer', UN)],
  ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'MorphAnalyzer.normal_forms'])

P('C02', 'tag() gives exactly the tags of parse()',
  'For every token, the set of tags returned by tag() equals the set of tags of the analyses returned by parse(). '
  'When the dictionary has P(tag|word) estimates, tag() lists the tags in non-increasing order of the estimate for the token.',
  ['inputs', 'configurations'], 'all tokens, all dictionaries (with and without probability estimates)',
  'every analyzer unit has a separate implementation of tagging; the tests compare them for a few words only',
  [A, L, N, H, S, AB, UN], [('separate tag() fast paths in the units', N), ('apply_to_tags', A)],
  ['MorphAnalyzer.tag', 'MorphAnalyzer.parse'])

P('C03', 'Scores are probability estimates: replaced by P(t|w) and sorted, or normalised',
  'If the dictionary has a non-zero P(tag|word) estimate for some analysis of the lower-cased token, the score of every '
  'analysis is that estimate (0 if there is none for its tag) and the analyses are sorted by score, best first. Otherwise the '
  'scores of the analyses are the heuristic estimates scaled to sum to 1 (or all 0 if all these estimates are 0); without a probability model they are the heuristic estimates.',
  ['inputs', 'configurations'], 'all tokens and all probability files, including none',
  'tests check the scores of a handful of words with the one installed dictionary',
  [A, D], [('ProbabilityEstimator.apply_to_parses', A), ('ConditionalProbDistDAWG.prob', D)],
  ['Parse.score', 'order of MorphAnalyzer.parse results'])

P('C04', 'Dictionary words: exactly the analyses the dictionary records',
  'A token that is a dictionary word gets exactly one analysis per dictionary record of it (no record is missed, none is invented, no '
  'predicted analyses are mixed in), each with the tag of that record and with the first form of the record\'s lexeme as normal form. '
  'Words that share a spelling but belong to different lexemes keep all their analyses.',
  ['inputs', 'configurations'], 'all words of the dictionary, all dictionaries',
  'the dictionary has five million word forms; the tests look up tens of them',
  [L, W, A], [('DictionaryAnalyzer.parse', L), ('build_normal_form / build_tag_info', W)], ['MorphAnalyzer.parse'])

P('C05', 'Analysis does not depend on letter case',
  'Changing the case of letters of a token of two or more letters does not change its analyses (words, tags, normal forms, scores), '
  'and the words and normal forms of the analyses are in lower case. Known-word checks ignore case as well.',
  ['inputs'], 'all case variants of all tokens', 'tests use lower-case words almost everywhere',
  [A, L, N, H, S], [('word_lower is what every unit uses', A)], ['MorphAnalyzer.parse', 'MorphAnalyzer.tag', 'MorphAnalyzer.word_is_known'])

P('C06', 'е/ё substitution: one-way, every spelling found, result spelled properly',
  'Writing е instead of some ё of a dictionary word (each position on its own) loses none of its analyses, and the analyses are '
  'spelled with the proper ё. The substitution works in one direction only: a ё of the token is never read as е. '
  'char_substitutes passed to the analyzer replaces the table of the language (an empty one makes matching exact).',
  ['inputs', 'configurations'], 'all words with е or ё, all subsets of positions, all substitution tables',
  'tests have a dozen ё words with one or two ё', [A, L, N, W, RU],
  [('words.similar_items with compiled substitutes', L), ('char_substitutes', A)],
  ['MorphAnalyzer.parse', 'MorphAnalyzer.word_is_known', 'Parse.word'])

P('C07', 'Known-word API agrees with the dictionary',
  'word_is_known is true exactly for words which have a dictionary record under the allowed letter substitutions (under none with strict=True); '
  'is_known of an analysis says the same about its word. iter_known_word_parses(prefix) yields every dictionary record whose word '
  'starts with the prefix, exactly once, with its tag and normal form, and nothing else.',
  ['inputs', 'configurations'], 'all strings as words and prefixes; all dictionaries',
  'tests try two prefixes and some words', [A, W], [('Dictionary.word_is_known', W), ('Dictionary.iter_known_words', W), ('MorphAnalyzer.iter_known_word_parses', A)],
  ['MorphAnalyzer.word_is_known', 'Parse.is_known', 'MorphAnalyzer.iter_known_word_parses'])

P('C08', 'Lexemes are coherent',
  'The lexeme of an analysis contains the analysed form (same word and tag), all its forms have the normal form of the analysis, and every '
  'form has the same lexeme. For a dictionary word the lexeme is exactly the list of forms the dictionary has for it, and parsing any '
  'form finds the analysis that belongs to that lexeme; for prefixed words, words with a particle and words with a fixed first part it is '
  'the lexeme of the base word with the same part added to every form. (Compounds with two inflected halves are left to another property.)',
  ['inputs'], 'all analyses of all tokens, known, predicted and derived',
  'tests check the full lexeme of several words', [A, L, N, H, U, AB], [('get_lexeme of the units', L), ('lexemizer coroutines', N), ('AnalogyAnalizerUnit', U)],
  ['Parse.lexeme', 'MorphAnalyzer.get_lexeme'])

P('C09', 'Normalization is coherent and idempotent',
  'The normalized form of an analysis is the first form of its lexeme, its word is the normal form of the analysis, and normalizing it again '
  'changes nothing. normal_forms(token) lists the distinct normal forms of the analyses in the order of the analyses. '
  '(Compounds with two inflected halves are left to another property.)',
  ['inputs'], 'all analyses of all tokens', 'tests list normal forms for fixed words',
  [A, L, N, H, U, AB, UN, S], [('normalized of the units', L), ('normalizer coroutines', N)],
  ['Parse.normalized', 'Parse.normal_form', 'MorphAnalyzer.normal_forms'])

P('C10', 'Inflection returns the closest form that has the requested grammemes',
  'inflect(grammemes) returns a form of the same lexeme which has all requested grammemes (after rare cases such as gen2, loc2 or voct are replaced '
  'by common ones if no form has the rare one), and None exactly when the lexeme has no such form. Among the candidates it is one closest to the tag that results '
  'from updating the original grammemes with the requested ones (closeness: the grammemes in common, less a tenth of those that only one of both has); inflecting to nothing (the empty set) keeps the grammemes. An unknown grammeme raises ValueError.',
  ['inputs'], 'all analyses times all sets of grammemes', 'the inflection tests are a table of about a hundred word/grammeme pairs',
  [A, T], [('MorphAnalyzer._inflect', A), ('updated_grammemes', T), ('fix_rare_cases', T)], ['Parse.inflect'])

P('C11', 'Numeral agreement',
  'Agreement with a number n depends only on its last two digits: n ending in 1 (not 11), in 2-4 (not 12-14), or other. Nouns in the nominative or '
  'accusative take sing nomn/accs, sing gent and plur gent respectively, nouns in other cases keep their case (sing for the first class, plur for the others); '
  'adjectives and participles in the nominative or accusative take sing nomn/accs, plur nomn (femn) or plur gent, and plur gent; other words are not changed. make_agree_with_number(n) is '
  'the inflection to those grammemes.',
  ['inputs'], 'all tags and all non-negative integers', 'tests use several words with numbers up to about 40',
  [T, A], [('numeral_agreement_grammemes', T)], ['OpencorporaTag.numeral_agreement_grammemes', 'Parse.make_agree_with_number'])

P('C12', 'Tags behave as immutable sets of grammemes',
  'A tag built from a tag string consists of exactly the grammemes written in it: membership, subset tests, category attributes (POS, case, number, ...), length, '
  'equality, hashing and order agree with that. Asking about or building from a grammeme which is unknown, or comparing an attribute with a value of '
  'another category, raises ValueError instead of returning False; copies and pickles of a tag are equal to it.',
  ['inputs'], 'all tags of the dictionary, all combinations of known grammemes, all strings as grammemes',
  'tests use a few tags', [T], [('OpencorporaTag', T), ('TypedGrammeme', T)], ['OpencorporaTag'])

P('C13', 'updated_grammemes removes exactly the incompatible grammemes',
  'Updating a tag with a set of grammemes adds all of them and removes exactly the grammemes which are incompatible with one of the added ones: '
  'siblings under the same parent category of the dictionary\'s grammeme tree (with their immediate children), and genders for plural; everything else is kept.',
  ['inputs', 'configurations'], 'all tags times all sets of known grammemes; all grammeme trees',
  'tests cover four examples', [T], [('updated_grammemes', T), ('_init_grammemes', T)], ['OpencorporaTag.updated_grammemes'])

P('C14', 'Latin and Cyrillic tag names translate back and forth',
  'lat2cyr of every tag string or grammeme gives, grammeme by grammeme and with the same separators, the alias from the dictionary (or the documented one for '
  'the grammemes of non-dictionary tokens), and cyr2lat inverts it; items that are not grammemes stay as they are. cyr_repr and grammemes_cyr of a tag agree with lat2cyr.',
  ['inputs'], 'all tags and sequences of grammemes', 'tests translate a few tags',
  [T, S, AB, UN], [('_translate_tag', T), ('add_grammemes_to_known', T)], ['MorphAnalyzer.lat2cyr', 'MorphAnalyzer.cyr2lat', 'OpencorporaTag.cyr_repr', 'OpencorporaTag.grammemes_cyr'])

P('C15', 'Numbers, punctuation, Latin and Roman tokens are recognised by shape, exactly',
  'A token is tagged NUMB,intg / NUMB,real exactly when it reads as an integer / decimal number (comma or point), PNCT exactly when it has nothing but '
  'punctuation characters, LATN exactly when it has letters and all of them are Latin, and ROMN (next to LATN) exactly when it is a well-formed Roman number up to 4999 in any case. '
  'Such tokens do not inflect: word and normal form are the lower-cased token and the lexeme is that one form.',
  ['inputs'], 'all tokens', 'tests have about twenty tokens', [S, SH], [('is_latin, is_punctuation, is_roman_number', SH), ('NumberAnalyzer.check_shape', S)],
  ['MorphAnalyzer.parse', 'pymorphy2.shapes'])

P('C16', 'restore_capitalization copies the letter case and nothing else',
  'restore_capitalization(word, example) returns the word with only its letter case changed: part by part (split at hyphens if the example has hyphens) it becomes lower, '
  'upper or title case if the corresponding part of the example is, and lower case otherwise or when the example has no corresponding part.',
  ['inputs'], 'all pairs of strings', 'doctests have six pairs', [SH], [('restore_capitalization', SH)], ['restore_capitalization'])

P('C17', 'Tokenization loses nothing but white space',
  'The tokens of simple_word_tokenize(text), in order, spell the text without its white space. Every token is either a maximal run of letters, digits, underscores and '
  'hyphens, or a single other character that is not white space.',
  ['inputs'], 'all texts', 'tests have four sentences', [TK], [('GROUPING_SPACE_REGEX', TK)], ['simple_word_tokenize'])

P('C18', 'A known prefix does not change the analysis of a word',
  'A token which is not analysed by earlier rules and starts with prefixes from the list of the language is analysed as what remains (at least three characters) is, for every such prefix: '
  'each productive analysis of the remainder, with the prefix added to word and normal form, same tag, and its score times 0.75 (analyses with the same word, tag and paradigm are listed once). Closed-class analyses (prepositions, conjunctions, '
  'pronouns, ...) of the remainder are dropped.',
  ['inputs'], 'all prefixes of the list times all words', 'tests have five prefixed words', [N, UU, RU], [('KnownPrefixAnalyzer', N)], ['MorphAnalyzer.parse'])

P('C19', 'Unknown words are predicted by ending or cut prefix, productive classes only',
  'For a word which no other rule handles, the analyses are those of the dictionary words that are left after cutting 1-5 letters from the start (at least three letters remain), and those '
  'of the longest ending (up to the length set in the dictionary) for which the prediction data have productive analyses, with scores proportional to their counts. '
  'No predicted analysis is of a closed class, and no cut prefix or ending gives the same word, tag and paradigm twice.',
  ['inputs', 'configurations'], 'all unknown words; all dictionaries', 'tests have about thirty unknown words', [N, UT, W],
  [('UnknownPrefixAnalyzer', N), ('KnownSuffixAnalyzer', N), ('word_splits', UT)], ['MorphAnalyzer.parse'])

P('C20', 'Hyphenated words are analysed through their parts',
  'A token with a particle of the language after a hyphen is analysed as the rest with the particle kept in word and normal form (analyses with the same word, tag and paradigm are listed once); "по-" plus an adjective form in the dative singular is an adverb; '
  'a token with exactly one hyphen between two parts (and no known prefix) gets, besides analyses of the second part with the first one fixed, an analysis for every pair of analyses of the parts that agree in part of speech, '
  'number, case, person and tense. Other tokens with hyphens are not handled by these rules.',
  ['inputs'], 'all hyphenated tokens', 'tests have about forty hyphenated words', [H], [('HyphenSeparatedParticleAnalyzer, HyphenAdverbAnalyzer, HyphenatedWordsAnalyzer', H)], ['MorphAnalyzer.parse'])

P('C21', 'Single capital letters are initials',
  'A token that is one of the configured capital letters gets, in addition to dictionary analyses, one analysis per gender and case as an abbreviated first name and as an abbreviated '
  'patronymic; any other token gets none. The lexeme of a first-name initial has the six cases of its gender, that of a patronymic all twelve, and normalization keeps the gender of first names.',
  ['inputs', 'configurations'], 'all tokens; all letter sets and tag patterns', 'tests use three letters', [AB], [('_InitialsAnalyzer', AB)], ['MorphAnalyzer.parse', 'Parse.lexeme', 'Parse.normalized'])

P('C22', 'Analyzer units form a pipeline of terminal groups',
  'With any list of units, parse and tag return the concatenated results of the units up to and including the first terminal one after which there are results (the last unit of a nested list is terminal, as is every unit '
  'outside of nested lists), and later units are not asked. The unit objects passed in are copied with all their parameters, so that one list can serve many analyzers and is never modified.',
  ['configurations', 'inputs'], 'all unit lists, unit parameters and tokens', 'tests use one custom pipeline', [A, U, N, H, S, AB], [('_init_units, parse, tag', A), ('clone / _get_params', U)],
  ['MorphAnalyzer(units=...)'])

P('C23', 'The result type changes the wrapping only',
  'With result_type=None the analyzer returns plain tuples which equal, field by field, the Parse tuples of the default analyzer, for parsing, lexemes and iteration over known words; with a custom Parse subclass the '
  'results (including lexeme and normalized) are instances of it bound to the analyzer that made them.',
  ['configurations', 'inputs'], 'all tokens; all result types', 'tests check one word', [A], [('_result_type', A)], ['MorphAnalyzer(result_type=...)'])

P('C24', 'Compiling a dictionary keeps its lexicon',
  'For every OpenCorpora XML dictionary, the compiled and loaded dictionary has exactly the (word form, grammemes, normal form) records of the source: lexemes are joined along links except link types 7, 21, 23 and 27, '
  'forms with Init are dropped, loc1/gen1/acc1 become loct/gent/accs, deleted and empty lexemes vanish. Apart from that tags may be respelled (order of grammemes) but one set of grammemes with the space at one place has one spelling, and spellings are kept if those of one set of grammemes all differ in the place of the space.',
  ['inputs', 'configurations'], 'all source dictionaries and compile options', 'tests compile one toy dictionary', [CO, PA, PP, ST], [('convert_to_pymorphy2', CO), ('simplify_tags', PP), ('parse_opencorpora_xml', PA)],
  ['pymorphy2.opencorpora_dict.convert_to_pymorphy2', 'MorphAnalyzer(path=...)'])

P('C25', 'Prediction data are the most frequent analyses of endings',
  'For every ending of length up to max_suffix_length (at least one letter, and at least as long as the inflectional suffix), the compiled prediction data list, per form prefix and part of speech, exactly the (paradigm, form) pairs with the '
  'highest count of dictionary forms with that ending. Only paradigms used by at least min_paradigm_popularity lexemes and forms with a non-empty stem are counted, and endings seen fewer than min_ending_freq times are left out.',
  ['inputs', 'configurations'], 'all source dictionaries and compile options', 'tests check two endings of the toy dictionary', [CO, UT], [('_suffixes_prediction_data', CO), ('largest_elements', UT)],
  ['prediction-suffixes files', 'MorphAnalyzer.parse of unknown words'])

P('C26', 'Saved dictionaries load as they were; metadata are true; formats are checked',
  'A compiled dictionary that is saved and loaded has the same tags, suffixes, paradigms and words; its metadata state language, source, version, revision, options and the true numbers of lexemes, links, tags, paradigms, suffixes, words and endings. '
  'Dictionaries of the same major format version (including older layouts without compile options) load; any other major version is rejected with ValueError. Without overwrite, an existing folder is left untouched.',
  ['inputs', 'configurations'], 'all dictionaries and format versions', 'tests check the metadata of one dictionary', [ST, CO, W], [('save_compiled_dict, load_dict, load_meta', ST), ('_create_out_path', CO)], ['dictionary folder', 'MorphAnalyzer.dictionary.meta'])

P('C27', 'Fast and pure-Python DAWG backends give the same results',
  'With the C++ DAWG extension and with the pure-Python fallback, every token gets the same analyses with the same scores, the same tags, known-word answers and lexemes, and prefix matchers return the same prefixes. '
  'Old-format dictionaries are read by the same rules.',
  ['configurations', 'inputs'], 'all tokens under both backends', 'the tests run separately under each backend', [D, A, N], [('PrefixMatcher, DAWG classes', D)], ['MorphAnalyzer.parse', 'pymorphy2.dawg'])

P('C28', 'P(tag|word) estimation counts the disambiguated corpus',
  'Adding probabilities to a dictionary stores, for every word that is ambiguous in the dictionary and seen disambiguated at least min_word_freq times, the Laplace-smoothed frequency of each of its tags (bins: the larger of the number of tags of the word and of distinct tags seen), '
  'unless all tags get the same value. Nothing else is stored, redundant cases count as common ones, UNKN is ignored, and the metadata record that the probabilities exist and how they were made.',
  ['inputs'], 'all corpora and dictionaries', 'the tests cannot run it (nltk is not installed) and check only the shipped file', [PR, D, ST], [('estimate_conditional_tag_probability, build_cpd_dawg', PR)], ['add_conditional_tag_probability', 'p_t_given_w.intdawg'])

P('C29', 'Pickling an analyzer or its tags keeps their behaviour',
  'Unpickling a pickled analyzer (any combination of path, language, result type, units, probability estimator and char_substitutes) gives an analyzer that analyses every token the same way. '
  'Tags survive pickling and copying unchanged.',
  ['configurations', 'inputs'], 'all constructor configurations, all tokens, all pickle protocols', 'tests pickle the default analyzer and parse one word', [A, T], [('MorphAnalyzer.__reduce__', A), ('OpencorporaTag.__reduce__', T)], ['pickle.dumps(MorphAnalyzer)'])

P('C30', 'Answers do not depend on what was asked before',
  'In any sequence of calls on an analyzer and on its results, each answer equals the one a fresh analyzer gives: queries have no effect on later ones, also when the caller changes the lists and sets it got or passed in.',
  ['histories'], 'all sequences of API calls', 'tests make single calls', [A, S, AB, SH, T, CA], [('seen sets are per call', A), ('caches hold immutable values', SH)], ['MorphAnalyzer'])

P('C31', 'One analyzer can be used, and others created, from many threads',
  'Under every interleaving of threads which parse, tag, inflect, look at tags and create analyzers, every answer equals the single-threaded one and no call fails.',
  ['schedules'], 'all interleavings of the API calls of a few threads', 'the tests run real threads without control over the schedule', [A, T, SH], [('MorphAnalyzer._lock', A), ('_init_grammemes replaces whole tables', T)], ['MorphAnalyzer', 'OpencorporaTag'])

P('C32', 'Analyzers with different dictionaries coexist',
  'Creating, using and dropping analyzers for other dictionaries, languages and configurations in the same process changes neither the analyses nor the tag operations of an existing analyzer.',
  ['histories', 'configurations'], 'all sequences of analyzer creations with different dictionaries', 'tests use one or two analyzers with the same dictionary', [T, ST, A, U], [('units are cloned and bound per analyzer', A), ('tag class is shared', T)], ['MorphAnalyzer', 'OpencorporaTag'])

P('C33', 'The command line prints what the API returns',
  '"pymorphy parse" writes one line per token of the input (tokenized, or one token per line with --tokenized): the token and, in braces, the analyses with the requested fields (normal form, score, tag), dropping those with a score below --thresh, in the order of the API, for the dictionary and language selected with --dict and --lang; with lemmas only, '
  'scores are summed per lemma. The size of the cache never changes the output.',
  ['inputs', 'configurations'], 'all texts and option combinations', 'tests run the CLI on a few sentences', [CL, CA, TK], [('_TokenParserFormatter', CL), ('memoized_with_single_argument, lru_cache', CA)], ['pymorphy parse'])

P('C34', 'Dictionary and language are chosen as documented',
  'The dictionary comes from the path argument, else from the environment variable PYMORPHY2_DICT_PATH, else from the installed package for the language (Russian by default; ValueError if there is none); the language is the argument, else Russian if there is no path argument, else what the dictionary declares, else Russian, and it selects the '
  'language rules (units, substitutions). A language that differs from the dictionary\'s gives a warning, not an error.',
  ['configurations'], 'all combinations of path, language, environment and declared language', 'tests cover several combinations', [A, 'pymorphy2/lang/__init__.py'], [('choose_dictionary_path, choose_language', A)], ['MorphAnalyzer(path, lang)'])

P('C35', 'XML dictionaries are read completely',
  'Parsing an OpenCorpora XML file returns its version and revision, all grammemes with parent, alias and description, all links in order, and for every lemma id its forms (lower-cased) with the lemma\'s grammemes before the form\'s; lemmas without content or without any grammeme become empty. '
  'Layout, attribute order, comments and unrelated elements do not matter.',
  ['inputs'], 'all well-formed OpenCorpora dictionaries', 'tests parse one toy file', [PA], [('parse_opencorpora_xml, get_dictionary_info', PA)], ['pymorphy2.opencorpora_dict.parse'])

P('C36', 'String and sequence helpers compute what they say',
  'longest_common_substring returns a longest string that occurs in all given ones; combinations_of_all_lengths yields every non-empty combination once; largest_elements keeps, in order, exactly the elements with one of the n largest keys; word_splits gives every split within the length limits; '
  'JSON files read back as written, with the options of json.dump that are given; the single-argument memoizer calls the function once per argument and returns its results.',
  ['inputs'], 'all arguments', 'doctests have a few examples', [UT, CA], [('longest_common_substring, largest_elements, word_splits', UT), ('memoized_with_single_argument', CA)], ['pymorphy2.utils', 'pymorphy2.cache'])

P('C37', 'Ukrainian follows its own language rules',
  'An analyzer for a Ukrainian dictionary uses the Ukrainian rules: г may stand for ґ (one way), Ukrainian initials, particles, known prefixes and paradigm prefixes, Roman and Latin tokens next to dictionary words, and no "по-" adverbs; otherwise it obeys the same analysis rules.',
  ['inputs', 'configurations'], 'all Ukrainian dictionaries and tokens', 'no Ukrainian dictionary is installed, so the tests skip it', [UK, 'pymorphy2/lang/uk/_prefixes.py', A], [('lang.uk config', UK)], ['MorphAnalyzer(lang="uk")'])

P('C38', 'Repeated compilation replaces a dictionary; an interrupted one leaves none',
  'A dictionary folder that is recompiled with overwrite gives exactly the new dictionary, whatever was there before (also probabilities of the old one are not applied to the new one). A compilation that is cut short at any point (the process is killed, an exception, a full disk) leaves the dictionary that was in the folder before, or a folder that fails to load, never one that loads with wrong, mixed or missing contents.',
  ['crash_points', 'fault_sequences'], 'all points at which writing the dictionary can fail; all pairs of dictionaries written to the same folder', 'tests compile into a fresh folder only', [ST, CO], [('meta.json is written last', ST)], ['convert_to_pymorphy2(overwrite=True)', 'MorphAnalyzer(path=...)'])

P('C39', 'Compounds of two inflected halves decline both of them',
  'For an analysis that joins an analysis of the first and one of the second half of a hyphenated word, the lexeme has one form for every form of the lexeme of the second half, in the same order: the form of the '
  'first half whose grammemes differ from those of the second half in the fewest grammemes (the first such form; gen1 and loc1 count as gent and loct, V-oy as V-ey), a hyphen and the form of the second half; normal forms are '
  'joined likewise and the tag is that of the first half. The normalized form is the first of these forms, all of them decline in the same way, and inflect returns the closest of them that has the requested grammemes, or None if there is none.',
  ['inputs', 'configurations'], 'all pairs of words that agree, known and predicted, also behind a prefix or before a particle; all dictionaries',
  'tests list the lexeme of three such compounds', [H, A], [('HyphenatedWordsAnalyzer._merge_lexemes / _align_lexeme_forms', H)], ['Parse.lexeme', 'Parse.normalized', 'Parse.inflect'])


P('C40', 'A call that fails or is interrupted leaves nothing behind',
  'A question, the creation of an analyzer or a compilation that ends with an exception, whether it has a reason (wrong arguments, a damaged dictionary, a unit or estimator of the user that raises) or comes out of nowhere (Ctrl-C, a timeout, no memory), passes that exception on to the caller (unless it gives the right answer) and leaves nothing behind: '
  'the same call made again, other questions to the same analyzer, existing analyzers, analyzers created later (also in other threads, also from the same folder after it is repaired) and later compilations give what they give if that call was never made.',
  ['inputs', 'fault_sequences', 'crash_points', 'histories'], 'all calls and all points at which an exception can be raised within them', 'tests check that a few wrong arguments raise an error',
  [A, T, ST, U, CO], [('MorphAnalyzer.__init__ under _lock', A), ('_init_grammemes', T), ('load_dict', ST), ('units keep no state of a word', U)], ['MorphAnalyzer', 'Parse', 'OpencorporaTag', 'convert_to_pymorphy2'])


LEVEL_NOTE = ('Searches generated cases only: a pass means that no counterexample was found among them. Trusts the independent model in /verif/pmv, '
              'the third-party DAWG libraries and the input domain stated in DESIGN.md.')
TECH = {
    'C01': 'property-based testing: generated tokens, invariants and reference model',
    'C02': 'property-based testing: metamorphic relation between tag() and parse()',
    'C26': 'property-based testing: save/load round trip of generated dictionaries',
    'C27': 'differential property-based testing of the two backends',
    'C30': 'stateful property-based testing against a reference model',
    'C31': 'generated schedules: preemption points chosen by the harness (sys.settrace)',
    'C32': 'stateful property-based testing over several analyzers',
    'C40': 'fault injection: exceptions raised at generated points of calls (sys.settrace), histories with failing calls',
    'C38': 'fault injection at generated points of dictionary writing',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None},
            }, ensure_ascii=False) + '\n')
    checks = []
    na = []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, 'pmv', 'checks', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'], 'quick_cmd': 'python3 run.py %s' % p['id'],
                'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                'technique': TECH.get(p['id'], 'property-based testing: generated inputs against an independent reference model'),
                'level': 'exploration', 'level_note': p['note'] or LEVEL_NOTE})
        else:
            na.append({'property': p['id'], 'reason': 'the check is not built yet'})
    manifest = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
                'notes': 'No hooks in /repo. run.py --replay FILE runs a recorded failure again.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()
