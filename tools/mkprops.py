"""The property list (writes properties.jsonl)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': ['src/' + f for f in files], 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'hook_needed': None}})


p('C01', 'Every reading of an ambiguous phrase is considered, once',
  'For a phrase whose tokens each carry a set of input classes, the enumeration lists exactly the sequences that take one class from each token in token order: every such sequence once, and nothing else. A phrase with a token that has no class has no reading; the empty phrase has one, the empty sequence.',
  ['inputs'], 'all token sequences and all class sets (fewer than 2^32 combinations)',
  'the tests enumerate one small phrase; the index arithmetic must be right for every number of tokens and every set size',
  ['token.cpp', 'token.h'], [('mixed radix index arithmetic', 'Token::enumerate'), ('i-th element of a set', 'Token::in')], ['Token::enumerate'])
p('C02', 'A reported match is a derivation of the grammar over the phrase',
  'Every match a search returns expands the start section through the rules of the loaded grammar into a list of leaf rules whose input classes, laid end to end, are one class of each token of the phrase in order, with nothing left over. The leaf rules are reported as they stand in the grammar, in order. Searching from a section that does not exist is refused with an error.',
  ['inputs', 'configurations'], 'all grammars (also recursive ones), start sections and phrases',
  'tests search a handful of phrases in one grammar; soundness is a statement about every derivation of every grammar',
  ['search.cpp', 'search.h', 'grammar.h'], [('leftmost expansion', 'Search::match, Search::matchNext'), ('prefix match of a leaf rule', 'Search::matchRule'), ('partial matches are dropped', 'Search::search')], ['Search::search'])
p('C03', 'Every derivation within the expansion limit is found, exactly once',
  'If the start section derives a reading of the phrase using no more nested section expansions than the number of tokens plus two, a search returns that derivation, and each derivation appears once for each reading it covers. The search always comes to an end, also for recursive grammars.',
  ['inputs', 'configurations'], 'all grammars, start sections and phrases',
  'tests check that some match is found; completeness and absence of repetition quantify over all derivations',
  ['search.cpp'], [('recursion limit of phrase size plus two', 'Search::search, Search::match'), ('all alternatives are tried', 'Search::match'), ('each intermediate result is continued once', 'Search::matchNext')], ['Search::search'])
p('C04', 'The best match is the one with the highest average rule score',
  'Among all matches of all alternative phrases, the best-match search returns one whose average rule score is the highest, together with that score, that number of rules and the text of that same match. If nothing matches the score is -1 and the result is empty.',
  ['inputs', 'configurations'], 'all grammars, phrases and lists of alternative phrases, all score values',
  'tests look at one best match; that no other match scores higher, and that score, rule count, text and tokens all belong to the same match, must hold for every set of candidates',
  ['search.cpp'], [('running maximum over matches', 'Search::searchAndReclassBest (one phrase)'), ('running maximum over phrases', 'Search::searchAndReclassBest (list of phrases)')], ['Search::searchAndReclassBest'])
p('C05', 'Applying a match tags every token with its matched class pair',
  'Applying a match to a phrase gives each token, in order, exactly the one input class and the output class that the matched rules assign to its position, and leaves its text alone. It reports failure, and never success, when the match has another number of positions than the phrase or assigns a class its token does not have; a match found by searching the phrase itself never fails.',
  ['inputs'], 'all phrases and all matches, fitting or not',
  'tests apply one match to one phrase',
  ['search.cpp', 'token.h'], [('position by position assignment', 'Search::reclassTokens'), ('text of a tagged phrase', 'Search::toString')], ['Search::reclassTokens', 'Search::searchAndReclassBest'])
p('C06', 'Standardized fields hold every tagged token once, in order',
  'A standardized address places the standard text of every token of the best match in the one field its output class names, in token order and separated by single blanks; ignored tokens are left out, unclassified ones go to the extra field, box and unit parts share one field each, and a field no token belongs to is absent. The pattern field is the text of the match. No match gives no result and no error.',
  ['inputs', 'configurations'], 'all addresses, lexicons and grammars',
  'no unit test covers the C interface; the routing must be right for each of the 20 output classes in any order and repetition',
  ['as_wrapper.cpp', 'address_standardizer.h'], [('switch over output classes, trim and copy', 'standardize_addr')], ['std_standardize', 'std_standardize_ptrs'])
p('C07', 'Parsing returns one record per token of every alternative phrase',
  'Parsing an address returns one record for each token of the tokenized address followed by those of every alternative phrase, in order: the pattern number counts phrases from zero, the sequence number counts records from zero, and the texts are the word, its input classes and its attachments. The reported number of records is the number of records returned.',
  ['inputs', 'configurations'], 'all addresses, lexicons and filters',
  'no unit test covers the C interface',
  ['as_wrapper.cpp', 'address_standardizer.h'], [('record filling loop', 'parse_addr')], ['std_parse_address', 'std_parse_address_ptrs'])
p('C08', 'A lexicon is a map from words to lists of distinct definitions',
  'After any history of insertions and removals, looking up a word yields exactly the definitions inserted for it and not removed since, in order of insertion and without repetition; other words are unaffected. The three regular expressions a lexicon offers always reflect its current content, however often and whenever they were asked for.',
  ['histories', 'inputs'], 'all sequences of insert, remove, find and expression requests',
  'tests run a few fixed sequences; stale caches and lost definitions show only after particular histories',
  ['lexicon.cpp', 'lexicon.h', 'lexentry.h'], [('copy, append, store back', 'Lexicon::insert'), ('erase first equal, drop empty keys', 'Lexicon::remove'), ('caches cleared on change', 'Lexicon::insert, Lexicon::remove'), ('cached expressions', 'Lexicon::regex, regexPrefixAtt, regexSuffixAtt')],
  ['Lexicon::find', 'Lexicon::regex'], [('lex_', 'word to definitions', 'lexicon.h'), ('regex_, regexPrefix_, regexSuffix_', 'cached expressions', 'lexicon.h')])
p('C09', 'Classification takes the lexicon first and the shape of the text second',
  'A token found in the lexicon receives all classes of all its definitions and is marked as known. A token that is not receives the classes its shape implies (number with its four and five digit variants, fraction, decimal with the comma turned into a point, postal code parts, word with its one and two letter variants, mixed, dash, ampersand, white space, punctuation and so on), or the given fallback when no shape applies; it always ends with at least one class.',
  ['inputs', 'configurations'], 'all texts, lexicons and fallback classes',
  'tests classify a few words; the order of the shape tests and the side effects on each branch must be right for every text',
  ['lexicon.cpp', 'token.h'], [('lexicon classes, then shape tests in order', 'Lexicon::classify')], ['Lexicon::classify'])
p('C10', 'The standard text comes from a definition of the matched class',
  'The standard text of a tagged token that has none yet is the standard word of the first definition of its text that carries the matched class; without such a definition, or when that standard word is empty, it is the text itself. Nothing else about the token changes.',
  ['inputs', 'configurations'], 'all tokens and lexicons',
  'tests standardize a few words',
  ['lexicon.cpp'], [('first definition with the class', 'Lexicon::standardize')], ['Lexicon::standardize'])
p('C11', 'Rules are read, checked, matched and joined faithfully',
  'A rule line is read as its input classes, its output classes and its score; a line whose two sides differ in length or whose score is not positive is refused. A rule matches a pattern exactly when its input classes are a prefix of it; joining two rules appends both sides and averages the scores.',
  ['inputs'], 'all rule lines, patterns and pairs of rules',
  'tests use a few rules',
  ['rule.cpp', 'rule.h'], [('state machine over words', 'Rule::Rule(line)'), ('validity', 'Rule::isValid'), ('prefix test', 'Rule::match'), ('join', 'Rule::concat')], ['Rule'])
p('C12', 'A grammar that loads has its sections as written and no loose ends',
  'Loading a grammar keeps each section under its name with its lines in order, skipping comments, blank lines and a leading byte order mark, and resolves every reference to the section of that name. A text with a missing referenced section, no start section, a repeated section name, a section mixing both kinds of lines, a line before the first section or an invalid rule is refused; an unreferenced section is only reported as a warning.',
  ['inputs', 'configurations'], 'all grammar texts',
  'tests load four grammars',
  ['grammar.cpp', 'grammar.h', 'metarule.cpp', 'metasection.h', 'rulesection.h'], [('line by line reader', 'Grammar::initialize'), ('reference resolution and checks', 'Grammar::updatePointers'), ('references of a line', 'MetaRule::MetaRule(line)')], ['Grammar::Grammar', 'Grammar::status', 'Grammar::issues'])
p('C13', 'Class names and class sets survive the trip through text',
  'Every input class, output class, attachment and language code has its own name, and reading that name gives it back; every set of classes or attachments written as text and read back is the same set, whatever the order, repetition or blanks in the list. Unknown names and codes give the bad-token class.',
  ['inputs'], 'all classes, all sets of them, all texts',
  'tests convert a few names; the tables hold over 150 names and any set may occur',
  ['inclass.cpp', 'outclass.cpp', 'inclass.h', 'outclass.h'], [('name tables', 'InClass::asString, asOneType, OutClass::asString, asType'), ('list reader and writer', 'InClass::asType, asAttachType, asString(set)')], ['InClass', 'OutClass'])
p('C14', 'UTF-8 text and code points convert into each other without loss',
  'Stepping through well-formed UTF-8 text visits every code point once, in order, each with its value, and stays inside the text; writing any code point below 0x110000 and reading it back gives it again, and larger values are refused.',
  ['inputs'], 'all code points and all well-formed UTF-8 texts',
  'no test decodes anything but a few letters; the bit arithmetic differs for each of the four lengths',
  ['utf8iterator.cpp', 'utf8iterator.h'], [('length from the first byte', 'Utf8Iterator::operator++'), ('value from the bytes', 'Utf8Iterator::CalculateCurrentCodePoint'), ('encoder', 'CodePointToUtf8')], ['Utf8Iterator', 'CodePointToUtf8'])
p('C15', 'The word expression of a lexicon matches its words literally',
  'The set of words added to a prefix tree is exactly the set it reports, whatever the order of addition, and its regular expression matches each of those words and nothing else, with every character that has a meaning in expressions taken literally.',
  ['inputs', 'histories'], 'all word sets and orders of addition',
  'tests build no tree with shared prefixes, prefixes of each other and special characters together',
  ['trieutf8.cpp', 'trieutf8.h', 'lexicon.cpp'], [('insertion', 'TrieUtf8::addWord'), ('membership', 'TrieUtf8::isWord, isPrefix, getWords'), ('expression', 'TrieUtf8::getRegexp'), ('quoting', 'TrieUtf8::quoteMeta')], ['TrieUtf8', 'Lexicon::regex'])
p('C16', 'The digest of a text is its MD5',
  'The digest computed for a text is the MD5 of RFC 1321 for texts of every length, also when the text is fed in pieces, and is written as 32 lower-case hexadecimal digits.',
  ['inputs'], 'all texts and all ways of cutting them',
  'no test compares a digest; padding differs at every length modulo 64',
  ['md5.cpp', 'md5.h'], [('rounds', 'MD5::transform'), ('buffering', 'MD5::update'), ('padding and length', 'MD5::finalize'), ('hexadecimal form', 'MD5::hexdigest')], ['md5', 'getMd5'])
p('C17', 'The query cache hands out the object built from the same texts',
  'For any history of requests in a query, a request for a lexicon and grammar text returns an object that was built from those very texts; at most four are kept, the oldest is given up for a fifth, and an object that is given up is freed exactly once and never handed out again.',
  ['histories', 'inputs'], 'all request histories',
  'nothing tests the cache; replacement happens only with five different configurations in a query',
  ['std_pg_hash.c'], [('lookup by digests', 'GetStdFromPortalCache, IsInStdPortalCache'), ('round-robin replacement', 'AddToStdPortalCache, DeleteNextSlotFromStdCache'), ('release', 'StdCacheDelete, std_free')], ['GetStdUsingFCInfo'], [('StdCache[4], NextSlot', 'cached objects and the next one to replace', 'std_pg_hash.c')])
p('C18', 'The database functions return the right column for every field',
  'The database functions hand each field of a standardized address to its own column, return one row per record numbered from one, and copy text arguments completely and terminated; every block of memory they are given is freed once and none is touched afterwards. An error text from loading is reported as an error by as_standardize and as_compile_lexicon; the two set functions return no rows for it.',
  ['inputs', 'histories'], 'all results, record counts and argument texts',
  'no test calls the database functions with a record inspected column by column',
  ['address_standardizer.c', 'std_pg_hash.c'], [('column array', 'as_standardize'), ('row loop', 'as_parse, as_match'), ('text copy', 'text2char'), ('release', 'stdaddr_free, tokens_free')], ['as_standardize', 'as_parse', 'as_match'])
p('C19', 'Filtering removes exactly the tokens of a filtered class',
  'Filtering a token sequence keeps, in order and unchanged, exactly the tokens none of whose classes is in the filter. Adding, removing, setting and clearing filter classes change the filter exactly so.',
  ['inputs', 'histories'], 'all token sequences and filters',
  'tests filter one address',
  ['tokenizer.cpp', 'tokenizer.h', 'token.cpp'], [('selection', 'Tokenizer::applyFilter'), ('set intersection', 'Token::isInClass'), ('filter edits', 'Tokenizer::filter, addFilter, removeFilter, clearFilter')], ['Tokenizer::applyFilter', 'Tokenizer::getTokens'])
p('C20', 'Alternative phrases split every combination of multi-word tokens',
  'For a phrase with k tokens of several words, the alternatives are the 2^k - 1 phrases in which some of those tokens, in every non-empty combination, are replaced in place by their words, each classified by the lexicon; every other token stays as it was, and a phrase without such tokens has no alternatives.',
  ['inputs', 'configurations'], 'all phrases with fewer than 31 multi-word tokens, all lexicons',
  'tests split one phrase',
  ['tokenizer.cpp'], [('bit pattern enumeration', 'Tokenizer::getAltTokens')], ['Tokenizer::getAltTokens'])
p('C21', 'Splitting a compound word loses and invents no letters',
  'A word split by its attached prefix or suffix, or a mixed word split between digits and letter, gives pieces that joined together are the word again; each piece is classified by the lexicon, and a word without such a part is not split.',
  ['inputs', 'configurations'], 'all words and lexicons',
  'tests split a few words; overlapping and touching parts need particular lexicons',
  ['tokenizer.cpp'], [('case analysis over prefix and suffix', 'Tokenizer::splitToken')], ['Tokenizer::splitToken'])
p('C22', 'A text is read into tokens in order and none of it is lost',
  'The normalized, upper-cased text is read from its start: each read takes a word, or a whole known phrase of the lexicon, and the separator after it, the next begins where it ended, and only white space before a word is passed over (in a text of several lines also the rest of a line that does not begin with a token). A word the lexicon knows is one token with the classes of its definitions, any other is one classified token or the pieces it splits into; a separator is one token. Reading goes on to the end of the text, or to a rest that does not begin with a token. Every token has a class, and exactly the tokens of a filtered class are left out. Reading a text leaves the lexicon and the filter as they were.',
  ['inputs', 'configurations'], 'all texts, lexicons and filters',
  'tests read a few addresses; the loop must keep its place for every sequence of words and separators and every lexicon',
  ['tokenizer.cpp', 'token.cpp'], [('search loop over the text', 'Tokenizer::getTokens'), ('white space trim', 'Token::trim')], ['Tokenizer::getTokens'])
p('C23', 'The list of matches is complete and sorted by score',
  'The match listing of an address holds one record for every match of every alternative phrase, each with its tagged text, its average rule score and its number of rules, in order of falling score; an address without a match has the single record that says so, with score and count -1. The reported number of records is the number returned.',
  ['inputs', 'configurations'], 'all addresses, lexicons and grammars',
  'no test lists matches',
  ['search.cpp', 'as_wrapper.cpp'], [('collection over phrases', 'Search::searchAndReclassAll'), ('sorting and copying', 'match_addr')], ['std_match_address', 'Search::searchAndReclassAll'])
p('C24', 'Interface calls either succeed or return nothing and an error text',
  'Every call of the C interface that cannot load its lexicon or grammar, or fails inside, returns nothing and sets an error text; no exception leaves the interface. A call that succeeds sets no error text.',
  ['inputs', 'fault_sequences'], 'all argument texts, valid or not',
  'no test calls the interface with invalid texts',
  ['as_wrapper.cpp'], [('catch all handlers', 'every function of as_wrapper.cpp')], ['std_standardize', 'std_parse_address', 'std_match_address', 'getLexiconPtr', 'getGrammarPtr'])
p('C25', 'A saved lexicon loads back as the same object',
  'Saving a lexicon to an archive and loading it back gives a lexicon with the same content: name, language, locale, words with all their definitions, expressions and digest. The archive of a lexicon text gives what the text gives wherever the text is accepted. An archive of an older version is refused with the request to compile the lexicon again.',
  ['inputs'], 'all lexicons and lexicon texts',
  'tests save nothing; a field left out or swapped shows only on the data it carries',
  ['lexicon.h', 'lexentry.h', 'lexicon.cpp', 'as_wrapper.cpp'], [('save and load lists', 'Lexicon::save, load'), ('serialize member', 'LexEntry::serialize'), ('version check', 'LEXICON_ARCHIVE_VERSION, Lexicon::load'), ('archive of a text', 'serialize_lexicon')], ['serialize_lexicon', 'getLexiconPtr'])
p('C26', 'Lexicon text loads to its entries and dumps back',
  'Loading a lexicon text sets language and locale from its header and inserts each entry line, normalized and in upper case when a locale is given, skipping a leading byte order mark; a text without header, with an entry before it, or with a line that is not an entry is refused. Writing an entry or a lexicon as text and reading it back gives the same content, when its words are as loading leaves them (one line, no tabs, in normal form).',
  ['inputs'], 'all lexicon texts and entries',
  'tests load a few files',
  ['lexicon.cpp', 'lexentry.cpp'], [('line by line reader', 'Lexicon::initialize'), ('field reader', 'LexEntry::LexEntry(line)'), ('writers', 'operator<<')], ['Lexicon', 'LexEntry'])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
