"""What each property is decided by."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cbmcrun
MATH = 'int and long values are mathematical integers; obligations are generated for unsigned subtraction, multiplication, shifts and division'
LIB = 'the C++ library operations behave as the model in tools/prelude.rs says (vector, string, set, map as sequences, sets and maps)'
PTR = 'section pointers are indices into the object\'s own section arrays; a copied grammar keeps pointing at equal sections'
FLT = 'floating point operations are uninterpreted functions'

MEM = 'memory suffices: calloc and strdup do not fail'
AX = 'axiom_scan, axiom_shapes, axiom_prefix, axiom_suffix, axiom_mixed: what the regular expression library is assumed to find (C22, C21, C09)'
LOADED = 'the lexicon and grammar handed over are in the state loading leaves them in (lex_inv, g_wf), an address has at most 31 tokens of several words'
ST = 'standardize_addr(ptr<int>,Grammar&,Lexicon&,ptr<int>,ptr<int>,ptr<ptr<int>>)'
SL = 'serialize_lexicon(ptr<int>,ptr<ptr<int>>)'
PA = 'parse_addr(ptr<int>,Lexicon&,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)'
MA = 'match_addr(ptr<int>,Grammar&,Lexicon&,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)'
IFACE = 'grammar inclass lexentry lexicon metarule metasection outclass rule rulesection search token tokenizer utils trieutf8 utf8iterator md5 as_wrapper'.split()
ENTRY = ['getGrammarPtr(ptr<int>,ptr<ptr<int>>)', 'getLexiconPtr(ptr<int>,ptr<ptr<int>>)', 'freeGrammarPtr(ptr<void>)', 'freeLexiconPtr(ptr<void>)', 'getGrammarMd5(ptr<void>)', 'getLexiconMd5(ptr<void>)', 'getMd5(ptr<int>)', 'std_parse_address(ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)', 'std_match_address(ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)', 'std_standardize(ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)', 'std_parse_address_ptrs(ptr<int>,ptr<void>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)', 'std_standardize_ptrs(ptr<int>,ptr<void>,ptr<void>,ptr<int>,ptr<int>,ptr<ptr<int>>)']
READ = {'name': 'reading', 'vcs': ['scan'], 'roots': ['Tokenizer::getTokens(string)', 'Tokenizer::getAltTokens(vector<Token>)', 'Tokenizer::filter(set<InClass::Type>)', 'Lexicon::standardize(Token&)', 'InClass::asType(string)', 'InClass::asString(set<InClass::Type>)', 'InClass::asString(set<InClass::AttachType>)'], 'tags': ['C06']}

PROPS = {
    'C01': {
        'modules': [{'name': 'enumerate', 'vcs': ['token'], 'roots': ['Token::enumerate(vector<Token>)'], 'tags': ['C01']}],
        'note': 'Every obligation of Token::enumerate, in and isInClass is discharged for all inputs; the enumeration theorems are lemmas over those contracts. Trusts the extraction and the library model.',
        'harness': 'c01.cpp', 'assumptions': [MATH, LIB, 'fewer than 2^32 combinations'],
    },
    'C02': {
        'modules': [{'name': 'search', 'vcs': ['search'], 'roots': ['Search::search(vector<Token>)'], 'tags': ['C02']}],
        'note': 'Every obligation of the search functions is discharged for all grammars and phrases; soundness is a lemma over their contracts. Trusts the extraction and the library model.',
        'harness': 'c02.cpp', 'assumptions': [MATH, LIB, PTR],
    },
    'C03': {
        'modules': [{'name': 'search', 'vcs': ['search'], 'roots': ['Search::search(vector<Token>)'], 'tags': ['C02', 'C03']}],
        'note': 'Every obligation of the search functions, termination included, is discharged for all grammars and phrases; completeness and uniqueness are lemmas over their contracts. Trusts the extraction and the library model.',
        'harness': 'c03.cpp', 'assumptions': [MATH, LIB, PTR],
    },
    'C04': {
        'modules': [{'name': 'reclass', 'vcs': ['reclass'], 'roots': ['Search::searchAndReclassBest(vector<vector<Token>>,float&,string&,float&)'], 'tags': ['C04']}],
        'note': 'Every obligation of both best-match searches and of what they call is discharged for all grammars and phrases; maximality is a lemma that uses the order axioms of floating point comparison.',
        'harness': 'c04.cpp', 'assumptions': [MATH, LIB, PTR, FLT, 'comparison of floats that are not NaN is a strict weak order and 0.0 > -1.0 (axiom_fgt, axiom_f_lits)', 'every average is above zero (rules with a score that is not positive are refused, C11)'],
    },
    'C05': {
        'modules': [{'name': 'reclass', 'vcs': ['reclass'], 'roots': ['Search::reclassTokens(vector<Token>&,SearchPath)', 'Search::searchAndReclassBest(vector<Token>,float&,string&,float&)'], 'tags': ['C05']}],
        'note': 'Every obligation of reclassTokens, toString and the search is discharged for all inputs; success exactly when the match fits, and that a match found by the search fits, are lemmas over the contracts.',
        'harness': 'c05.cpp', 'assumptions': [MATH, LIB, PTR],
    },
    'C06': {
        'modules': [
            {'name': 'interface', 'vcs': ['wrapper'], 'own': ['wrapper'], 'roots': [ST], 'tags': ['C06']},
            {'name': 'fields', 'vcs': ['wrapper'], 'own': ['wrapper'], 'roots': [PA], 'tags': ['C06', 'C06T']},
            READ, {'name': 'search', 'vcs': ['reclass'], 'roots': ['Search::searchAndReclassBest(vector<vector<Token>>,float&,string&,float&)'], 'tags': ['C06']}],
        'note': 'The contract of standardize_addr and of everything under it (reading, alternatives, search, retagging, standard words) is discharged for all addresses, lexicons, grammars and faults: the result is a function of the best match. That every word is in one field, in order, with single blanks, is proved by lemmas over that contract.',
        'harness': 'c06.cpp', 'srcs': IFACE, 'assumptions': [MATH, LIB, PTR, FLT, MEM, AX, '-1.0 and -2.0 are below zero (axiom_below)', LOADED],
    },
    'C07': {
        'modules': [{'name': 'interface', 'vcs': ['wrapper'], 'own': ['wrapper'], 'roots': [PA], 'tags': ['C07']}, READ],
        'note': 'The contract of parse_addr and of everything under it is discharged for all addresses, lexicons, filters and faults: the records are those of all phrases in order. Which phrase and token a record is of, and that there is no other record, are lemmas over it.',
        'harness': 'c07.cpp', 'srcs': IFACE, 'assumptions': [MATH, LIB, MEM, AX, LOADED],
    },
    'C23': {
        'modules': [
            {'name': 'interface', 'vcs': ['wrapper'], 'own': ['wrapper'], 'roots': [MA], 'tags': ['C23']},
            READ, {'name': 'search', 'vcs': ['reclass'], 'roots': ['Search::searchAndReclassAll(vector<vector<Token>>)'], 'tags': ['C23']}],
        'note': 'The contract of match_addr and of everything under it is discharged for all addresses, lexicons, grammars and faults: the records are those of every match of every phrase, sorted. Completeness, order and the single record of an address without a match are lemmas over it.',
        'harness': 'c23.cpp', 'srcs': IFACE, 'assumptions': [MATH, LIB, PTR, FLT, MEM, AX, 'std::sort sorts by a strict weak order', 'no average score is NaN (scores that are not numbers are refused, C11); comparison of such numbers is a strict weak order (axiom_fgt)', LOADED],
    },
    'C08': {
        'modules': [{'name': 'lexicon', 'vcs': ['lexicon'], 'roots': ['Lexicon::find(string)', 'Lexicon::insert(LexEntry)', 'Lexicon::remove(LexEntry)', 'Lexicon::regex()', 'Lexicon::regexPrefixAtt()', 'Lexicon::regexSuffixAtt()'], 'tags': ['C08']}],
        'note': 'Every obligation of lookup, insertion, removal and the three expression functions, and of the prefix tree under them, is discharged for all lexica and definitions; that a history of any length leaves exactly the definitions inserted and not removed since, in order, is an induction over those contracts. An expression is proved to be the written form of an expression whose language is the set of words now in the lexicon; how the expression library reads it is assumed.',
        'harness': 'c08.cpp', 'assumptions': [MATH, LIB, 'words are well-formed UTF-8', 'the regular expression library reads \\x, [..], (?:..|..) and ? as usual'],
    },
    'C09': {
        'modules': [{'name': 'classify', 'vcs': ['classify'], 'roots': ['Lexicon::classify(Token&,InClass::Type)'], 'tags': ['C09']}],
        'note': 'The contract of the classifier is discharged for all lexica, tokens and well-formed texts: the classes of all definitions and the mark, or the classes of the shape, or the fallback. Shapes are predicates on the code points of the text; how the expression library reads the eleven expressions of the classifier is assumed (axiom_shapes) and exercised by the harness against shapes written without expressions.',
        'harness': 'c09.cpp', 'assumptions': [MATH, LIB, 'axiom_shapes: the regular expression library reads the eleven expressions of the classifier as the shapes they spell', 'texts are well-formed UTF-8'],
    },
    'C10': {
        'modules': [{'name': 'standardize', 'vcs': ['classify'], 'roots': ['Lexicon::standardize(Token&)'], 'tags': ['C10']}],
        'note': 'The contract of standardize is discharged for all lexica and all tokens with at least one class; the three cases of the property are lemmas over it.',
        'harness': 'c10.cpp', 'assumptions': [MATH, LIB],
    },
    'C11': {
        'modules': [{'name': 'rule', 'vcs': ['rule'], 'roots': None}, {'name': 'ruleread', 'vcs': ['ruleread'], 'roots': ['Rule::Rule(string)'], 'tags': ['C11']}],
        'note': 'Contracts of the rule reader, of isValid and of the other rule functions discharged for all texts: a rule is accepted exactly when valid, and reads as the words of its line; the theorems are lemmas over those contracts. The float parsing of the score is an uninterpreted function.',
        'harness': 'c11.cpp', 'assumptions': [MATH, LIB, FLT],
    },
    'C12': {
        'modules': [{'name': 'grammar', 'vcs': ['grammar'], 'roots': ['Grammar::initialize(stream&)', 'Grammar::updatePointers()', 'MetaRule::MetaRule(string)'], 'tags': ['C12']}],
        'note': 'Every obligation of the grammar loader, of the reference resolver and of both line readers is discharged for all texts: when a text is refused and what a text loads to is a function of its lines. That names are unique, references resolved, the start section present and a status given are lemmas over those contracts. How the expression library reads the expressions of the loader is assumed (axiom_lines, axiom_ref) and exercised by the harness against line kinds written without expressions.',
        'harness': 'c12.cpp', 'assumptions': [MATH, LIB, PTR, FLT, 'axiom_lines, axiom_ref: the regular expression library finds comments, headers and references as functions of the line', 'md5 is a pure function of its argument (C16)', 'a std::string is shorter than 2^64 - 2 bytes'],
    },
    'C13': {
        'modules': [{'name': 'classes', 'vcs': ['classes'], 'roots': None, 'tags': ['C13']}, {'name': 'languages', 'vcs': ['lang'], 'roots': None, 'tags': ['C13']}],
        'note': 'Contracts of all name functions and the set readers and writers discharged for all inputs; the round trips are lemmas over them.',
        'harness': 'c13.cpp', 'assumptions': [MATH, LIB],
    },
    'C14': {
        'modules': [{'name': 'utf8', 'vcs': ['utf8'], 'roots': None, 'tags': ['C14']}],
        'note': 'Contracts of the encoder, the decoder and every iterator step discharged for all inputs, bit operations by bit-vector lemmas; round trip, forward and backward stepping over any well-formed text are lemmas over them.',
        'harness': 'c14.cpp', 'assumptions': [MATH, LIB, 'char is a signed byte (x86-64)'],
    },
    'C15': {
        'modules': [{'name': 'trie', 'vcs': ['trie', 'utf8'], 'roots': None, 'tags': ['C15']}],
        'note': 'Every obligation of the prefix tree, recursion and termination included, and of the code point functions under it is discharged for all trees and all well-formed words. The expression is proved to be the written form of an expression whose language is the set of words; that the regular expression library reads the written form that way (escape, class, group, option) is assumed and exercised by the harness.',
        'harness': 'c15.cpp', 'assumptions': [MATH, LIB, 'words are well-formed UTF-8', 'the regular expression library reads \\x, [..], (?:..|..) and ? as usual'],
    },
    'C19': {
        'modules': [{'name': 'filter', 'vcs': ['tokenize'], 'roots': ['Tokenizer::applyFilter(vector<Token>)', 'Tokenizer::filter(set<InClass::Type>)', 'Tokenizer::filter()', 'Tokenizer::addFilter(InClass::Type)', 'Tokenizer::removeFilter(InClass::Type)', 'Tokenizer::clearFilter()'], 'tags': ['C19']}],
        'note': 'Contracts of the filter and of the four ways to change it discharged for all token sequences; order, completeness and the effect of any history of changes are lemmas over them.',
        'harness': 'c19.cpp', 'assumptions': [MATH, LIB],
    },
    'C20': {
        'modules': [{'name': 'alternatives', 'vcs': ['tokenize'], 'roots': ['Tokenizer::getAltTokens(vector<Token>)'], 'tags': ['C20']}],
        'note': 'The contract of getAltTokens and of the token reader and classifier under it is discharged for all phrases with at most 31 tokens of several words; that the alternatives are exactly the non-empty choices, each once, is proved from the bits of the running number.',
        'harness': 'c20.cpp', 'assumptions': [MATH, LIB, 'texts are well-formed UTF-8', 'axiom_shapes (see C09)'],
    },
    'C21': {
        'modules': [{'name': 'split', 'vcs': ['tokenize'], 'roots': ['Tokenizer::splitToken(Token)'], 'tags': ['C21']}],
        'note': 'The contract of splitToken and of the lexicon functions under it is discharged for all words and lexicons; that the pieces are the word, when a word is split and where a mixed word is cut are lemmas over it. How the expression library reads the two expressions built from the attached words, and the two replacements for mixed words, is assumed (axiom_prefix, axiom_suffix, axiom_mixed) and exercised by the harness against cuts found without expressions.',
        'harness': 'c21.cpp', 'assumptions': [MATH, LIB, 'texts are well-formed UTF-8', 'axiom_prefix, axiom_suffix, axiom_mixed: the regular expression library reads the four expressions of splitToken as the cuts they spell and does not give up on them', 'axiom_shapes (see C09)', 'the lexicon of a tokenizer is not changed by someone else during a call'],
    },
    'C22': {
        'modules': [{'name': 'scan', 'vcs': ['scan'], 'roots': ['Tokenizer::getTokens(string)'], 'tags': ['C22']}],
        'note': 'The contract of getTokens, of the trimming of a token and of everything under them (token reader, classifier, splitter, filter, lexicon expressions) is discharged for all texts, lexicons and filters, termination included: the tokens are those of the matches the expression library finds one after another. That nothing but white space is passed over, that known words stay whole and that reading goes on to the end or to a rest without a token are lemmas over it. What the library finds is assumed only in shape (axiom_scan: white space, word, separator, adjoining, at whole characters); the harness compares the tokens with a reader written without expressions.',
        'harness': 'c22.cpp', 'assumptions': [MATH, LIB, 'axiom_scan: a match of the token expression starts with white space at the start of the text or of a later line, then the word, then the separator, adjoining and at whole characters, and is not empty while there is text; the search does not give up', 'Utils::normalizeUTF8 and Utils::upperCaseUTF8 are pure functions that give well-formed text shorter than 2^62 bytes (trusted contracts)', 'axiom_prefix, axiom_suffix, axiom_mixed, axiom_shapes (see C21, C09)', 'the lexicon of a tokenizer is not changed by someone else during a call'],
    },
    'C24': {
        'modules': [
            {'name': 'entry', 'vcs': ['entry'], 'own': ['entry'], 'roots': ENTRY, 'tags': ['C24', 'C06', 'C23']},
            {'name': 'standardize', 'vcs': ['wrapper'], 'own': ['wrapper'], 'roots': [ST], 'tags': ['C06']},
            {'name': 'list', 'vcs': ['wrapper'], 'own': ['wrapper'], 'roots': [PA, MA], 'tags': ['C06', 'C23']},
            {'name': 'archive', 'vcs': ['archive'], 'own': ['archive'], 'roots': ['Lexicon::Lexicon(string,stream&)', SL], 'tags': ['C25']},
            {'name': 'grammar', 'vcs': ['grammar'], 'roots': ['Grammar::initialize(stream&)'], 'tags': ['C24']},
            {'name': 'lexicon', 'vcs': ['lexload'], 'roots': ['Lexicon::initialize(stream&)'], 'tags': ['C24']}],
        'proved_by': ['C06', 'C15', 'C22', 'C23', 'C25'],
        'note': 'The contracts of the functions of the interface are discharged for all texts and for exceptions of any kind thrown at any statement: what fails gives nothing and an error text, nothing is thrown, and what succeeds gives the result of the loaded lexicon and grammar and no error text. A grammar that loads is proved to be in the state the search needs.',
        'harness': 'c24.cpp', 'srcs': IFACE, 'assumptions': [MATH, LIB, PTR, FLT, 'strdup and calloc do not fail', 'reading an archive is an uninterpreted function of the text (C25 says what it gives for a lexicon saved here); the lexicon an archive loads to is in order (lex_inv; of a text it is proved)', 'an address has at most 31 tokens of several words'],
    },
    'C25': {
        'modules': [
            {'name': 'archive', 'vcs': ['archive'], 'own': ['archive'], 'roots': ['LexEntry::serialize(archive&,int)', 'Lexicon::load(archive&,int)', 'Lexicon::save(archive&,int)', 'Lexicon::Lexicon(string,stream&)', SL], 'tags': ['C25']},
            {'name': 'lexicon', 'vcs': ['lexload'], 'roots': ['Lexicon::initialize(stream&)'], 'tags': ['C25']}],
        'proved_by': ['C15', 'C24'],
        'note': 'The save, load and serialize members and serialize_lexicon meet contracts that say item by item what goes into the archive and what is taken out of it, for all lexicons, texts and faults; that a saved entry and a saved lexicon load back as they were, and that an older version is refused, are lemmas over those contracts. The class version is the one the compiler computes. What the boost library does with a text, a number, a set of codes and a container is assumed. Grammars: nothing in the repository saves one, and their archive members do not compile for loading.',
        'harness': 'c25.cpp', 'srcs': IFACE, 'assumptions': [MATH, LIB, MEM, 'boost archives: a text, a number and a set of codes load back as saved; a map of lists of entries does if entries do; an object is saved and loaded by its own members at the version of its class; a text archive opens as the archive it was written from (axiom_text_back, axiom_number_back, axiom_codes_back, axiom_words_back, axiom_opened, axiom_object in contracts/archive.vc)', 'the result of normal form and upper case is UTF-8 (axiom_well_formed)'],
    },
    'C26': {
        'modules': [{'name': 'lexload', 'vcs': ['lexload'], 'roots': ['Lexicon::initialize(stream&)', 'operator<<(stream&,Lexicon)', 'operator<<(stream&,LexEntry)'], 'tags': ['C13', 'C26']}],
        'note': 'Every obligation of the loader, of the entry reader and of both writers is discharged for all texts: when a text is refused and what a text loads to is a function of the text. That an entry, and a whole lexicon, written and read is the same, that a byte order mark is skipped and that an early entry is refused are lemmas over those contracts. Normal form, upper case and digest are uninterpreted functions of the text (Unicode library).',
        'harness': 'c26.cpp', 'assumptions': [MATH, LIB, 'Utils::normalizeUTF8, Utils::upperCaseUTF8 and md5 are pure functions of their arguments (trusted contracts; md5 itself is C16)', 'a number in decimal form has no tab and no newline', 'a std::string is shorter than 2^64 - 2 bytes'],
    },
}

try:
    PGI = subprocess.check_output(['pg_config', '--includedir-server']).decode().strip()
except (OSError, subprocess.CalledProcessError):
    PGI = '/usr/include/postgresql/16/server'
PGC = ['-I', PGI, '-DPGSQL_VERSION=1615']
CBMC = 'contract-based deductive verification (CBMC, goto-instrument --dfcc code contracts) of the unmodified C file; harness over the real code for witnesses'
PROPS['C17'] = {
    'extra': lambda repo, work, tier: cbmcrun.run('cache', repo, work, tier),
    'technique': CBMC,
    'note': 'The contracts of the lookup, the creation of an object, the addition to the cache, the cache of a call and the request are enforced on the unmodified std_pg_hash.c for every state in which the invariant of the cache holds (each slot empty, or an object with the digests of the texts it was made from, under a live context whose deletion frees it), every next slot, all texts and digests and any failure to load. The invariant holds of a new cache and is kept by every request, so it holds after every history. Loops run over the four slots and are unrolled completely; the addition is used by contract in the request.',
    'harness': 'c17.cpp', 'srcs': ['std_pg_hash.c', 'md5'], 'hsrcs': ['pg.c'], 'cflags': PGC,
    'assumptions': ['equal digests mean equal texts (MD5, C16)', 'memory suffices, and getMd5 gives a digest of 32 characters', 'the PostgreSQL functions behave as modelled in cbmc/cache.c: deleting a context runs its callback and takes its memory; an error does not return', 'at the end of a query the server deletes the contexts under the one the cache lives in', 'a context is not made at the address of one that lives'],
}
PROPS['C18'] = {
    'extra': lambda repo, work, tier: cbmcrun.run('functions', repo, work, tier),
    'technique': CBMC,
    'note': 'The contracts of the text copy, the release of a result and the four database functions are enforced on the unmodified address_standardizer.c, the copy for texts of every size, the rows for every combination of fields and every content of the record that is due in a set of any number of records (up to a million). Bounded, not proved: giving up the records at the end of a set is checked for sets of 0 to 3 records. The text arguments of the database functions and the fields are one arbitrary character each: the functions only hand them on, and the copy is proved for all sizes.',
    'harness': 'c18.cpp', 'srcs': ['address_standardizer.c', 'std_pg_hash.c', 'md5'], 'hsrcs': ['pg.c'], 'cflags': PGC + ['-Dfree=vh_free'],
    'assumptions': ['memory suffices, and the server and the library behave as modelled in cbmc/functions.c (the library as its contracts say: C24)', 'texts are shorter than 1 GB (the limit of the server); a record number is below 2^30', 'bounded: giving up the records of a set of at most 3 records'],
}
NOT_APPLICABLE = {'C16': 'not claimed: the rounds and the buffering of md5.cpp are not under contract; elsewhere the digest is an uninterpreted function of the text'}
