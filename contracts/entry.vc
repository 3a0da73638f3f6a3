@@uses wrapper grammar lexload
@@spec C24
// ---- what a grammar text loads to --------------------------------------------------------------
pub open spec fn loads_grammar(text: Str) -> bool { grammar_of(lines_left(stream_of(text))) is Some }
// g is what the text loads to
pub open spec fn grammar_from(g: Grammar, text: Str) -> bool {
    let p = grammar_of(lines_left(stream_of(text)))->0;
    &&& loads_grammar(text)
    &&& g.metas_ == link_metas(as_grammar(p), p.metas.len() as int) && g.rules_ == p.rules && g.sectionIndex_ == p.index
    &&& g.md5_ == md5_of(all_text(lines_left(stream_of(text))))
}
@@end
@@spec C24 C25
// ---- what a lexicon text loads to: an archive if it is one, the lines of the text if not ----------
pub open spec fn blank() -> Lexicon {
    Lexicon { name_: none(), lang_: -1, locale_: none(), lex_: Map::<Str, Seq<LexEntry>>::empty(), regex_: none(), regexPrefix_: none(), regexSuffix_: none(), md5_: none() }
}
pub open spec fn unpacked(text: Str) -> (Exc<bool>, Lexicon) {
    let o = archive_opened(stream_of(text)).0;
    if o is Threw { (Exc::Threw { msg: o->msg, kind: o->kind }, blank()) } else { let g = archive_got(o->val, blank()); (g.0, g.2) }
}
pub proof fn lemma_in_order(a: Lexicon, l: Lexicon) requires lex_inv(a), l == (Lexicon { name_: l.name_, ..a }) ensures lex_inv(l), lex_shape(l.lex_) { }
pub open spec fn outdated(e: Exc<bool>) -> bool { e is Threw && e->kind <= 0 && e->msg == #"Re-compile-lexicon" }
pub open spec fn from_lines(text: Str) -> Option<Loaded> { loaded(stream_of(text), unpacked(text).1.lex_, unpacked(text).1.locale_) }
pub open spec fn loads_lexicon(text: Str) -> bool { unpacked(text).0 is Val || (!outdated(unpacked(text).0) && from_lines(text) is Some) }
// l is what the text loads to
pub open spec fn lexicon_from(l: Lexicon, text: Str) -> bool {
    &&& loads_lexicon(text)
    &&& unpacked(text).0 is Val ==> l == unpacked(text).1
    &&& unpacked(text).0 is Threw ==> l.name_ == #"query-lex" && l.lang_ == from_lines(text)->0.lang && l.locale_ == from_lines(text)->0.locale && l.lex_ == from_lines(text)->0.words && l.md5_ == md5_of(text_left(stream_of(text)))
    &&& lex_inv(unpacked(text).1) ==> lex_inv(l)
}
// an archive that cannot be read to its end leaves a lexicon in order (no archive at all leaves the new one, which is)
pub open spec fn unpacks(text: Str) -> bool { unpacked(text).0 is Threw ==> lex_inv(unpacked(text).1) }
@@end
@@spec C24
// within the limits of the enumerations, whatever the texts load to
pub open spec fn fit_lexicon(text: Str, address: Str, locale: Str, filter: Str) -> bool { lex_inv(unpacked(text).1) && forall|l: Lexicon| #[trigger] lexicon_from(l, text) ==> within(l, address, locale, filter) }
// a grammar that loads is sound: its references lead to sections, its rules are balanced, it has the start section
pub proof fn C24_a_loaded_grammar_is_sound(g: Grammar, text: Str)
    requires grammar_from(g, text)
    ensures g_wf(as_search(g)), has_start(as_search(g))
{
    lits();
    let ls = lines_left(stream_of(text)); let p = grammar_of(ls)->0; let a = as_grammar(p); let m = g.metas_;
    C12_no_loose_ends(ls);
    assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].rules_.len() implies refs_ok(as_search(g), (#[trigger] m[i].rules_[j]).refs_) by {
        assert forall|k: int| 0 <= k < m[i].rules_[j].refs_.len() implies ref_ok(as_search(g), #[trigger] m[i].rules_[j].refs_[k]) by { }
    }
    assert forall|s: Str| g.sectionIndex_.dom().contains(s) implies 0 <= #[trigger] g.sectionIndex_[s] by { assert(a.sectionIndex_.dom().contains(s)); }
    let n = #"ADDRESS";
    assert(is_meta(a, n, a.sectionIndex_[n]) || is_rules(a, n, a.sectionIndex_[n]));
}
pub open spec fn fit_best(ltext: Str, address: Str, locale: Str, filter: Str) -> bool {
    forall|l: Lexicon, ps: Seq<Seq<Token>>| #[trigger] lexicon_from(l, ltext) && #[trigger] phrases_of(l, address, locale, filter, ps) ==> all_enum_ok(ps)
}
pub open spec fn fit_all(gtext: Str, ltext: Str, address: Str, locale: Str, filter: Str) -> bool {
    forall|g: Grammar, l: Lexicon, ps: Seq<Seq<Token>>| #[trigger] grammar_from(g, gtext) && #[trigger] lexicon_from(l, ltext) && #[trigger] phrases_of(l, address, locale, filter, ps) ==> searchable(g, ps)
}
@@end
@@fn Grammar::Grammar(stream&)
params: is
opt: throws
requires $is.rest.len() < npos(),
ensures
    $throws <==> grammar_of(lines_left($is)) is None,
    !$throws ==> ({
        let p = grammar_of(lines_left($is))->0;
        &&& $ret.metas_ == link_metas(as_grammar(p), p.metas.len() as int) && $ret.rules_ == p.rules && $ret.sectionIndex_ == p.index
        &&& noted($ret, status_if(true, all_used_in(as_grammar(p))))
        &&& $ret.md5_ == md5_of(all_text(lines_left($is)))
    }),
@@end
@@fn getGrammarPtr(ptr<int>,ptr<ptr<int>>)
params: grammar err
opt: faults
requires $grammar is Some, $grammar->0.len() < npos(),
ensures
    !$throws,
    $fault || !loads_grammar($grammar->0) ==> $ret is Null && $err' is Some,
    !$fault && loads_grammar($grammar->0) ==> $err' == $err && handle_Grammar($ret) is Some && grammar_from(handle_Grammar($ret)->0, $grammar->0),
@@end
@@fn getLexiconPtr(ptr<int>,ptr<ptr<int>>)
params: lexicon err
opt: faults
requires $lexicon is Some, unpacks($lexicon->0),
ensures
    !$throws,
    $fault || !loads_lexicon($lexicon->0) ==> $ret is Null && $err' is Some,
    !$fault && loads_lexicon($lexicon->0) ==> $err' == $err && handle_Lexicon($ret) is Some && lexicon_from(handle_Lexicon($ret)->0, $lexicon->0),
@@end
@@fn std_parse_address(ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address lextext locale filter nrec err
vars: lexicon Lexicon
opt: faults
opt: hide lex_inv within phrases_of lexicon_from
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1, $lextext is Some,
    fit_lexicon($lextext->0, $address->0, $locale->0, $filter->0),
ensures
    !$throws,
    $fault || !loads_lexicon($lextext->0) ==> $ret is None && $err' is Some,
    !$fault && loads_lexicon($lextext->0) ==> $ret is Some && $err' is None,
    !$fault && loads_lexicon($lextext->0) ==> exists|l: Lexicon, ps: Seq<Seq<Token>>| #[trigger] lexicon_from(l, $lextext->0) && #[trigger] phrases_of(l, $address->0, $locale->0, $filter->0, ps) && $ret->0 == rows(ps, ps.len() as int) && $nrec' == $ret->0.len(),
@@atcall initialize
lemma_in_order(unpacked($$lextext->0).1, $lexicon);
@@atcall parse_addr
assert(lexicon_from($lexicon, $$lextext->0)) by { reveal(lexicon_from); };
@@end
@@fn std_match_address(ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address gtext lextext locale filter nrec err
vars: lexicon Lexicon; grammar Grammar
opt: faults
opt: hide lex_inv within phrases_of lexicon_from searchable listing g_wf has_start
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1, $lextext is Some, $gtext is Some,
    fit_lexicon($lextext->0, $address->0, $locale->0, $filter->0), $gtext->0.len() < npos(),
    fit_all($gtext->0, $lextext->0, $address->0, $locale->0, $filter->0),
ensures
    !$throws,
    $fault || !loads_lexicon($lextext->0) || !loads_grammar($gtext->0) ==> $ret is None && $err' is Some,
    !$fault && loads_lexicon($lextext->0) && loads_grammar($gtext->0) ==> $ret is Some && $err' is None && $nrec' == $ret->0.len(),
    !$fault && loads_lexicon($lextext->0) && loads_grammar($gtext->0) ==> exists|g: Grammar, l: Lexicon, ps: Seq<Seq<Token>>, ss: Seq<MatchResult>| #[trigger] grammar_from(g, $gtext->0) && #[trigger] lexicon_from(l, $lextext->0) && #[trigger] phrases_of(l, $address->0, $locale->0, $filter->0, ps) && #[trigger] listing(g, ps, ss) && $ret->0 == shown_matches(ss),
@@atcall initialize
lemma_in_order(unpacked($$lextext->0).1, $lexicon);
@@atcall match_addr
assert(lexicon_from($lexicon, $$lextext->0)) by { reveal(lexicon_from); };
assert(grammar_from($grammar, $$gtext->0));
C24_a_loaded_grammar_is_sound($grammar, $$gtext->0);
@@end
@@fn std_standardize(ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address gtext lextext locale filter err
vars: lexicon Lexicon; grammar Grammar
opt: faults
opt: hide lex_inv within phrases_of lexicon_from g_wf has_start all_enum_ok answer
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1, $lextext is Some, $gtext is Some,
    fit_lexicon($lextext->0, $address->0, $locale->0, $filter->0), $gtext->0.len() < npos(),
    fit_best($lextext->0, $address->0, $locale->0, $filter->0),
ensures
    !$throws,
    $fault || !loads_lexicon($lextext->0) || !loads_grammar($gtext->0) ==> $ret is None && $err' is Some,
    !$fault && loads_lexicon($lextext->0) && loads_grammar($gtext->0) ==> $err' is None && exists|g: Grammar, l: Lexicon, ps: Seq<Seq<Token>>| #[trigger] grammar_from(g, $gtext->0) && #[trigger] lexicon_from(l, $lextext->0) && #[trigger] phrases_of(l, $address->0, $locale->0, $filter->0, ps) && $ret == answer(g, l, ps),
@@atcall initialize
lemma_in_order(unpacked($$lextext->0).1, $lexicon);
@@atcall standardize_addr
assert(lexicon_from($lexicon, $$lextext->0)) by { reveal(lexicon_from); };
assert(grammar_from($grammar, $$gtext->0));
C24_a_loaded_grammar_is_sound($grammar, $$gtext->0);
@@end
@@fn std_parse_address_ptrs(ptr<int>,ptr<void>,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address lexicon locale filter nrec err
opt: faults
opt: hide lex_inv within phrases_of
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1,
    handle_Lexicon($lexicon) is Some, lex_inv(handle_Lexicon($lexicon)->0), within(handle_Lexicon($lexicon)->0, $address->0, $locale->0, $filter->0),
ensures
    !$throws,
    $fault ==> $ret is None && $err' is Some,
    !$fault ==> $ret is Some && $err' is None,
    !$fault ==> exists|ps: Seq<Seq<Token>>| #[trigger] phrases_of(handle_Lexicon($lexicon)->0, $address->0, $locale->0, $filter->0, ps) && $ret->0 == rows(ps, ps.len() as int) && $nrec' == $ret->0.len(),
@@end
@@fn std_standardize_ptrs(ptr<int>,ptr<void>,ptr<void>,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address grammar lexicon locale filter err
opt: faults
opt: hide lex_inv within phrases_of all_enum_ok answer g_wf has_start
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1,
    handle_Lexicon($lexicon) is Some, lex_inv(handle_Lexicon($lexicon)->0), within(handle_Lexicon($lexicon)->0, $address->0, $locale->0, $filter->0),
    handle_Grammar($grammar) is Some, g_wf(as_search(handle_Grammar($grammar)->0)),
    forall|ps: Seq<Seq<Token>>| #[trigger] phrases_of(handle_Lexicon($lexicon)->0, $address->0, $locale->0, $filter->0, ps) ==> all_enum_ok(ps),
ensures
    !$throws,
    $fault || !has_start(as_search(handle_Grammar($grammar)->0)) ==> $ret is None && $err' is Some,
    !$fault && has_start(as_search(handle_Grammar($grammar)->0)) ==> $err' is None && exists|ps: Seq<Seq<Token>>| #[trigger] phrases_of(handle_Lexicon($lexicon)->0, $address->0, $locale->0, $filter->0, ps) && $ret == answer(handle_Grammar($grammar)->0, handle_Lexicon($lexicon)->0, ps),
@@end
@@fn freeGrammarPtr(ptr<void>)
params: ptr
opt: faults
requires $ptr is Null || handle_Grammar($ptr) is Some,
ensures !$throws,
@@end
@@fn freeLexiconPtr(ptr<void>)
params: ptr
opt: faults
requires $ptr is Null || handle_Lexicon($ptr) is Some,
ensures !$throws,
@@end
@@fn getGrammarMd5(ptr<void>)
params: ptr
opt: faults
requires handle_Grammar($ptr) is Some,
ensures !$throws, $fault ==> $ret is None, !$fault ==> $ret == Some(handle_Grammar($ptr)->0.md5_),
@@end
@@fn getLexiconMd5(ptr<void>)
params: ptr
opt: faults
requires handle_Lexicon($ptr) is Some,
ensures !$throws, $fault ==> $ret is None, !$fault ==> $ret == Some(handle_Lexicon($ptr)->0.md5_),
@@end
@@fn getMd5(ptr<int>)
params: text
opt: faults
requires $text is Some,
ensures !$throws, $fault ==> $ret is None, !$fault ==> $ret == Some(md5_of($text->0)),
@@end
