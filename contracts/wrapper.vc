@@uses scan reclass
@@spec
// ---- what the interface asks the tokenizer ----------------------------------------------------
pub open spec fn asked(l: Lexicon, filter: Str) -> Tokenizer { Tokenizer { lex_: l, filter_: codes_of(filter) } }
pub open spec fn asked_text(address: Str, locale: Str) -> Str { upper(nfc(address), locale) }
pub open spec fn phrases_from(l: Lexicon, first: Seq<Token>) -> Seq<Seq<Token>> { seq![first] + alternatives(first, l) }
pub open spec fn first_phrase(l: Lexicon, address: Str, locale: Str, filter: Str, first: Seq<Token>) -> bool { tokens_of(asked(l, filter), asked_text(address, locale), first) && all_fine(first) }
// the phrases of an address: its tokens and their alternatives
pub open spec fn phrases_of(l: Lexicon, address: Str, locale: Str, filter: Str, ps: Seq<Seq<Token>>) -> bool { exists|first: Seq<Token>| #[trigger] first_phrase(l, address, locale, filter, first) && ps == phrases_from(l, first) }
// inputs within the limits of the enumerations
pub open spec fn within(l: Lexicon, address: Str, locale: Str, filter: Str) -> bool {
    forall|first: Seq<Token>| #[trigger] first_phrase(l, address, locale, filter, first) ==> before(first, first.len() as int) <= 31
}
pub proof fn lemma_texts(ts: Seq<Token>)
    requires all_fine(ts)
    ensures texts_ok(ts)
{ assert forall|i: int| 0 <= i < ts.len() implies utf8(#[trigger] ts[i].text_) && ts[i].text_.len() < npos() - 1 by { assert(fine(ts[i])); } }
pub proof fn lemma_first(l: Lexicon, address: Str, locale: Str, filter: Str)
    requires within(l, address, locale, filter)
    ensures forall|first: Seq<Token>| #[trigger] tokens_of(asked(l, filter), asked_text(address, locale), first) && all_fine(first) ==> first_phrase(l, address, locale, filter, first) && texts_ok(first) && before(first, first.len() as int) <= 31
{
    assert forall|first: Seq<Token>| #[trigger] tokens_of(asked(l, filter), asked_text(address, locale), first) && all_fine(first) implies first_phrase(l, address, locale, filter, first) && texts_ok(first) && before(first, first.len() as int) <= 31 by { lemma_texts(first); }
}
pub proof fn lemma_same_alts(ts: Seq<Token>, a: Lexicon, b: Lexicon)
    requires a.lex_ == b.lex_
    ensures alternatives(ts, a) == alternatives(ts, b)
{ lemma_same_alts_to(ts, a, b, pow2i(before(ts, ts.len() as int))); }
pub proof fn lemma_same_alts_to(ts: Seq<Token>, a: Lexicon, b: Lexicon, n: int)
    requires a.lex_ == b.lex_
    ensures alts_upto(ts, a, n) == alts_upto(ts, b, n)
    decreases n
{ if n > 1 { lemma_same_alts_to(ts, a, b, n - 1); lemma_same_alt(ts, a, b, n - 1, ts.len() as int); } }
pub proof fn lemma_same_alt(ts: Seq<Token>, a: Lexicon, b: Lexicon, i: int, j: int)
    requires a.lex_ == b.lex_
    ensures alt_upto(ts, a, i, j) == alt_upto(ts, b, i, j)
    decreases j
{ if j > 0 { lemma_same_alt(ts, a, b, i, j - 1); let ws = words_of(ts[j - 1].text_); lemma_same_tokens(ws, a, b, ws.len() as int); } }
// ---- the listing of tokens --------------------------------------------------------------------
pub open spec fn shown(t: Token, pat: int, seq: int) -> TOKENS { TOKENS { pat: pat, seq_: seq, word: Some(t.text_), inclass: Some(in_names(t.inclass_)), attached: Some(att_names(t.attached_)) } }
pub open spec fn shown_upto(ts: Seq<Token>, pat: int, from: int, k: int) -> Seq<TOKENS> { Seq::new(k as nat, |q: int| shown(ts[q], pat, from + q)) }
pub open spec fn rows(ps: Seq<Seq<Token>>, n: int) -> Seq<TOKENS> decreases n {
    if n <= 0 { Seq::<TOKENS>::empty() } else { rows(ps, n - 1) + shown_upto(ps[n - 1], n - 1, rows(ps, n - 1).len() as int, ps[n - 1].len() as int) }
}
pub proof fn lemma_rows(ps: Seq<Seq<Token>>, a: int, b: int)
    requires 0 <= a <= b
    ensures rows(ps, a).len() <= rows(ps, b).len(), a < b ==> rows(ps, a).len() + ps[a].len() <= rows(ps, b).len()
    decreases b
{ if a < b { lemma_rows(ps, a, b - 1); } }
@@end
@@fn parse_addr(ptr<int>,Lexicon&,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address lexicon locale filter nrec err
vars: tokenizer Tokenizer; phrases Seq<Seq<Token>>; alts Seq<Seq<Token>>#2; cnt int#2; tokens Option<Seq<TOKENS>>; i int#3; j int#4; k int#5
opt: faults
opt: rlimit 100
opt: hide classed lex_inv tokens_of alternatives first_phrase before
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1,
    lex_inv($lexicon), within($lexicon, $address->0, $locale->0, $filter->0),
ensures
    !$throws,
    $fault ==> $ret is None && $err' is Some,
    !$fault ==> $ret is Some && $err' is None,
    !$fault ==> exists|ps: Seq<Seq<Token>>| #[trigger] phrases_of($lexicon, $address->0, $locale->0, $filter->0, ps) && $ret->0 == rows(ps, ps.len() as int) && $nrec' == $ret->0.len(),
@@entry
let ghost l = $$lexicon;
let ghost tk = asked(l, $$filter->0);
let ghost txt = asked_text($$address->0, $$locale->0);
lemma_first(l, $$address->0, $$locale->0, $$filter->0);
@@before 1
let ghost first = $phrases[0];
let ghost ps = phrases_from(l, first);
lemma_same_alts(first, l, $tokenizer.lex_);
assert($alts == alternatives(first, l));
@@loop 1
invariant $phrases == seq![first] + $alts.subrange(0, $i),
@@afterloop 1
assert($phrases =~= ps);
assert(phrases_of(l, $$address->0, $$locale->0, $$filter->0, ps));
@@loop 2
invariant $cnt == rows(ps, $i).len(),
@@loop 3
invariant $phrases == ps, $cnt == rows(ps, ps.len() as int).len(), $tokens is Some, $tokens->0.len() == $cnt,
    $var_i == $i3, $k == rows(ps, $i3).len(), $j == $k, $tokens->0.subrange(0, $k) == rows(ps, $i3),
@@loopbody 3
lemma_rows(ps, $i3 + 1, ps.len() as int);
@@loop 4
invariant $phrases == ps, $cnt == rows(ps, ps.len() as int).len(), $tokens is Some, $tokens->0.len() == $cnt,
    0 <= $i3 < ps.len(), rows(ps, $i3).len() + ps[$i3].len() <= $cnt,
    $var_i == $i3, $k == rows(ps, $i3).len() + $i4, $j == $k, $tokens->0.subrange(0, $k) == rows(ps, $i3) + shown_upto(ps[$i3], $i3, rows(ps, $i3).len() as int, $i4),
@@loopbody 4
let ghost t0 = $tokens->0.subrange(0, $k);
@@loopend 4
assert($tokens->0.subrange(0, $k) =~= t0.push(shown(ps[$i3][$i4 - 1], $i3, $k - 1)));
assert(shown_upto(ps[$i3], $i3, rows(ps, $i3).len() as int, $i4) =~= shown_upto(ps[$i3], $i3, rows(ps, $i3).len() as int, $i4 - 1).push(shown(ps[$i3][$i4 - 1], $i3, $k - 1)));
@@loopend 3
assert($tokens->0.subrange(0, $k) =~= rows(ps, $i3));
@@afterloop 3
assert($tokens->0 =~= $tokens->0.subrange(0, $k));
@@end
@@spec C06 C23
// ---- the listing of matches --------------------------------------------------------------------
pub open spec fn as_search(g: Grammar) -> Search {
    Search { metas_: g.metas_, rules_: g.rules_, sectionIndex_: g.sectionIndex_, md5_: g.md5_, issues_: g.issues_, references_: g.references_, checked_: g.checked_, status_: g.status_, recursion_limit_: 0 }
}
pub proof fn lemma_limit(g: Search, h: Search, ps: Seq<Seq<Token>>, n: int)
    requires g_wf(g), h == (Search { recursion_limit_: h.recursion_limit_, ..g }), 0 <= n <= ps.len()
    ensures g_wf(h), has_start(h) == has_start(g), records(h, ps, n) == records(g, ps, n), best_n(h, ps, n) == best_n(g, ps, n)
    decreases n
{ if n > 0 { lemma_limit(g, h, ps, n - 1); lemma_same(g, h, ps[n - 1]); } else { lemma_same(g, h, Seq::<Token>::empty()); } }
pub open spec fn numbered(ms: Seq<MatchResult>) -> bool { forall|i: int| 0 <= i < ms.len() ==> f_num((#[trigger] ms[i]).score) }
pub open spec fn shown_match(m: MatchResult) -> MTOKEN { MTOKEN { tokens: Some(m.matched), score: m.score, nrules: m.nrules } }
pub open spec fn shown_matches(ms: Seq<MatchResult>) -> Seq<MTOKEN> { Seq::new(ms.len(), |i: int| shown_match(ms[i])) }
// ms in another order, best score first
pub open spec fn by_score(ms: Seq<MatchResult>, ss: Seq<MatchResult>) -> bool {
    ss.to_multiset() == ms.to_multiset() && ss.len() == ms.len() && forall|i: int, j: int| 0 <= i < j < ss.len() ==> !fgt((#[trigger] ss[j]).score, (#[trigger] ss[i]).score)
}
// what is listed for the phrases: a record per match, or one record that says there is none
pub open spec fn all_matches(g: Grammar, ps: Seq<Seq<Token>>) -> Seq<MatchResult> { let all = records(as_search(g), ps, ps.len() as int); if all.len() == 0 { seq![no_record()] } else { all } }
// phrases the search can take in
pub open spec fn searchable(g: Grammar, ps: Seq<Seq<Token>>) -> bool { all_enum_ok(ps) && numbered(all_matches(g, ps)) }
pub open spec fn listing(g: Grammar, ps: Seq<Seq<Token>>, ss: Seq<MatchResult>) -> bool { by_score(all_matches(g, ps), ss) }
pub proof fn lemma_sortable(ms: Seq<MatchResult>, c: spec_fn(MatchResult, MatchResult) -> bool)
    requires numbered(ms), forall|a: MatchResult, b: MatchResult| #[trigger] c(a, b) == fgt(a.score, b.score)
    ensures weak_order(ms, c)
{
    assert forall|i: int| 0 <= i < ms.len() implies !#[trigger] c(ms[i], ms[i]) by { axiom_fgt(ms[i].score, ms[i].score, ms[i].score); }
    assert forall|i: int, j: int| 0 <= i < ms.len() && 0 <= j < ms.len() && #[trigger] c(ms[i], ms[j]) implies !c(ms[j], ms[i]) by { axiom_fgt(ms[i].score, ms[j].score, ms[i].score); }
    assert forall|i: int, j: int, k: int| 0 <= i < ms.len() && 0 <= j < ms.len() && 0 <= k < ms.len() && #[trigger] c(ms[i], ms[j]) && #[trigger] c(ms[j], ms[k]) implies c(ms[i], ms[k]) by { axiom_fgt(ms[i].score, ms[j].score, ms[k].score); }
    assert forall|i: int, j: int, k: int| 0 <= i < ms.len() && 0 <= j < ms.len() && 0 <= k < ms.len() && #[trigger] c(ms[i], ms[k]) implies #[trigger] c(ms[i], ms[j]) || c(ms[j], ms[k]) by { axiom_fgt(ms[i].score, ms[j].score, ms[k].score); }
}
@@end
@@fn match_addr(ptr<int>,Grammar&,Lexicon&,ptr<int>,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address grammar lexicon locale filter nrec err
vars: tokenizer Tokenizer; phrases Seq<Seq<Token>>; alts Seq<Seq<Token>>#2; toks Seq<MatchResult>; tokens Option<Seq<MTOKEN>>; i int#2; search Search
opt: faults
opt: rlimit 100
opt: hide classed lex_inv tokens_of alternatives first_phrase before records all_enum_ok addr_of
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1,
    lex_inv($lexicon), within($lexicon, $address->0, $locale->0, $filter->0),
    g_wf(as_search($grammar)),
    forall|ps: Seq<Seq<Token>>| #[trigger] phrases_of($lexicon, $address->0, $locale->0, $filter->0, ps) ==> searchable($grammar, ps),
ensures
    !$throws,
    $fault || !has_start(as_search($grammar)) ==> $ret is None && $err' is Some,
    !$fault && has_start(as_search($grammar)) ==> $ret is Some && $err' is None && $nrec' == $ret->0.len(),
    !$fault && has_start(as_search($grammar)) ==> exists|ps: Seq<Seq<Token>>, ss: Seq<MatchResult>| #[trigger] phrases_of($lexicon, $address->0, $locale->0, $filter->0, ps) && #[trigger] listing($grammar, ps, ss) && $ret->0 == shown_matches(ss),
@@entry
let ghost l = $$lexicon;
let ghost tk = asked(l, $$filter->0);
let ghost txt = asked_text($$address->0, $$locale->0);
let ghost mut first: Seq<Token> = arbitrary();
let ghost mut ps: Seq<Seq<Token>> = arbitrary();
lemma_first(l, $$address->0, $$locale->0, $$filter->0);
@@before 1
first = $phrases[0];
ps = phrases_from(l, first);
lemma_same_alts(first, l, $tokenizer.lex_);
assert($alts == alternatives(first, l));
@@loop 1
invariant $phrases == seq![first] + $alts.subrange(0, $i),
@@afterloop 1
assert($phrases =~= ps);
assert(phrases_of(l, $$address->0, $$locale->0, $$filter->0, ps));
assert(searchable($$grammar, ps));
@@atcall searchAndReclassAll
lemma_limit(as_search($$grammar), $search, $phrases, $phrases.len() as int);
@@atcall sort
let ghost ms = $toks;
let ghost c = $cmp;
assert(ms == all_matches($$grammar, ps));
lemma_sortable(ms, c);
@@loop 2
invariant $tokens is Some, $tokens->0.len() == $toks.len(), $var_i == $i,
    forall|k: int| 0 <= k < $i ==> #[trigger] $tokens->0[k] == shown_match($toks[k]),
@@afterloop 2
assert forall|i: int, j: int| 0 <= i < j < $toks.len() implies !fgt((#[trigger] $toks[j]).score, (#[trigger] $toks[i]).score) by { assert(!c($toks[j], $toks[i])); };
assert(listing($$grammar, ps, $toks));
assert($tokens->0 =~= shown_matches($toks));
@@end
@@spec C06
// ---- the standardized address ------------------------------------------------------------------
// where the words of a class go (IGNORE goes nowhere)
pub open spec fn field_of(o: int) -> int {
    if o == #OutClass::BLDNG { 0 }
    else if o == #OutClass::HOUSE { 1 }
    else if o == #OutClass::PREDIR { 2 }
    else if o == #OutClass::QUALIF { 3 }
    else if o == #OutClass::PRETYP { 4 }
    else if o == #OutClass::STREET { 5 }
    else if o == #OutClass::SUFTYP { 6 }
    else if o == #OutClass::SUFDIR { 7 }
    else if o == #OutClass::RR { 8 }
    else if o == #OutClass::STOP || o == #OutClass::EXTRA || o == #OutClass::BADTOKEN { 9 }
    else if o == #OutClass::CITY { 10 }
    else if o == #OutClass::PROV { 11 }
    else if o == #OutClass::NATION { 12 }
    else if o == #OutClass::POSTAL { 13 }
    else if o == #OutClass::BOXH || o == #OutClass::BOXT { 14 }
    else if o == #OutClass::UNITH || o == #OutClass::UNITT { 15 }
    else { 0int - 1 }
}
// the standard words of the first k tokens that go to field f, each followed by a blank
pub open spec fn gathered(ts: Seq<Token>, f: int, k: int) -> Str decreases k {
    if k <= 0 { Seq::<int>::empty() } else if field_of(ts[k - 1].outclass_) == f { gathered(ts, f, k - 1) + (ts[k - 1].stdtext_ + #" ") } else { gathered(ts, f, k - 1) }
}
pub proof fn lemma_gather(ts: Seq<Token>, f: int, k: int)
    ensures gathered(ts, f, k) == if k <= 0 { Seq::<int>::empty() } else if field_of(ts[k - 1].outclass_) == f { gathered(ts, f, k - 1) + (ts[k - 1].stdtext_ + #" ") } else { gathered(ts, f, k - 1) }
{}
pub open spec fn standardized_all(ts: Seq<Token>, l: Lexicon) -> Seq<Token> { Seq::new(ts.len(), |i: int| standardized(ts[i], l)) }
// a field is missing when no word goes there; the last blank is dropped
pub open spec fn field(ts: Seq<Token>, f: int) -> CStr { let t = gathered(ts, f, ts.len() as int); if t.len() == 0 { None } else { Some(t.subrange(0, t.len() - 1)) } }
pub open spec fn address_of(ts: Seq<Token>, pattern: Str) -> STDADDR {
    STDADDR { building: field(ts, 0), house_num: field(ts, 1), predir: field(ts, 2), qual: field(ts, 3), pretype: field(ts, 4), name: field(ts, 5), suftype: field(ts, 6), sufdir: field(ts, 7), ruralroute: field(ts, 8), extra: field(ts, 9), city: field(ts, 10), prov: field(ts, 11), country: field(ts, 12), postcode: field(ts, 13), box_: field(ts, 14), unit: field(ts, 15), pattern: Some(pattern) }
}
pub open spec fn matched_addr(b: Best) -> bool { fge(f32to64(b.score), #f0.0) }
pub open spec fn answer(g: Grammar, l: Lexicon, ps: Seq<Seq<Token>>) -> Option<STDADDR> {
    let b = best_n(as_search(g), ps, ps.len() as int);
    if matched_addr(b) { Some(address_of(standardized_all(b.tokens, l), b.text)) } else { None }
}
#[verifier::external_body]
pub proof fn axiom_below()
    ensures !fge(f32to64(f64to32(#f-1.0)), #f0.0), !fge(f32to64(f64to32(#f-2.0)), #f0.0)
{}
pub open spec fn has_class(t: Token) -> bool { exists|c: int| t.inclass_.contains(c) }
pub open spec fn all_classed(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> #[trigger] has_class(ts[i]) }
// what counts as a match was retagged token by token
pub proof fn lemma_best_classed(g: Search, ps: Seq<Seq<Token>>, n: int)
    requires 0 <= n <= ps.len(), matched_addr(best_n(g, ps, n))
    ensures all_classed(best_n(g, ps, n).tokens)
    decreases n
{
    axiom_below();
    if n > 0 {
        let b = best1(g, ps[n - 1], Seq::<int>::empty());
        if fgt(b.score, best_n(g, ps, n - 1).score) {
            let ts = ps[n - 1]; let rs = addr_of(g, ts); let r = rs[best_of(rs, rs.len() as int).0]; let t = reclassed(ts, r).1;
            assert(b.tokens == t);
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] has_class(t[i]) by { assert(t[i].inclass_.contains(flat_in(r.rules)[i])); }
        } else { lemma_best_classed(g, ps, n - 1); }
    }
}
@@end
@@fn standardize_addr(ptr<int>,Grammar&,Lexicon&,ptr<int>,ptr<int>,ptr<ptr<int>>)
params: address grammar lexicon locale filter err
vars: tokenizer Tokenizer; phrases Seq<Seq<Token>>; alts Seq<Seq<Token>>#2; search Search; best Seq<Token>; v_stdaddr Seq<Str>; stdaddr Option<STDADDR>; bestCost F; matched Str
opt: faults; flat_ifs
opt: rlimit 200
opt: hide classed lex_inv tokens_of alternatives first_phrase before records all_enum_ok addr_of best_n standardized gathered answer address_of within phrases_of field
requires
    $address is Some, $locale is Some, $filter is Some, $filter->0.len() < npos() - 1,
    lex_inv($lexicon), within($lexicon, $address->0, $locale->0, $filter->0),
    g_wf(as_search($grammar)),
    forall|ps: Seq<Seq<Token>>| #[trigger] phrases_of($lexicon, $address->0, $locale->0, $filter->0, ps) ==> all_enum_ok(ps),
ensures
    !$throws,
    $fault || !has_start(as_search($grammar)) ==> $ret is None && $err' is Some,
    !$fault && has_start(as_search($grammar)) ==> $err' is None && exists|ps: Seq<Seq<Token>>| #[trigger] phrases_of($lexicon, $address->0, $locale->0, $filter->0, ps) && $ret == answer($grammar, $lexicon, ps),
@@entry
let ghost l = $$lexicon;
let ghost mut sts: Seq<Token> = arbitrary();
let ghost tk = asked(l, $$filter->0);
let ghost txt = asked_text($$address->0, $$locale->0);
let ghost mut first: Seq<Token> = arbitrary();
let ghost mut ps: Seq<Seq<Token>> = arbitrary();
let ghost mut b0: Seq<Token> = arbitrary();
lemma_first(l, $$address->0, $$locale->0, $$filter->0);
@@before 1
first = $phrases[0];
ps = phrases_from(l, first);
lemma_same_alts(first, l, $tokenizer.lex_);
assert($alts == alternatives(first, l));
@@loop 1
invariant $phrases == seq![first] + $alts.subrange(0, $i),
@@afterloop 1
assert($phrases =~= ps);
assert(phrases_of(l, $$address->0, $$locale->0, $$filter->0, ps)) by { reveal(phrases_of); };
@@atcall searchAndReclassBest
lemma_limit(as_search($$grammar), $search, $phrases, $phrases.len() as int);
@@before 2
b0 = $best;
sts = standardized_all(b0, l);
lemma_best_classed(as_search($$grammar), ps, ps.len() as int);
assert forall|f: int| 0 <= f < 16 implies #[trigger] $v_stdaddr[f] == gathered(sts, f, 0) by { lemma_gather(sts, f, 0); };
@@loop 2
invariant
    $lexicon == l, $best.len() == b0.len(), $v_stdaddr.len() == 16,
    forall|j: int| 0 <= j < $i ==> #[trigger] $best[j] == standardized(b0[j], l),
    forall|j: int| $i <= j < b0.len() ==> #[trigger] $best[j] == b0[j],
    forall|f: int| 0 <= f < 16 ==> #[trigger] $v_stdaddr[f] == gathered(sts, f, $i),
    $i <= b0.len(),
decreases b0.len() - $i
@@loopbody 2
let ghost v0 = $v_stdaddr;
let ghost o = field_of(sts[$i].outclass_);
let ghost w = sts[$i].stdtext_ + #" ";
assert(b0[$i] == $best[$i]);
assert(has_class(b0[$i]));
assert(sts[$i] == standardized(b0[$i], l));
@@loopend 2
assert($v_stdaddr =~= if o >= 0 { v0.update(o, v0[o] + w) } else { v0 });
assert forall|f: int| 0 <= f < 16 implies #[trigger] $v_stdaddr[f] == gathered(sts, f, $i) by { lemma_gather(sts, f, $i); }
@@return
reveal(answer);
@@returnif
if $ret is Some {
    assert($stdaddr->0.building == field(sts, 0)) by { reveal(field); };
    assert($stdaddr->0.house_num == field(sts, 1)) by { reveal(field); };
    assert($stdaddr->0.predir == field(sts, 2)) by { reveal(field); };
    assert($stdaddr->0.qual == field(sts, 3)) by { reveal(field); };
    assert($stdaddr->0.pretype == field(sts, 4)) by { reveal(field); };
    assert($stdaddr->0.name == field(sts, 5)) by { reveal(field); };
    assert($stdaddr->0.suftype == field(sts, 6)) by { reveal(field); };
    assert($stdaddr->0.sufdir == field(sts, 7)) by { reveal(field); };
    assert($stdaddr->0.ruralroute == field(sts, 8)) by { reveal(field); };
    assert($stdaddr->0.extra == field(sts, 9)) by { reveal(field); };
    assert($stdaddr->0.city == field(sts, 10)) by { reveal(field); };
    assert($stdaddr->0.prov == field(sts, 11)) by { reveal(field); };
    assert($stdaddr->0.country == field(sts, 12)) by { reveal(field); };
    assert($stdaddr->0.postcode == field(sts, 13)) by { reveal(field); };
    assert($stdaddr->0.box_ == field(sts, 14)) by { reveal(field); };
    assert($stdaddr->0.unit == field(sts, 15)) by { reveal(field); };
    reveal(address_of);
}
@@end
@@spec C07
// rows are numbered from zero, phrase by phrase
pub open spec fn rows_before(ps: Seq<Seq<Token>>, p: int) -> int { rows(ps, p).len() as int }
pub proof fn lemma_rows_prefix(ps: Seq<Seq<Token>>, a: int, b: int, k: int)
    requires 0 <= a <= b, 0 <= k < rows(ps, a).len()
    ensures rows(ps, a).len() <= rows(ps, b).len(), rows(ps, b)[k] == rows(ps, a)[k]
    decreases b
{ if a < b { lemma_rows_prefix(ps, a, b - 1, k); } }
// every token of every phrase has its record
pub proof fn C07_record(ps: Seq<Seq<Token>>, p: int, q: int)
    requires 0 <= p < ps.len(), 0 <= q < ps[p].len()
    ensures rows_before(ps, p) + q < rows(ps, ps.len() as int).len(),
        rows(ps, ps.len() as int)[rows_before(ps, p) + q] == shown(ps[p][q], p, rows_before(ps, p) + q),
        rows_before(ps, 0) == 0, rows_before(ps, p + 1) == rows_before(ps, p) + ps[p].len(),
{ lemma_rows_prefix(ps, p + 1, ps.len() as int, rows_before(ps, p) + q); }
// and there is no other record
pub proof fn C07_only(ps: Seq<Seq<Token>>, n: int, r: int) -> (w: (int, int))
    requires 0 <= n <= ps.len(), 0 <= r < rows(ps, n).len()
    ensures 0 <= w.0 < n, 0 <= w.1 < ps[w.0].len(), rows_before(ps, w.0) + w.1 == r
    decreases n
{ if r < rows_before(ps, n - 1) { C07_only(ps, n - 1, r) } else { (n - 1, r - rows_before(ps, n - 1)) } }
// the sequence number counts the records, the pattern number the phrases
pub proof fn C07_numbers(ps: Seq<Seq<Token>>, r: int)
    requires 0 <= r < rows(ps, ps.len() as int).len()
    ensures rows(ps, ps.len() as int)[r].seq_ == r, 0 <= rows(ps, ps.len() as int)[r].pat < ps.len(),
        r > 0 ==> rows(ps, ps.len() as int)[r - 1].pat <= rows(ps, ps.len() as int)[r].pat,
{
    let w = C07_only(ps, ps.len() as int, r);
    C07_record(ps, w.0, w.1);
    if r > 0 {
        let v = C07_only(ps, ps.len() as int, r - 1);
        C07_record(ps, v.0, v.1);
        if v.0 > w.0 { lemma_rows(ps, w.0, v.0); }
    }
}
// the first phrase is the tokenized address, the others are its alternatives (C20)
pub proof fn C07_phrases(l: Lexicon, address: Str, locale: Str, filter: Str, ps: Seq<Seq<Token>>)
    requires phrases_of(l, address, locale, filter, ps)
    ensures exists|first: Seq<Token>| #[trigger] first_phrase(l, address, locale, filter, first) && ps.len() == 1 + alternatives(first, l).len() && ps[0] == first && forall|i: int| 0 <= i < alternatives(first, l).len() ==> #[trigger] ps[i + 1] == alternatives(first, l)[i]
{
    let first = choose|first: Seq<Token>| #[trigger] first_phrase(l, address, locale, filter, first) && ps == phrases_from(l, first);
    assert(ps[0] == first);
    assert forall|i: int| 0 <= i < alternatives(first, l).len() implies #[trigger] ps[i + 1] == alternatives(first, l)[i] by {}
}
@@end
@@spec C23
// every match of every phrase has its record, as often as it occurs, and there is no other
pub proof fn C23_complete(g: Grammar, ps: Seq<Seq<Token>>, ss: Seq<MatchResult>)
    requires listing(g, ps, ss)
    ensures ss.to_multiset() == all_matches(g, ps).to_multiset(), ss.len() == all_matches(g, ps).len(),
        forall|i: int| 0 <= i < all_matches(g, ps).len() ==> ss.contains(#[trigger] all_matches(g, ps)[i]),
        forall|i: int| 0 <= i < ss.len() ==> all_matches(g, ps).contains(#[trigger] ss[i]),
{
    let all = all_matches(g, ps);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < all.len() implies ss.contains(#[trigger] all[i]) by { assert(all.contains(all[i])); assert(all.to_multiset().contains(all[i])); assert(ss.to_multiset().contains(all[i])); }
    assert forall|i: int| 0 <= i < ss.len() implies all.contains(#[trigger] ss[i]) by { assert(ss.contains(ss[i])); assert(ss.to_multiset().contains(ss[i])); assert(all.to_multiset().contains(ss[i])); }
}
// best score first
pub proof fn C23_sorted(g: Grammar, ps: Seq<Seq<Token>>, ss: Seq<MatchResult>, i: int, j: int)
    requires listing(g, ps, ss), 0 <= i < j < ss.len()
    ensures !fgt(ss[j].score, ss[i].score)
{}
// no match: the one record that says so
pub proof fn C23_none(g: Grammar, ps: Seq<Seq<Token>>, ss: Seq<MatchResult>)
    requires listing(g, ps, ss), records(as_search(g), ps, ps.len() as int).len() == 0
    ensures ss =~= seq![no_record()]
{ C23_complete(g, ps, ss); assert(ss[0] == no_record()) by { assert(all_matches(g, ps).contains(ss[0])); } }
@@end
@@spec C06T
// the standard words of the tokens that go to field f, in their order
pub open spec fn words_in(ts: Seq<Token>, f: int, k: int) -> Seq<Str> decreases k {
    if k <= 0 { Seq::<Str>::empty() } else if field_of(ts[k - 1].outclass_) == f { words_in(ts, f, k - 1).push(ts[k - 1].stdtext_) } else { words_in(ts, f, k - 1) }
}
// words with a blank between each two
pub open spec fn blanks_between(ws: Seq<Str>) -> Str decreases ws.len() {
    if ws.len() == 0 { Seq::<int>::empty() } else if ws.len() == 1 { ws[0] } else { blanks_between(ws.drop_last()) + #" " + ws.last() }
}
pub proof fn lemma_gathered(ts: Seq<Token>, f: int, k: int)
    requires 0 <= k <= ts.len()
    ensures words_in(ts, f, k).len() == 0 ==> gathered(ts, f, k).len() == 0,
        words_in(ts, f, k).len() > 0 ==> gathered(ts, f, k) == blanks_between(words_in(ts, f, k)) + #" ",
    decreases k
{
    if k > 0 {
        lemma_gathered(ts, f, k - 1);
        if field_of(ts[k - 1].outclass_) == f {
            let v = words_in(ts, f, k - 1); let w = words_in(ts, f, k);
            assert(w.drop_last() =~= v);
            assert(w.last() == ts[k - 1].stdtext_);
            assert(gathered(ts, f, k) =~= blanks_between(w) + #" ");
        }
    }
}
// a field holds the standard words of its tokens, in order, single blanks between; without any it is absent
pub proof fn C06_field(ts: Seq<Token>, f: int)
    ensures words_in(ts, f, ts.len() as int).len() == 0 <==> field(ts, f) is None,
        words_in(ts, f, ts.len() as int).len() > 0 ==> field(ts, f) == Some(blanks_between(words_in(ts, f, ts.len() as int))),
{
    lemma_gathered(ts, f, ts.len() as int);
    lits();
    if words_in(ts, f, ts.len() as int).len() > 0 {
        let b = blanks_between(words_in(ts, f, ts.len() as int));
        assert((b + #" ").len() == b.len() + 1) by { reveal(#" "); }
        assert((b + #" ").subrange(0, b.len() as int) =~= b);
    }
}
// every token that is not ignored is in one field and no other; ignored ones are in none
pub open spec fn kept_upto(ts: Seq<Token>, k: int) -> int decreases k { if k <= 0 { 0 } else { kept_upto(ts, k - 1) + if ts[k - 1].outclass_ == #OutClass::IGNORE { 0int } else { 1int } } }
pub open spec fn words_to(ts: Seq<Token>, f: int, k: int) -> int decreases f { if f <= 0 { 0 } else { words_to(ts, f - 1, k) + words_in(ts, f - 1, k).len() } }
pub open spec fn routed(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> out_valid((#[trigger] ts[i]).outclass_) }
pub proof fn lemma_words_to(ts: Seq<Token>, f: int, k: int)
    requires 0 < k <= ts.len(), 0 <= f <= 16
    ensures words_to(ts, f, k) == words_to(ts, f, k - 1) + if 0 <= field_of(ts[k - 1].outclass_) < f { 1int } else { 0int }
    decreases f
{ if f > 0 { lemma_words_to(ts, f - 1, k); } }
pub proof fn lemma_words_none(ts: Seq<Token>, f: int)
    ensures words_to(ts, f, 0) == 0
    decreases f
{ if f > 0 { lemma_words_none(ts, f - 1); } }
pub proof fn C06_once(ts: Seq<Token>, k: int)
    requires 0 <= k <= ts.len(), routed(ts)
    ensures words_to(ts, 16, k) == kept_upto(ts, k)
    decreases k
{
    if k > 0 { C06_once(ts, k - 1); lemma_words_to(ts, 16, k); assert(out_valid(ts[k - 1].outclass_)); }
    else { lemma_words_none(ts, 16); }
}
// each output class has the field of that name
pub proof fn C06_routes()
    ensures field_of(#OutClass::IGNORE) < 0, field_of(#OutClass::BADTOKEN) == field_of(#OutClass::EXTRA), field_of(#OutClass::STOP) == field_of(#OutClass::EXTRA),
        field_of(#OutClass::BOXH) == field_of(#OutClass::BOXT), field_of(#OutClass::UNITH) == field_of(#OutClass::UNITT)
{}
// no match: no result (and by the contract of standardize_addr no error); a match: its text is the pattern
pub proof fn C06_match(g: Grammar, l: Lexicon, ps: Seq<Seq<Token>>)
    ensures !matched_addr(best_n(as_search(g), ps, ps.len() as int)) ==> answer(g, l, ps) is None,
        matched_addr(best_n(as_search(g), ps, ps.len() as int)) ==> answer(g, l, ps) is Some && answer(g, l, ps)->0.pattern == Some(best_n(as_search(g), ps, ps.len() as int).text),
{}
pub proof fn lemma_no_match(g: Search, ps: Seq<Seq<Token>>, n: int)
    requires 0 <= n <= ps.len(), forall|i: int| 0 <= i < n ==> addr_of(g, #[trigger] ps[i]).len() == 0
    ensures !matched_addr(best_n(g, ps, n)), best_n(g, ps, n).tokens.len() == 0
    decreases n
{ axiom_below(); if n > 0 { lemma_no_match(g, ps, n - 1); assert(addr_of(g, ps[n - 1]).len() == 0); } }
@@end
