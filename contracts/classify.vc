@@uses lexicon
@@spec
// characters as the regular expression library sees them
pub uninterp spec fn dig(c: int) -> bool;       // \d
pub uninterp spec fn wordc(c: int) -> bool;     // \w
pub uninterp spec fn spc(c: int) -> bool;       // \s
pub uninterp spec fn pnc(c: int) -> bool;       // [:punct:]
pub uninterp spec fn alpha(c: int) -> bool;     // A-Z, whatever the case
// ---- shapes of a text ---------------------------------------------------------------------------
pub open spec fn every(w: Seq<int>, p: spec_fn(int) -> bool) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> p(#[trigger] w[i]) }
pub open spec fn all_dig(w: Seq<int>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> dig(#[trigger] w[i]) }
pub open spec fn all_word(w: Seq<int>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> wordc(#[trigger] w[i]) }
pub open spec fn all_space(w: Seq<int>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> spc(#[trigger] w[i]) }
pub open spec fn all_punct(w: Seq<int>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == 124 || pnc(w[i]) }
pub open spec fn all_dash(w: Seq<int>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == 45 }
pub open spec fn some_dig(w: Seq<int>) -> bool { exists|i: int| 0 <= i < w.len() && dig(#[trigger] w[i]) }
// digits on both sides of one separator
pub open spec fn two_parts(w: Seq<int>, k: int) -> bool { 0 < k < w.len() - 1 && all_dig(w.subrange(0, k)) && all_dig(w.subrange(k + 1, w.len() as int)) }
pub open spec fn decimal(w: Seq<int>) -> bool { exists|k: int| #[trigger] two_parts(w, k) && (w[k] == 44 || w[k] == 46) }
pub open spec fn fraction(w: Seq<int>) -> bool { exists|k: int| #[trigger] two_parts(w, k) && w[k] == 47 }
// one or two letters, one or two digits, at most one letter
pub open spec fn head_parts(w: Seq<int>, a: int, b: int) -> bool {
    1 <= a <= 2 && 1 <= b <= 2 && a + b <= w.len() <= a + b + 1
    && (forall|i: int| 0 <= i < a ==> alpha(#[trigger] w[i])) && (forall|i: int| a <= i < a + b ==> dig(#[trigger] w[i])) && (forall|i: int| a + b <= i < w.len() ==> alpha(#[trigger] w[i]))
}
pub open spec fn postal_head(w: Seq<int>) -> bool { exists|a: int, b: int| #[trigger] head_parts(w, a, b) }
pub open spec fn postal_tail(w: Seq<int>) -> bool { w.len() == 3 && dig(w[0]) && alpha(w[1]) && (dig(w[2]) || alpha(w[2])) }
// how the library reads the expressions of the classifier (assumed; the harness runs the library)
pub axiom fn axiom_shapes(t: Str)
    requires utf8(t)
    ensures
        re_match(re_make(#"^\\d+$", false), t) <==> all_dig(cps(t)),
        re_match(re_make(#"^\\d+[,\\.]\\d+$", false), t) <==> decimal(cps(t)),
        re_match(re_make(#"^\\w+$", false), t) <==> all_word(cps(t)),
        re_match(re_make(#"^.*\\d.*$", false), t) <==> some_dig(cps(t)),
        re_match(re_make(#"^[-]+$", false), t) <==> all_dash(cps(t)),
        re_match(re_make(#"^\xe2\x80\x94$", false), t) <==> cps(t) == seq![0x2014int],
        re_match(re_make(#"^[\\|[:punct:]]+$", false), t) <==> all_punct(cps(t)),
        re_match(re_make(#"^\\s+$", false), t) <==> all_space(cps(t)),
        re_match(re_make(#"^\\d+/\\d+$", false), t) <==> fraction(cps(t)),
        re_match(re_make(#"^[A-Z]{1,2}\\d{1,2}[A-Z]{0,1}$", true), t) <==> postal_head(cps(t)),
        re_match(re_make(#"^(\\d[A-Z]\\d|\\d[A-Z]{2})$", true), t) <==> postal_tail(cps(t));
pub open spec fn set1(a: int) -> Set<int> { Set::<int>::empty().insert(a) }
pub open spec fn shape(t: Str) -> Set<int> {
    let w = cps(t);
    if decimal(w) { set1(#InClass::NUMBER) }
    else if all_dig(w) { if t.len() == 4 { set1(#InClass::NUMBER).insert(#InClass::QUAD) } else if t.len() == 5 { set1(#InClass::NUMBER).insert(#InClass::QUINT) } else { set1(#InClass::NUMBER) } }
    else if t == #"@" { set1(#InClass::ATSIGN) }
    else if t == #"/" { set1(#InClass::SLASH) }
    else if fraction(w) { set1(#InClass::FRACT) }
    else if postal_head(w) { set1(#InClass::MIXED).insert(#InClass::PCH) }
    else if postal_tail(w) { set1(#InClass::MIXED).insert(#InClass::PCT) }
    else if all_word(w) {
        if some_dig(w) { set1(#InClass::MIXED) }
        else if t.len() == 2 { set1(#InClass::WORD).insert(#InClass::DOUBLE) }
        else if t.len() == 1 { set1(#InClass::WORD).insert(#InClass::SINGLE) }
        else { set1(#InClass::WORD) }
    }
    else if w == seq![0x2014int] { set1(#InClass::EMDASH) }
    else if all_dash(w) { set1(#InClass::DASH) }
    else if t == #"&" { set1(#InClass::AMPERS) }
    else if all_space(w) { set1(#InClass::SPACE) }
    else if all_punct(w) { set1(#InClass::PUNCT) }
    else { Set::<int>::empty() }
}
pub open spec fn has_comma(t: Str, k: int) -> bool { 0 <= k < t.len() && t[k] == 44 && forall|j: int| 0 <= j < k ==> t[j] != 44 }
pub open spec fn pointed(t: Str) -> Str { if exists|k: int| has_comma(t, k) { t.update(choose|k: int| has_comma(t, k), 46) } else { t } }
pub open spec fn types_upto(es: Seq<LexEntry>, n: int) -> Set<int> decreases n { if n <= 0 { Set::<int>::empty() } else { types_upto(es, n - 1).union(es[n - 1].type_) } }
pub open spec fn types_of(es: Seq<LexEntry>) -> Set<int> { types_upto(es, es.len() as int) }
pub open spec fn set_upto(s: Set<int>, n: int) -> Set<int> decreases n { if n <= 0 { Set::<int>::empty() } else { set_upto(s, n - 1).insert(set_items(s)[n - 1]) } }
pub proof fn lemma_set_upto(s: Set<int>, n: int, c: int)
    requires 0 <= n <= set_items(s).len()
    ensures set_upto(s, n).contains(c) <==> s.contains(c) && set_idx(s, c) < n
    decreases n
{ broadcast use containers; if n > 0 { lemma_set_upto(s, n - 1, c); assert(s.contains(set_items(s)[n - 1])); } }
pub proof fn lemma_set_all(s: Set<int>)
    ensures set_upto(s, set_items(s).len() as int) == s
{
    broadcast use containers;
    assert forall|c: int| set_upto(s, set_items(s).len() as int).contains(c) <==> s.contains(c) by { lemma_set_upto(s, set_items(s).len() as int, c); }
    assert(set_upto(s, set_items(s).len() as int) =~= s);
}
pub proof fn lemma_types(es: Seq<LexEntry>, n: int, c: int)
    requires 0 <= n <= es.len()
    ensures types_upto(es, n).contains(c) <==> exists|i: int| 0 <= i < n && (#[trigger] es[i]).type_.contains(c)
    decreases n
{ if n > 0 { lemma_types(es, n - 1, c); if es[n - 1].type_.contains(c) { assert(0 <= n - 1 < n); } } }
pub open spec fn known(tok: Token, l: Lexicon) -> bool { exists|c: int| tok.inclass_.union(types_of(defs(l, tok.text_))).contains(c) }
pub open spec fn classed(tok: Token, l: Lexicon, typ: int) -> Token {
    let found = tok.inclass_.union(types_of(defs(l, tok.text_)));
    if found != Set::<int>::empty() { Token { inclass_: found, inlex_: true, ..tok } }
    else {
        let s = shape(tok.text_);
        Token { inclass_: if s == Set::<int>::empty() { set1(typ) } else { s }, inlex_: false, text_: if decimal(cps(tok.text_)) { pointed(tok.text_) } else { tok.text_ }, ..tok }
    }
}
@@end
@@spec C09
// a token of a known word has the classes of all definitions of the word, and is marked
pub proof fn C09_known_word(tok: Token, l: Lexicon, typ: int, c: int)
    requires tok.inclass_ == Set::<int>::empty(), exists|i: int, d: int| 0 <= i < defs(l, tok.text_).len() && #[trigger] defs(l, tok.text_)[i].type_.contains(d)
    ensures
        classed(tok, l, typ).inlex_, classed(tok, l, typ).text_ == tok.text_,
        classed(tok, l, typ).inclass_.contains(c) <==> exists|i: int| 0 <= i < defs(l, tok.text_).len() && (#[trigger] defs(l, tok.text_)[i]).type_.contains(c),
{
    let es = defs(l, tok.text_);
    let (i, d) = choose|i: int, d: int| 0 <= i < es.len() && #[trigger] es[i].type_.contains(d);
    lemma_types(es, es.len() as int, d); lemma_types(es, es.len() as int, c);
    assert(types_of(es).contains(d));
    assert(tok.inclass_.union(types_of(es)).contains(d));
}
// a token of an unknown word is not marked and has the classes of its shape, or the fallback
pub proof fn C09_unknown_word(tok: Token, l: Lexicon, typ: int)
    requires tok.inclass_ == Set::<int>::empty(), defs(l, tok.text_).len() == 0
    ensures
        !classed(tok, l, typ).inlex_,
        shape(tok.text_) != Set::<int>::empty() ==> classed(tok, l, typ).inclass_ == shape(tok.text_),
        shape(tok.text_) == Set::<int>::empty() ==> classed(tok, l, typ).inclass_ == set1(typ),
        !decimal(cps(tok.text_)) ==> classed(tok, l, typ).text_ == tok.text_,
{ assert(tok.inclass_.union(types_of(defs(l, tok.text_))) =~= Set::<int>::empty()); }
pub proof fn C09_never_without_class(tok: Token, l: Lexicon, typ: int)
    ensures classed(tok, l, typ).inclass_ != Set::<int>::empty()
{ assert(set1(typ).contains(typ)); }
@@end
@@fn Lexicon::classify(Token&,InClass::Type)
params: this token typ
requires utf8($token.text_), $token.text_.len() < npos(),
ensures $this' == $this, $token' == classed($token, $this, $typ),
@@entry
axiom_shapes($$token.text_);
let t = $$token.text_; let k = first_in(t, #",", 0, true);
lemma_first_in(t, #",", 0, true);
assert(#",".contains(44)) by { assert(#","[0] == 44); }
assert forall|c: int| #",".contains(c) implies c == 44 by {}
if k != npos() {
    assert(has_comma(t, k));
    assert forall|j: int| has_comma(t, j) implies j == k by { if j < k { assert(t[j] == 44); } }
} else { assert forall|j: int| !has_comma(t, j) by { if has_comma(t, j) { assert(#",".contains(t[j])); } } }
let found = $$token.inclass_.union(types_of(defs($$this, t)));
assert(found.len() == 0 ==> found =~= Set::<int>::empty());
@@loop 1
invariant $this == $$this, $typ == $$typ, $token == (Token { inclass_: $$token.inclass_.union(types_upto(defs($$this, $$token.text_), $i)), ..$$token }),
@@loop 2
invariant $this == $$this, $typ == $$typ, $token == (Token { inclass_: $$token.inclass_.union(types_upto(defs($$this, $$token.text_), $i1)).union(set_upto(defs($$this, $$token.text_)[$i1].type_, $i2)), ..$$token }),
@@afterloop 2
let es = defs($$this, $$token.text_); let a = $$token.inclass_;
lemma_set_all(es[$i1].type_);
assert(a.union(types_upto(es, $i1)).union(es[$i1].type_) =~= a.union(types_upto(es, $i1 + 1)));
@@loopbody 2
let a = $$token.inclass_.union(types_upto(defs($$this, $$token.text_), $i1)); let s = defs($$this, $$token.text_)[$i1].type_;
assert(a.union(set_upto(s, $i2)).insert(set_items(s)[$i2]) =~= a.union(set_upto(s, $i2 + 1)));
@@loopbody 1
assert($$token.inclass_.union(types_upto(defs($$this, $$token.text_), $i)).union(Set::<int>::empty()) =~= $$token.inclass_.union(types_upto(defs($$this, $$token.text_), $i)));
@@return
let want = classed($$token, $$this, $$typ);
assert(shape($$token.text_) == Set::<int>::empty() ==> !shape($$token.text_).contains(#InClass::NUMBER));
assert($token.inclass_ =~= want.inclass_);
@@end
@@spec
// the standard word of the first definition with the class, or nothing
pub open spec fn std_from(es: Seq<LexEntry>, c: int, k: int) -> Str decreases es.len() - k {
    if k < 0 || k >= es.len() { Seq::<int>::empty() } else if es[k].type_.contains(c) { es[k].stdword_ } else { std_from(es, c, k + 1) }
}
pub open spec fn standardized(tok: Token, l: Lexicon) -> Token {
    let es = defs(l, tok.text_); let c = set_items(tok.inclass_)[0];
    let found = exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).type_.contains(c);
    let w = if found { std_from(es, c, 0) } else { tok.stdtext_ };
    Token { stdtext_: if w.len() == 0 { tok.text_ } else { w }, ..tok }
}
@@end
@@spec C10
// a tagged token carries one class; f is the first definition of its text with that class
pub open spec fn first_def(es: Seq<LexEntry>, c: int, f: int) -> bool { 0 <= f < es.len() && es[f].type_.contains(c) && forall|j: int| 0 <= j < f ==> !(#[trigger] es[j]).type_.contains(c) }
pub proof fn lemma_std_from(es: Seq<LexEntry>, c: int, k: int, f: int)
    requires first_def(es, c, f), 0 <= k <= f
    ensures std_from(es, c, k) == es[f].stdword_
    decreases f - k
{ if k < f { lemma_std_from(es, c, k + 1, f); } }
pub proof fn C10_standard_word(tok: Token, l: Lexicon, c: int, f: int)
    requires tok.inclass_ == set1(c), first_def(defs(l, tok.text_), c, f), defs(l, tok.text_)[f].stdword_.len() > 0
    ensures standardized(tok, l) == (Token { stdtext_: defs(l, tok.text_)[f].stdword_, ..tok })
{
    broadcast use containers;
    assert(set_items(tok.inclass_).contains(c)) by { assert(tok.inclass_.contains(c)); assert(set_items(tok.inclass_)[set_idx(tok.inclass_, c)] == c); }
    assert(tok.inclass_.contains(set_items(tok.inclass_)[0]));
    lemma_std_from(defs(l, tok.text_), c, 0, f);
}
pub proof fn C10_empty_standard_word(tok: Token, l: Lexicon, c: int, f: int)
    requires tok.inclass_ == set1(c), first_def(defs(l, tok.text_), c, f), defs(l, tok.text_)[f].stdword_.len() == 0
    ensures standardized(tok, l) == (Token { stdtext_: tok.text_, ..tok })
{
    broadcast use containers;
    assert(set_items(tok.inclass_).contains(c)) by { assert(tok.inclass_.contains(c)); assert(set_items(tok.inclass_)[set_idx(tok.inclass_, c)] == c); }
    assert(tok.inclass_.contains(set_items(tok.inclass_)[0]));
    lemma_std_from(defs(l, tok.text_), c, 0, f);
}
pub proof fn C10_no_definition(tok: Token, l: Lexicon, c: int)
    requires tok.inclass_ == set1(c), tok.stdtext_.len() == 0, forall|j: int| 0 <= j < defs(l, tok.text_).len() ==> !(#[trigger] defs(l, tok.text_)[j]).type_.contains(c)
    ensures standardized(tok, l) == (Token { stdtext_: tok.text_, ..tok })
{
    broadcast use containers;
    assert(set_items(tok.inclass_).contains(c)) by { assert(tok.inclass_.contains(c)); assert(set_items(tok.inclass_)[set_idx(tok.inclass_, c)] == c); }
    assert(tok.inclass_.contains(set_items(tok.inclass_)[0]));
}
@@end
@@fn Lexicon::standardize(Token&)
params: this token
requires exists|c: int| $token.inclass_.contains(c),
ensures $this' == $this, $token' == standardized($token, $this),
@@entry
let ghost es = defs($$this, $$token.text_);
let ghost c0 = set_items($$token.inclass_)[0];
let c = choose|c: int| $$token.inclass_.contains(c);
assert(set_items($$token.inclass_)[set_idx($$token.inclass_, c)] == c);
@@loop 1
invariant_except_break $this == $$this, $token == $$token, forall|j: int| 0 <= j < $i ==> !(#[trigger] es[j]).type_.contains(c0), std_from(es, c0, 0) == std_from(es, c0, $i),
ensures $this == $$this, $token == (Token { stdtext_: if exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).type_.contains(c0) { std_from(es, c0, 0) } else { $$token.stdtext_ }, ..$$token }),
@@loopbody 1
if es[$i].type_.contains(c0) { assert(0 <= $i < es.len()); }
@@end
