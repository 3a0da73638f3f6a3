@@uses classify token classes
@@spec
// a token as read from a text of fields
#[verifier::opaque]
pub open spec fn token_of(text: Str) -> Token {
    let a = line_read(stream_of(text), Seq::<int>::empty(), 9);
    let w = if a.1 == #"TOKEN:" { line_read(a.0, a.1, 9) } else { a };
    let s = line_read(w.0, Seq::<int>::empty(), 9);
    let i = line_read(s.0, Seq::<int>::empty(), 9);
    let o = line_read(i.0, Seq::<int>::empty(), 9);
    let d = line_read(o.0, Seq::<int>::empty(), 9);
    Token { text_: w.1, stdtext_: s.1, inclass_: codes_of(i.1), outclass_: out_code(o.1), attached_: atts_of(d.1), inlex_: false }
}
pub proof fn lemma_rest(st: Stream, old: Str, d: int)
    ensures line_read(st, old, d).1.len() <= st.rest.len() || line_read(st, old, d).1 == old, line_read(st, old, d).0.rest.len() <= st.rest.len(),
{ lemma_upto(st.rest, d, 0); }
@@end
@@fn Token::Token(string)
params: text
requires $text.len() < npos() - 1,
ensures $ret == token_of($text),
@@entry
reveal(token_of);
let l = $$text;
let a = line_read(stream_of(l), Seq::<int>::empty(), 9);
lemma_rest(stream_of(l), Seq::<int>::empty(), 9);
let w = if a.1 == #"TOKEN:" { line_read(a.0, a.1, 9) } else { a };
let s = line_read(w.0, Seq::<int>::empty(), 9);
lemma_rest(a.0, a.1, 9);
let i = line_read(s.0, Seq::<int>::empty(), 9);
lemma_rest(w.0, Seq::<int>::empty(), 9);
let o = line_read(i.0, Seq::<int>::empty(), 9);
lemma_rest(s.0, Seq::<int>::empty(), 9);
lemma_rest(i.0, Seq::<int>::empty(), 9);
lemma_rest(o.0, Seq::<int>::empty(), 9);
@@end
@@spec
// what is left of the first n tokens when those of a filtered class are taken out
pub open spec fn filtered(t: Token, f: Set<int>) -> bool { exists|x: int| f.contains(x) && t.inclass_.contains(x) }
pub open spec fn kept(ts: Seq<Token>, f: Set<int>, n: int) -> Seq<Token> decreases n {
    if n <= 0 { Seq::<Token>::empty() } else if filtered(ts[n - 1], f) { kept(ts, f, n - 1) } else { kept(ts, f, n - 1).push(ts[n - 1]) }
}
pub open spec fn unfiltered(ts: Seq<Token>, f: Set<int>) -> Seq<Token> { kept(ts, f, ts.len() as int) }
@@end
@@fn Tokenizer::applyFilter(vector<Token>)
params: this in
vars: out Seq<Token>
ensures $ret == unfiltered($in, $this.filter_), $this' == $this,
@@loop 1
invariant $in == $$in, $this == $$this, $out == kept($$in, $$this.filter_, $i),
@@end
@@fn Tokenizer::removeFilter(InClass::Type)
params: this filter
ensures $this' == (Tokenizer { filter_: $this.filter_.remove($filter), ..$this }),
@@return
assert(!$$this.filter_.contains($$filter) ==> $$this.filter_.remove($$filter) =~= $$this.filter_);
@@end
@@fn Tokenizer::addFilter(InClass::Type)
params: this filter
ensures $this' == (Tokenizer { filter_: $this.filter_.insert($filter), ..$this }),
@@end
@@fn Tokenizer::clearFilter()
params: this
ensures $this' == (Tokenizer { filter_: Set::<int>::empty(), ..$this }),
@@end
@@fn Tokenizer::filter(set<InClass::Type>)
params: this filter
ensures $this' == (Tokenizer { filter_: $filter, ..$this }),
@@end
@@fn Tokenizer::filter()
params: this
ensures $ret == $this.filter_,
@@end
@@spec C19
// the positions of the tokens that stay, in order
pub open spec fn places(ts: Seq<Token>, f: Set<int>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::<int>::empty() } else if filtered(ts[n - 1], f) { places(ts, f, n - 1) } else { places(ts, f, n - 1).push(n - 1) }
}
// the result is the tokens at rising positions, unchanged, and those positions are exactly the ones without a filtered class
pub proof fn C19_keeps_the_rest_in_order(ts: Seq<Token>, f: Set<int>, n: int)
    requires 0 <= n <= ts.len()
    ensures
        kept(ts, f, n).len() == places(ts, f, n).len(),
        forall|i: int| 0 <= i < places(ts, f, n).len() ==> 0 <= #[trigger] places(ts, f, n)[i] < n && kept(ts, f, n)[i] == ts[places(ts, f, n)[i]],
        forall|i: int, j: int| 0 <= i < j < places(ts, f, n).len() ==> #[trigger] places(ts, f, n)[i] < #[trigger] places(ts, f, n)[j],
        forall|p: int| 0 <= p < n ==> (#[trigger] places(ts, f, n).contains(p) <==> !filtered(ts[p], f)),
    decreases n
{
    if n > 0 {
        C19_keeps_the_rest_in_order(ts, f, n - 1);
        let a = places(ts, f, n - 1); let b = places(ts, f, n);
        assert forall|p: int| 0 <= p < n implies (#[trigger] b.contains(p) <==> !filtered(ts[p], f)) by {
            if p < n - 1 { assert(a.contains(p) <==> !filtered(ts[p], f));
                if a.contains(p) { let k = choose|k: int| 0 <= k < a.len() && a[k] == p; assert(b[k] == p); }
                if b.contains(p) { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; assert(a[k] == p); } }
            else { if !filtered(ts[p], f) { assert(b[a.len() as int] == p); } else if b.contains(p) { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; assert(a[k] == n - 1); } }
        }
    }
}
// nothing is filtered by the empty filter, and filtering twice is filtering once
pub proof fn C19_empty_filter(ts: Seq<Token>, n: int)
    requires 0 <= n <= ts.len()
    ensures kept(ts, Set::<int>::empty(), n) == ts.subrange(0, n)
    decreases n
{ if n > 0 { C19_empty_filter(ts, n - 1); } assert(kept(ts, Set::<int>::empty(), n) =~= ts.subrange(0, n)); }
// the filter after a history of changes
pub enum Edit { Add { c: int }, Drop { c: int }, Clear, Put { f: Set<int> } }
pub open spec fn edited(f: Set<int>, e: Edit) -> Set<int> { match e { Edit::Add { c } => f.insert(c), Edit::Drop { c } => f.remove(c), Edit::Clear => Set::<int>::empty(), Edit::Put { f } => f } }
pub open spec fn turned(a: Tokenizer, e: Edit, b: Tokenizer) -> bool { b == Tokenizer { filter_: edited(a.filter_, e), ..a } }
pub open spec fn names(e: Edit, c: int) -> bool { match e { Edit::Add { c: d } => c == d, Edit::Drop { c: d } => c == d, _ => true } }
pub open spec fn sets(e: Edit, c: int) -> bool { match e { Edit::Add { c: d } => c == d, Edit::Drop { .. } => false, Edit::Clear => false, Edit::Put { f } => f.contains(c) } }
// a class is in the filter exactly if the last change that is about it put it there
pub proof fn C19_filter_history(zs: Seq<Tokenizer>, es: Seq<Edit>, c: int)
    requires zs.len() == es.len() + 1, forall|i: int| 0 <= i < es.len() ==> turned(zs[i], #[trigger] es[i], zs[i + 1])
    ensures zs.last().lex_ == zs[0].lex_,
        zs.last().filter_.contains(c) <==> ((exists|i: int| 0 <= i < es.len() && sets(#[trigger] es[i], c) && forall|j: int| i < j < es.len() ==> !names(#[trigger] es[j], c))
            || (zs[0].filter_.contains(c) && forall|j: int| 0 <= j < es.len() ==> !names(#[trigger] es[j], c)))
    decreases es.len()
{
    let n = es.len() as int;
    if n > 0 {
        let zp = zs.drop_last(); let ep = es.drop_last();
        assert forall|i: int| 0 <= i < ep.len() implies turned(zp[i], #[trigger] ep[i], zp[i + 1]) by { assert(ep[i] == es[i]); }
        C19_filter_history(zp, ep, c);
        let e = es[n - 1];
        assert(turned(zs[n - 1], e, zs[n]));
        if names(e, c) {
            if sets(e, c) { assert(sets(es[n - 1], c)); }
            else if exists|i: int| 0 <= i < es.len() && sets(#[trigger] es[i], c) && forall|j: int| i < j < es.len() ==> !names(#[trigger] es[j], c) {
                let i = choose|i: int| 0 <= i < es.len() && sets(#[trigger] es[i], c) && forall|j: int| i < j < es.len() ==> !names(#[trigger] es[j], c);
                assert(i == n - 1); assert(false);
            }
            assert(names(es[n - 1], c));
        } else {
            assert forall|i: int| 0 <= i < ep.len() implies ep[i] == es[i] by {}
            let late = exists|i: int| 0 <= i < es.len() && sets(#[trigger] es[i], c) && forall|j: int| i < j < es.len() ==> !names(#[trigger] es[j], c);
            let early = exists|i: int| 0 <= i < ep.len() && sets(#[trigger] ep[i], c) && forall|j: int| i < j < ep.len() ==> !names(#[trigger] ep[j], c);
            if late { let i = choose|i: int| 0 <= i < es.len() && sets(#[trigger] es[i], c) && forall|j: int| i < j < es.len() ==> !names(#[trigger] es[j], c); assert(i < n - 1); assert(sets(ep[i], c)); assert forall|j: int| i < j < ep.len() implies !names(#[trigger] ep[j], c) by { assert(!names(es[j], c)); } }
            if early { let i = choose|i: int| 0 <= i < ep.len() && sets(#[trigger] ep[i], c) && forall|j: int| i < j < ep.len() ==> !names(#[trigger] ep[j], c); assert(sets(es[i], c)); assert forall|j: int| i < j < es.len() implies !names(#[trigger] es[j], c) by { if j < n - 1 { assert(!names(ep[j], c)); } } }
            if forall|j: int| 0 <= j < ep.len() ==> !names(#[trigger] ep[j], c) { assert forall|j: int| 0 <= j < es.len() implies !names(#[trigger] es[j], c) by { if j < n - 1 { assert(!names(ep[j], c)); } } }
            if forall|j: int| 0 <= j < es.len() ==> !names(#[trigger] es[j], c) { assert forall|j: int| 0 <= j < ep.len() implies !names(#[trigger] ep[j], c) by { assert(!names(es[j], c)); } }
        }
    }
}
@@end
@@spec
// ---- words of a text: what a split at blanks gives -------------------------------------------
#[verifier::opaque]
pub open spec fn words_of(t: Str) -> Seq<Str> { str_split(str_trim(t, #" "), #" ", true) }
pub open spec fn multi(t: Token) -> bool { words_of(t.text_).len() > 1 }
// tokens of several words among the first j
pub open spec fn before(ts: Seq<Token>, j: int) -> int decreases j { if j <= 0 { 0 } else { before(ts, j - 1) + if multi(ts[j - 1]) { 1int } else { 0 } } }
pub open spec fn bit(i: int, n: int) -> bool { (i / pow2i(n)) % 2 != 0 }
#[verifier::opaque]
pub open spec fn word_token(w: Str, l: Lexicon) -> Token { classed(token_of(w), l, #InClass::WORD) }
pub open spec fn word_tokens(ws: Seq<Str>, l: Lexicon, n: int) -> Seq<Token> decreases n { if n <= 0 { Seq::<Token>::empty() } else { word_tokens(ws, l, n - 1).push(word_token(ws[n - 1], l)) } }
pub open spec fn in_words(t: Token, l: Lexicon) -> Seq<Token> { word_tokens(words_of(t.text_), l, words_of(t.text_).len() as int) }
// the phrase in which the tokens chosen by the bits of i are replaced
pub open spec fn alt_upto(ts: Seq<Token>, l: Lexicon, i: int, j: int) -> Seq<Token> decreases j {
    if j <= 0 { Seq::<Token>::empty() }
    else if multi(ts[j - 1]) && bit(i, before(ts, j - 1)) { alt_upto(ts, l, i, j - 1) + in_words(ts[j - 1], l) }
    else { alt_upto(ts, l, i, j - 1).push(ts[j - 1]) }
}
pub open spec fn alts_upto(ts: Seq<Token>, l: Lexicon, n: int) -> Seq<Seq<Token>> decreases n { if n <= 1 { Seq::<Seq<Token>>::empty() } else { alts_upto(ts, l, n - 1).push(alt_upto(ts, l, n - 1, ts.len() as int)) } }
pub open spec fn alternatives(ts: Seq<Token>, l: Lexicon) -> Seq<Seq<Token>> { alts_upto(ts, l, pow2i(before(ts, ts.len() as int))) }
pub open spec fn texts_ok(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> utf8(#[trigger] ts[i].text_) && ts[i].text_.len() < npos() - 1 }
pub proof fn lemma_before(ts: Seq<Token>, a: int, b: int)
    requires 0 <= a <= b
    ensures 0 <= before(ts, a) <= before(ts, b), b > a && multi(ts[a]) ==> before(ts, a) < before(ts, b), before(ts, b) <= b
    decreases b
{ if b > a { lemma_before(ts, a, b - 1); } else if a > 0 { lemma_before(ts, a - 1, b - 1); } }
pub proof fn lemma_pow_mono(a: int, b: int)
    requires 0 <= a <= b
    ensures 0 < pow2i(a) <= pow2i(b), pow2i(a + 1) == 2 * pow2i(a)
    decreases b
{ if b > a { lemma_pow_mono(a, b - 1); } else if a > 0 { lemma_pow_mono(a - 1, b - 1); } }
pub proof fn lemma_pow31() ensures pow2i(31) == 0x8000_0000 { assert(pow2i(31) == 0x8000_0000) by (compute); }
pub proof fn lemma_skip(s: Str, set: Str, i: int)
    requires 0 <= i <= s.len()
    ensures i <= skip_in(s, set, i) <= s.len(), i < s.len() && set.contains(s[i]) ==> skip_in(s, set, i) > i, forall|k: int| i <= k < skip_in(s, set, i) ==> set.contains(#[trigger] s[k])
    decreases s.len() - i
{ if i < s.len() && set.contains(s[i]) { lemma_skip(s, set, i + 1); } }
pub proof fn lemma_pieces(s: Str, start: int, i: int)
    requires 0 <= start <= i <= s.len(), utf8(s.subrange(start, s.len() as int))
    ensures split_from(s, #" ", true, start, i).len() > 0, forall|k: int| 0 <= k < split_from(s, #" ", true, start, i).len() ==> utf8(#[trigger] split_from(s, #" ", true, start, i)[k]) && split_from(s, #" ", true, start, i)[k].len() <= s.len()
    decreases s.len() - i
{
    lemma_blank();
    let ws = split_from(s, #" ", true, start, i);
    if i < s.len() {
        if s[i] == 32 {
            let k = skip_in(s, #" ", i);
            lemma_skip(s, #" ", i);
            let r = s.subrange(start, s.len() as int);
            assert(r[i - start] == s[i]);
            lemma_cut(r, i - start);
            assert(r.subrange(0, i - start) =~= s.subrange(start, i));
            assert(r[k - 1 - start] == s[k - 1]);
            lemma_cut(r, k - 1 - start);
            assert(r.subrange(k - start, r.len() as int) =~= s.subrange(k, s.len() as int));
            lemma_pieces(s, k, k);
            let more = split_from(s, #" ", true, k, k);
            assert(ws == seq![s.subrange(start, i)] + more);
            assert forall|q: int| 0 <= q < ws.len() implies utf8(#[trigger] ws[q]) && ws[q].len() <= s.len() by { if q > 0 { assert(ws[q] == more[q - 1]); } }
        } else { lemma_pieces(s, start, i + 1); }
    }
}
pub proof fn lemma_words(t: Str)
    requires utf8(t)
    ensures words_of(t).len() > 0, forall|k: int| 0 <= k < words_of(t).len() ==> utf8(#[trigger] words_of(t)[k]) && words_of(t)[k].len() <= t.len()
{ reveal(words_of); lemma_trimmed(t); let u = str_trim(t, #" "); assert(u.subrange(0, u.len() as int) =~= u); lemma_pieces(u, 0, 0); }
pub proof fn lemma_token_text(t: Str)
    requires utf8(t)
    ensures utf8(token_of(t).text_), token_of(t).text_.len() <= t.len()
{ reveal(token_of); let a = line_read(stream_of(t), Seq::<int>::empty(), 9); lemma_whole_field(stream_of(t), Seq::<int>::empty()); lemma_rest(stream_of(t), Seq::<int>::empty(), 9); lemma_whole_field(a.0, a.1); }
@@end
@@fn Tokenizer::getAltTokens(vector<Token>)
params: this in
vars: alt Seq<Seq<Str>>; cnt int; list Seq<Seq<Token>>; one Seq<Token>; n int#3; j int#4
opt: hide classed
requires texts_ok($in), before($in, $in.len() as int) <= 31,
ensures $ret == alternatives($in, $this.lex_), $this' == $this,
@@entry
assert forall|k: int| 0 <= k < $$in.len() implies words_of(#[trigger] $$in[k].text_).len() > 0 by { lemma_words($$in[k].text_); }
lemma_before($$in, 0, $$in.len() as int);
lemma_pow31(); lemma_pow_mono(before($$in, $$in.len() as int), 31);
@@loop 1
invariant $in == $$in, $this == $$this, $alt.len() == $i, forall|k: int| 0 <= k < $i ==> #[trigger] $alt[k] == words_of($$in[k].text_),
@@loopbody 1
reveal(words_of);
@@loop 2
invariant $in == $$in, $this == $$this, $cnt == pow2i(before($$in, $i)),
@@loopbody 2
lemma_before($$in, $i, $$in.len() as int); lemma_before($$in, $i + 1, $$in.len() as int); lemma_before($$in, 0, $i);
lemma_pow_mono(before($$in, $i), before($$in, $i)); lemma_pow_mono(before($$in, $i + 1), 31);
@@loop 3
invariant $in == $$in, $this == $$this, $list == alts_upto($$in, $$this.lex_, $i),
@@loop 4
invariant $in == $$in, $this == $$this, $n == before($$in, $j), $one == alt_upto($$in, $$this.lex_, $i3, $j),
@@loopbody 4
lemma_before($$in, $j, $$in.len() as int); lemma_before($$in, 0, $j); lemma_pow_mono($n, $n); lemma_words($$in[$j].text_);
if multi($$in[$j]) { assert($n < 31); }
assert(($i3 / pow2i($n)) % 2 >= 0);
@@loop 5
invariant $in == $$in, $this == $$this, $one == alt_upto($$in, $$this.lex_, $i3, $j) + word_tokens(words_of($$in[$j].text_), $$this.lex_, $i5),
@@loopbody 5
reveal(word_token);
lemma_token_text(words_of($$in[$j].text_)[$i5]);
@@return
assert($list =~= alternatives($$in, $$this.lex_));
@@end
@@spec C20
// the phrase in which exactly the tokens at the places in s are replaced by their words
pub open spec fn chosen(ts: Seq<Token>, l: Lexicon, s: Set<int>, j: int) -> Seq<Token> decreases j {
    if j <= 0 { Seq::<Token>::empty() }
    else if s.contains(j - 1) { chosen(ts, l, s, j - 1) + in_words(ts[j - 1], l) }
    else { chosen(ts, l, s, j - 1).push(ts[j - 1]) }
}
pub open spec fn total(ts: Seq<Token>) -> int { before(ts, ts.len() as int) }
pub open spec fn places_of(ts: Seq<Token>) -> Set<int> { vstd::set_lib::set_int_range(0, ts.len() as int).filter(|j: int| multi(ts[j])) }
pub open spec fn picked(ts: Seq<Token>, i: int) -> Set<int> { vstd::set_lib::set_int_range(0, ts.len() as int).filter(|j: int| multi(ts[j]) && bit(i, before(ts, j))) }
// the number whose bits are the choice s
pub open spec fn number_of(ts: Seq<Token>, s: Set<int>, j: int) -> int decreases ts.len() - j {
    if j < 0 || j >= ts.len() { 0 } else if multi(ts[j]) { (if s.contains(j) { 1int } else { 0 }) + 2 * number_of(ts, s, j + 1) } else { number_of(ts, s, j + 1) }
}
pub proof fn lemma_alt(ts: Seq<Token>, l: Lexicon, i: int, j: int)
    requires 0 <= j <= ts.len()
    ensures alt_upto(ts, l, i, j) == chosen(ts, l, picked(ts, i), j)
    decreases j
{ if j > 0 { lemma_alt(ts, l, i, j - 1); } }
pub proof fn lemma_alts(ts: Seq<Token>, l: Lexicon, n: int)
    requires n >= 1
    ensures alts_upto(ts, l, n).len() == n - 1, forall|i: int| 1 <= i < n ==> #[trigger] alts_upto(ts, l, n)[i - 1] == alt_upto(ts, l, i, ts.len() as int)
    decreases n
{
    if n > 1 {
        lemma_alts(ts, l, n - 1);
        assert forall|i: int| 1 <= i < n implies #[trigger] alts_upto(ts, l, n)[i - 1] == alt_upto(ts, l, i, ts.len() as int) by { if i < n - 1 { assert(alts_upto(ts, l, n)[i - 1] == alts_upto(ts, l, n - 1)[i - 1]); } }
    }
}
pub proof fn lemma_halve(i: int, n: int)
    requires i >= 0, n >= 0
    ensures i / pow2i(n + 1) == (i / pow2i(n)) / 2, i / pow2i(n + 1) == (i / 2) / pow2i(n), bit(i, n + 1) == bit(i / 2, n), pow2i(n) > 0
{
    lemma_pow_mono(n, n);
    let p = pow2i(n);
    assert(pow2i(n + 1) == p * 2);
    vstd::arithmetic::div_mod::lemma_div_denominator(i, p, 2);
    vstd::arithmetic::div_mod::lemma_div_denominator(i, 2, p);
    assert(2 * p == p * 2);
}
pub proof fn lemma_number(ts: Seq<Token>, s: Set<int>, j: int)
    requires 0 <= j <= ts.len()
    ensures 0 <= number_of(ts, s, j) < pow2i(total(ts) - before(ts, j)), before(ts, j) <= total(ts)
    decreases ts.len() - j
{
    lemma_before(ts, j, ts.len() as int);
    if j < ts.len() { lemma_number(ts, s, j + 1); lemma_before(ts, j, j + 1); lemma_before(ts, j + 1, ts.len() as int); if multi(ts[j]) { lemma_pow_mono(total(ts) - before(ts, j + 1), total(ts) - before(ts, j)); } }
}
pub proof fn lemma_shifted(ts: Seq<Token>, s: Set<int>, j: int)
    requires 0 <= j <= ts.len()
    ensures number_of(ts, s, 0) / pow2i(before(ts, j)) == number_of(ts, s, j)
    decreases j
{
    if j > 0 {
        lemma_shifted(ts, s, j - 1); lemma_number(ts, s, 0); lemma_number(ts, s, j); lemma_before(ts, 0, j - 1);
        if multi(ts[j - 1]) { lemma_halve(number_of(ts, s, 0), before(ts, j - 1)); }
    } else { assert(pow2i(0) == 1); }
}
pub proof fn lemma_same_bits(a: int, b: int, k: int)
    requires 0 <= a < pow2i(k), 0 <= b < pow2i(k), k >= 0, forall|n: int| 0 <= n < k ==> bit(a, n) == #[trigger] bit(b, n)
    ensures a == b
    decreases k
{
    if k > 0 {
        lemma_pow_mono(k - 1, k);
        assert forall|n: int| 0 <= n < k - 1 implies bit(a / 2, n) == #[trigger] bit(b / 2, n) by { lemma_halve(a, n); lemma_halve(b, n); assert(bit(a, n + 1) == bit(b, n + 1)); }
        lemma_same_bits(a / 2, b / 2, k - 1);
        assert(bit(a, 0) == bit(b, 0)); assert(pow2i(0) == 1);
    }
}
// every bit belongs to one token
pub proof fn lemma_owner(ts: Seq<Token>, n: int, j: int) -> (p: int)
    requires 0 <= n < before(ts, j), 0 <= j <= ts.len()
    ensures 0 <= p < j, multi(ts[p]), before(ts, p) == n
    decreases j
{ if j > 0 { if n < before(ts, j - 1) { lemma_owner(ts, n, j - 1) } else { lemma_before(ts, 0, j - 1); j - 1 } } else { 0 } }
// one alternative for every choice but the empty one
pub proof fn C20_count(ts: Seq<Token>, l: Lexicon)
    ensures alternatives(ts, l).len() == pow2i(total(ts)) - 1, total(ts) >= 0
{ lemma_before(ts, 0, ts.len() as int); lemma_pow_mono(total(ts), total(ts)); lemma_alts(ts, l, pow2i(total(ts))); }
// every alternative replaces a non-empty choice of the tokens of several words, and no other
pub proof fn C20_every_alternative_is_a_choice(ts: Seq<Token>, l: Lexicon, i: int)
    requires 0 <= i < alternatives(ts, l).len()
    ensures alternatives(ts, l)[i] == chosen(ts, l, picked(ts, i + 1), ts.len() as int), picked(ts, i + 1).subset_of(places_of(ts)), exists|j: int| #[trigger] picked(ts, i + 1).contains(j)
{
    C20_count(ts, l);
    lemma_alts(ts, l, pow2i(total(ts))); lemma_alt(ts, l, i + 1, ts.len() as int);
    assert(alts_upto(ts, l, pow2i(total(ts)))[(i + 1) - 1] == alt_upto(ts, l, i + 1, ts.len() as int));
    if forall|j: int| !#[trigger] picked(ts, i + 1).contains(j) {
        assert forall|n: int| 0 <= n < total(ts) implies bit(i + 1, n) == #[trigger] bit(0, n) by {
            let p = lemma_owner(ts, n, ts.len() as int); assert(!picked(ts, i + 1).contains(p));
            lemma_pow_mono(n, n); assert(0int / pow2i(n) == 0) by { vstd::arithmetic::div_mod::lemma_basic_div(0, pow2i(n)); }
        }
        lemma_same_bits(i + 1, 0, total(ts));
    }
}
// and every non-empty choice has its alternative
pub proof fn C20_every_choice_is_an_alternative(ts: Seq<Token>, l: Lexicon, s: Set<int>, e: int)
    requires s.subset_of(places_of(ts)), s.contains(e)
    ensures exists|i: int| 0 <= i < alternatives(ts, l).len() && picked(ts, i + 1) == s && #[trigger] alternatives(ts, l)[i] == chosen(ts, l, s, ts.len() as int)
{
    let k = number_of(ts, s, 0);
    C20_count(ts, l); lemma_number(ts, s, 0); assert(before(ts, 0) == 0);
    assert forall|j: int| picked(ts, k).contains(j) == s.contains(j) by {
        if 0 <= j < ts.len() && multi(ts[j]) { lemma_shifted(ts, s, j); lemma_number(ts, s, j); lemma_number(ts, s, j + 1); assert(bit(k, before(ts, j)) <==> s.contains(j)); }
        else { assert(!places_of(ts).contains(j)); }
    }
    assert(picked(ts, k) =~= s);
    if k == 0 { assert(places_of(ts).contains(e)); lemma_before(ts, 0, e); lemma_pow_mono(before(ts, e), before(ts, e)); assert(0int / pow2i(before(ts, e)) == 0) by { vstd::arithmetic::div_mod::lemma_basic_div(0, pow2i(before(ts, e))); } assert(!picked(ts, k).contains(e)); }
    C20_every_alternative_is_a_choice(ts, l, k - 1);
}
// no choice comes twice
pub proof fn C20_no_choice_twice(ts: Seq<Token>, l: Lexicon, a: int, b: int)
    requires 0 <= a < b < alternatives(ts, l).len()
    ensures picked(ts, a + 1) != picked(ts, b + 1)
{
    C20_count(ts, l);
    if picked(ts, a + 1) == picked(ts, b + 1) {
        assert forall|n: int| 0 <= n < total(ts) implies bit(a + 1, n) == #[trigger] bit(b + 1, n) by {
            let p = lemma_owner(ts, n, ts.len() as int); assert(picked(ts, a + 1).contains(p) == picked(ts, b + 1).contains(p));
        }
        lemma_same_bits(a + 1, b + 1, total(ts));
    }
}
// a phrase of single words has no alternatives
pub proof fn C20_no_compound_no_alternative(ts: Seq<Token>, l: Lexicon)
    requires forall|j: int| 0 <= j < ts.len() ==> !multi(#[trigger] ts[j])
    ensures alternatives(ts, l).len() == 0
{
    C20_count(ts, l);
    if total(ts) > 0 { let p = lemma_owner(ts, 0, ts.len() as int); }
}
// a word that is not itself a line of fields is read as that word
pub proof fn C20_word_text(w: Str)
    requires utf8(w), forall|k: int| 0 <= k < w.len() ==> w[k] != 9, w != #"TOKEN:"
    ensures token_of(w).text_ == w, token_of(w).stdtext_ == Seq::<int>::empty(), token_of(w).inclass_ == Set::<int>::empty(), token_of(w).attached_ == Set::<int>::empty(), !token_of(w).inlex_
{
    reveal(token_of); broadcast use containers;
    lemma_upto(w, 9, 0);
    let a = line_read(stream_of(w), Seq::<int>::empty(), 9);
    assert(a.1 =~= w);
    assert(a.0.eof);
    let e = Seq::<int>::empty();
    assert(line_read(a.0, e, 9).1 == e);
    assert(e.len() == 0);
    assert(upto(e, 44, 0) == 0);
    assert(trimb(e) == e);
    lits();
    assert(codes_of(e) == Set::<int>::empty()); assert(att_code(e) == Set::<int>::empty()); assert(atts_of(e) == Set::<int>::empty());
}
@@end
@@spec
// ---- splitting a word ------------------------------------------------------------------------
// \B between two characters: both are word characters or neither is; before the first there is none
pub open spec fn inside(t: Str, m: int) -> bool {
    let a = cps(t.subrange(0, m)); let b = cps(t.subrange(m, t.len() as int));
    (a.len() > 0 && wordc(a.last())) == (b.len() > 0 && wordc(b[0]))
}
#[verifier::opaque]
pub open spec fn cut_at(t: Str, m: int) -> bool { 0 <= m <= t.len() && utf8(t.subrange(0, m)) && utf8(t.subrange(m, t.len() as int)) }
// an attached prefix ends at m, an attached suffix starts at m
#[verifier::opaque]
pub open spec fn prefix_cut(ws: Set<Str>, t: Str, m: int) -> bool { cut_at(t, m) && m < t.len() && spelled(ws, cps(t.subrange(0, m))) && inside(t, m) }
#[verifier::opaque]
pub open spec fn suffix_cut(ws: Set<Str>, t: Str, m: int) -> bool { cut_at(t, m) && m > 0 && spelled(ws, cps(t.subrange(m, t.len() as int))) }
#[verifier::opaque]
pub open spec fn no_prefix(ws: Set<Str>, t: Str) -> bool { forall|m: int| m > 0 ==> !#[trigger] prefix_cut(ws, t, m) }
#[verifier::opaque]
pub open spec fn no_suffix(ws: Set<Str>, t: Str) -> bool { forall|m: int| m < t.len() ==> !#[trigger] suffix_cut(ws, t, m) }
pub open spec fn two_groups(g: Seq<(int, int)>, m: int, n: int) -> bool { g.len() == 3 && g[0] == (0int, n) && g[1] == (0int, m) && g[2] == (m, n) }
// how the library reads the two expressions built from the attached words (assumed; the harness runs the library)
pub axiom fn axiom_prefix(x: Str, ws: Set<Str>, t: Str)
    requires spells(x, ws), utf8(t)
    ensures ({
        let r = re_make((#"(" + ((#"^" + x) + #"\\B")) + #")(.+)", false);
        &&& re_match(r, t) <==> exists|m: int| #[trigger] prefix_cut(ws, t, m)
        &&& re_match(r, t) ==> exists|m: int| #[trigger] prefix_cut(ws, t, m) && two_groups(re_match_groups(r, t), m, t.len() as int)
    });
pub axiom fn axiom_suffix(x: Str, ws: Set<Str>, t: Str)
    requires spells(x, ws), utf8(t), x.len() > 0
    ensures ({
        let r = re_make((#"(.+)(" + x) + #")", false);
        &&& re_match(r, t) <==> exists|m: int| #[trigger] suffix_cut(ws, t, m)
        &&& re_match(r, t) ==> exists|m: int| #[trigger] suffix_cut(ws, t, m) && two_groups(re_match_groups(r, t), m, t.len() as int)
    });
pub open spec fn sans(s: Str) -> Str decreases s.len() { if s.len() == 0 { s } else if s.last() == 32 { sans(s.drop_last()) } else { sans(s.drop_last()).push(s.last()) } }
pub uninterp spec fn letter(c: int) -> bool;    // [[:alpha:]\p{L}]
// digits and a letter, a letter and digits
pub open spec fn digits_letter(w: Seq<int>) -> bool { w.len() >= 2 && all_dig(w.drop_last()) && letter(w.last()) }
pub open spec fn letter_digits(w: Seq<int>) -> bool { w.len() >= 2 && all_dig(tail(w)) && letter(w[0]) }
pub open spec fn spaced(t: Str, u: Str, m: int) -> bool { cut_at(t, m) && u == t.subrange(0, m) + #" " + t.subrange(m, t.len() as int) }
pub open spec fn re_dl(s: Str) -> Str { re_replace(re_make(#"^(\\d+)([[:alpha:]\\p{L}])$", false), s, #"$1 $2") }
pub open spec fn re_ld(s: Str) -> Str { re_replace(re_make(#"\\<([[:alpha:]\\p{L}])(\\d+)\\>", false), s, #"$1 $2") }
// how the library reads the two replacements for mixed words (assumed; the harness runs the library)
pub axiom fn axiom_mixed(t: Str)
    requires utf8(t)
    ensures
        utf8(re_dl(t)), sans(re_dl(t)) == sans(t), utf8(re_ld(t)), sans(re_ld(t)) == sans(t),
        re_dl(t).len() <= 2 * t.len(), re_ld(t).len() <= 2 * t.len(),
        all_word(cps(t)) && !digits_letter(cps(t)) ==> re_dl(t) == t,
        all_word(cps(t)) && digits_letter(cps(t)) ==> exists|m: int| #[trigger] spaced(t, re_dl(t), m) && cps(t.subrange(0, m)) == cps(t).drop_last() && re_ld(re_dl(t)) == re_dl(t),
        all_word(cps(t)) && !letter_digits(cps(t)) ==> re_ld(t) == t,
        all_word(cps(t)) && letter_digits(cps(t)) ==> exists|m: int| #[trigger] spaced(t, re_ld(t), m) && cps(t.subrange(0, m)) == seq![cps(t)[0]];
pub open spec fn mixed_pieces(t: Str) -> Seq<Str> { str_split(re_ld(re_dl(t)), #" ", true) }
// where the word is cut: by the prefix, by the suffix
pub open spec fn parts(t: Str, p: Option<int>, s: Option<int>) -> Seq<Str> {
    let n = t.len() as int;
    match p {
        Some(m) => match s {
            None => seq![t.subrange(0, m), t.subrange(m, n)],
            Some(k) => if m == k { seq![t.subrange(0, m), t.subrange(m, n)] } else if m < k { seq![t.subrange(0, m), t.subrange(m, k), t.subrange(k, n)] } else { seq![t.subrange(0, k), t.subrange(k, n)] },
        },
        None => match s { None => Seq::<Str>::empty(), Some(k) => seq![t.subrange(0, k), t.subrange(k, n)] },
    }
}
pub open spec fn cuts(l: Lexicon, t: Str, p: Option<int>, s: Option<int>) -> bool {
    let a = words_att(l.lex_, #InClass::ATT_PRE); let b = words_att(l.lex_, #InClass::ATT_SUF);
    &&& p is Some ==> prefix_cut(a, t, p->0) && p->0 > 0
    &&& p is None ==> no_prefix(a, t)
    &&& s is Some ==> suffix_cut(b, t, s->0) && s->0 < t.len()
    &&& s is None ==> no_suffix(b, t)
}
pub open spec fn split_as(l: Lexicon, t: Token, r: Seq<Token>, p: Option<int>, s: Option<int>) -> bool { cuts(l, t.text_, p, s) && r == word_tokens(parts(t.text_, p, s), l, parts(t.text_, p, s).len() as int) }
pub open spec fn split_result(l: Lexicon, t: Token, r: Seq<Token>) -> bool {
    if t.inclass_.contains(#InClass::MIXED) { r == word_tokens(mixed_pieces(t.text_), l, mixed_pieces(t.text_).len() as int) }
    else { exists|p: Option<int>, s: Option<int>| #[trigger] split_as(l, t, r, p, s) }
}
pub proof fn lemma_same_words(w: Str, a: Lexicon, b: Lexicon)
    requires a.lex_ == b.lex_
    ensures word_token(w, a) == word_token(w, b)
{ reveal(word_token); assert(defs(a, token_of(w).text_) == defs(b, token_of(w).text_)); }
pub proof fn lemma_few(ws: Seq<Str>, l: Lexicon)
    ensures
        ws.len() == 0 ==> word_tokens(ws, l, 0) == Seq::<Token>::empty(),
        ws.len() == 2 ==> word_tokens(ws, l, 2) == seq![word_token(ws[0], l), word_token(ws[1], l)],
        ws.len() == 3 ==> word_tokens(ws, l, 3) == seq![word_token(ws[0], l), word_token(ws[1], l), word_token(ws[2], l)],
{
    reveal_with_fuel(word_tokens, 4);
    if ws.len() == 2 { assert(word_tokens(ws, l, 2) =~= seq![word_token(ws[0], l), word_token(ws[1], l)]); }
    if ws.len() == 3 { assert(word_tokens(ws, l, 3) =~= seq![word_token(ws[0], l), word_token(ws[1], l), word_token(ws[2], l)]); }
}
pub proof fn lemma_lead_byte(c: int)
    requires cp_ok(c)
    ensures enc(c).len() >= 1, enc(c)[0] >= 0 - 64, forall|j: int| 1 <= j < enc(c).len() ==> #[trigger] enc(c)[j] < 0 - 64
{}
// where the second part is well formed the first is
pub proof fn lemma_front(r: Str, q: int)
    requires utf8(r), 0 <= q <= r.len(), utf8(r.subrange(q, r.len() as int))
    ensures utf8(r.subrange(0, q))
    decreases r.len()
{
    if q == 0 { assert(r.subrange(0, 0) =~= Seq::<int>::empty()); }
    else if q == r.len() { assert(r.subrange(0, q) =~= r); }
    else {
        let n = seq_len(r[0]); let e = enc(dec_at(r, 0));
        lemma_lead_byte(dec_at(r, 0));
        assert(e == r.subrange(0, n));
        let z = r.subrange(q, r.len() as int);
        assert(z[0] == r[q]);
        let f = enc(dec_at(z, 0)); lemma_lead_byte(dec_at(z, 0));
        assert(f == z.subrange(0, seq_len(z[0]))); assert(f[0] == z[0]);
        if q < n { assert(e[q] == r.subrange(0, n)[q]); assert(false); }
        assert(rest(r).subrange(q - n, rest(r).len() as int) =~= z);
        lemma_front(rest(r), q - n);
        let a = r.subrange(0, q);
        assert(a.subrange(0, n) =~= r.subrange(0, n)); assert(a[0] == r[0]);
        assert forall|k: int| 0 <= k < n implies is_byte(#[trigger] a[k]) by { assert(a[k] == r[k]); assert(is_byte(r[k])); }
        if n > 1 { assert(a[1] == r[1]); } if n > 2 { assert(a[2] == r[2]); } if n > 3 { assert(a[3] == r[3]); }
        assert(rest(a) =~= rest(r).subrange(0, q - n));
        assert(utf8_head(a));
    }
}
pub proof fn lemma_middle(t: Str, m: int, k: int)
    requires cut_at(t, m), cut_at(t, k), m <= k
    ensures utf8(t.subrange(m, k)), utf8(token_of(t.subrange(m, k)).text_), token_of(t.subrange(m, k)).text_.len() <= t.len()
{
    reveal(cut_at); let n = t.len() as int; let r = t.subrange(m, n);
    assert(r.subrange(k - m, r.len() as int) =~= t.subrange(k, n));
    lemma_front(r, k - m);
    assert(r.subrange(0, k - m) =~= t.subrange(m, k));
    lemma_token_text(t.subrange(m, k));
}
// an attached part is not empty unless there is no attached word at all
pub proof fn lemma_part(l: Lexicon, a: int, s: Str)
    requires lex_ok(l.lex_), utf8(s), spelled(words_att(l.lex_, a), cps(s))
    ensures some_named(words_att(l.lex_, a)) <==> s.len() > 0
{
    let ws = words_att(l.lex_, a);
    lemma_cps_empty(s);
    if some_named(ws) { let k = choose|k: Str| #[trigger] ws.contains(k) && k.len() > 0 && cps(k) == cps(s); assert(l.lex_.dom().contains(k)); lemma_cps_empty(k); }
}
pub proof fn lemma_written_empty(r: Re, w: Seq<int>)
    requires written(r).len() == 0, matches(r, w)
    ensures w.len() == 0
    decreases r
{
    match r {
        Re::Lit { c } => { lemma_lead_byte_any(c); }
        Re::Then { c, r } => { lemma_lead_byte_any(c); }
        _ => {}
    }
}
pub proof fn lemma_lead_byte_any(c: int) ensures quote(enc(c)).len() > 0 { }
pub proof fn lemma_no_suffix(x: Str, ws: Set<Str>, s: Str)
    requires spells(x, ws), x.len() == 0, utf8(s), spelled(ws, cps(s))
    ensures s.len() == 0
{
    lemma_cps_empty(s);
    let r = choose|r: Re| clear(r) && written(r) == x && forall|w: Seq<int>| #[trigger] matches(r, w) <==> spelled(ws, w);
    assert(matches(r, cps(s)));
    lemma_written_empty(r, cps(s));
}
pub open spec fn prefix_read(y: Str, l: Lexicon, t: Str) -> bool {
    let r = re_make((#"(" + y) + #")(.+)", false); let ws = words_att(l.lex_, #InClass::ATT_PRE); let g = re_match_groups(r, t); let m = g[1].1; let n = t.len() as int;
    &&& y.len() >= 3
    &&& re_match(r, t) ==> two_groups(g, m, n) && cut_at(t, m) && 0 <= m < n && if m > 0 { prefix_cut(ws, t, m) } else { no_prefix(ws, t) }
    &&& !re_match(r, t) ==> no_prefix(ws, t)
}
pub open spec fn suffix_read(y: Str, l: Lexicon, t: Str) -> bool {
    let r = re_make((#"(.+)(" + y) + #")", false); let ws = words_att(l.lex_, #InClass::ATT_SUF); let g = re_match_groups(r, t); let m = g[1].1; let n = t.len() as int;
    &&& y.len() == 0 ==> no_suffix(ws, t)
    &&& y.len() > 0 && re_match(r, t) ==> two_groups(g, m, n) && cut_at(t, m) && 0 < m <= n && if m < n { suffix_cut(ws, t, m) } else { no_suffix(ws, t) }
    &&& y.len() > 0 && !re_match(r, t) ==> no_suffix(ws, t)
}
pub proof fn lemma_prefix(y: Str, l: Lexicon, t: Str)
    requires pre_expr(y, l.lex_), utf8(t), lex_ok(l.lex_)
    ensures prefix_read(y, l, t)
{
    lits(); let ws = words_att(l.lex_, #InClass::ATT_PRE);
    reveal(prefix_cut); reveal(no_prefix); reveal(cut_at);
    let x = choose|x: Str| #[trigger] spells(x, ws) && y == (#"^" + x) + #"\\B";
    axiom_prefix(x, ws, t);
    assert forall|m: int, k: int| #[trigger] prefix_cut(ws, t, m) && #[trigger] prefix_cut(ws, t, k) implies (m == 0 <==> k == 0) by { lemma_part(l, #InClass::ATT_PRE, t.subrange(0, m)); lemma_part(l, #InClass::ATT_PRE, t.subrange(0, k)); }
    let r = re_make((#"(" + y) + #")(.+)", false);
    if re_match(r, t) { let m = choose|m: int| #[trigger] prefix_cut(ws, t, m) && two_groups(re_match_groups(r, t), m, t.len() as int); assert(re_match_groups(r, t)[1].1 == m); }
}
pub proof fn lemma_suffix(y: Str, l: Lexicon, t: Str)
    requires suf_expr(y, l.lex_), utf8(t), lex_ok(l.lex_)
    ensures suffix_read(y, l, t)
{
    let ws = words_att(l.lex_, #InClass::ATT_SUF); let n = t.len() as int;
    reveal(suffix_cut); reveal(no_suffix); reveal(cut_at);
    assert forall|m: int, k: int| #[trigger] suffix_cut(ws, t, m) && #[trigger] suffix_cut(ws, t, k) implies (m == n <==> k == n) by { lemma_part(l, #InClass::ATT_SUF, t.subrange(m, n)); lemma_part(l, #InClass::ATT_SUF, t.subrange(k, n)); }
    if y.len() > 0 {
        axiom_suffix(y, ws, t);
        let r = re_make((#"(.+)(" + y) + #")", false);
        if re_match(r, t) { let m = choose|m: int| #[trigger] suffix_cut(ws, t, m) && two_groups(re_match_groups(r, t), m, n); assert(re_match_groups(r, t)[1].1 == m); }
    }
    else { assert forall|m: int| m < n implies !#[trigger] suffix_cut(ws, t, m) by { if suffix_cut(ws, t, m) { lemma_no_suffix(y, ws, t.subrange(m, n)); } } }
}
@@end
@@fn Tokenizer::splitToken(Token)
params: this tok
vars: str Str#1; a Str#2; b Str#3; c Str#4; d Str#5; outtokens Seq<Token>
opt: rlimit 150
opt: hide classed lex_inv pre_expr suf_expr word_tokens
requires lex_inv($this.lex_), utf8($tok.text_), 4 * $tok.text_.len() < npos() - 1,
ensures !$throws, split_result($this.lex_, $tok, $ret), $this'.filter_ == $this.filter_, lex_inv($this'.lex_), $this'.lex_.lex_ == $this.lex_.lex_, same_head($this.lex_, $this'.lex_),
@@entry
let t = $$tok.text_; let n = t.len() as int; let u = re_ld(re_dl(t)); let l = $$this.lex_;
assert(lex_ok(l.lex_)) by { reveal(lex_inv); }
assert(word_tokens(mixed_pieces(t), l, 0) == Seq::<Token>::empty()) by { reveal(word_tokens); }
axiom_mixed(t); axiom_mixed(re_dl(t));
assert(u.subrange(0, u.len() as int) =~= u); lemma_pieces(u, 0, 0);
assert(t.subrange(0, n) =~= t);
assert forall|y: Str| #[trigger] pre_expr(y, l.lex_) implies prefix_read(y, l, t) by { lemma_prefix(y, l, t); }
assert forall|y: Str| #[trigger] suf_expr(y, l.lex_) implies suffix_read(y, l, t) by { lemma_suffix(y, l, t); }
assert forall|m: int, k: int| cut_at(t, m) && cut_at(t, k) && m <= k implies utf8(token_of(#[trigger] t.subrange(m, k)).text_) && token_of(t.subrange(m, k)).text_.len() <= n by { lemma_middle(t, m, k); }
assert(cut_at(t, 0) && cut_at(t, n)) by { reveal(cut_at); assert(t.subrange(0, 0) =~= Seq::<int>::empty()); assert(t.subrange(n, n) =~= Seq::<int>::empty()); }
@@loop 1
invariant $tok == $$tok, $this == $$this, $outtokens == word_tokens(mixed_pieces($$tok.text_), $$this.lex_, $i),
@@loopbody 1
reveal(word_token); reveal(word_tokens);
lemma_token_text(mixed_pieces($$tok.text_)[$i]);
@@returnif
let t = $$tok.text_; let l = $$this.lex_;
let p = if $a.len() > 0 { Some($a.len() as int) } else { None::<int> };
let s = if $d.len() > 0 { Some($c.len() as int) } else { None::<int> };
reveal(word_token);
assert forall|w: Str| classed(token_of(w), $this.lex_, #InClass::WORD) == #[trigger] word_token(w, l) by { lemma_same_words(w, l, $this.lex_); }
let ps = parts(t, p, s);
lemma_few(ps, l);
assert($outtokens =~= word_tokens(ps, l, ps.len() as int));
assert(split_as(l, $$tok, $outtokens, p, s));
@@end
@@spec C21
pub open spec fn glued(ws: Seq<Str>) -> Str decreases ws.len() { if ws.len() == 0 { Seq::<int>::empty() } else { ws[0] + glued(ws.subrange(1, ws.len() as int)) } }
pub proof fn lemma_glued2(a: Str, b: Str) ensures glued(seq![a, b]) == a + b
{ reveal_with_fuel(glued, 3); let s = seq![a, b]; let r = s.subrange(1, 2); assert(r =~= seq![b]); assert(r.subrange(1, 1) =~= Seq::<Str>::empty()); assert(b + Seq::<int>::empty() =~= b); assert(glued(r) == b); }
pub proof fn lemma_glued3(a: Str, b: Str, c: Str) ensures glued(seq![a, b, c]) == a + b + c
{ let s = seq![a, b, c]; assert(s.subrange(1, 3) =~= seq![b, c]); lemma_glued2(b, c); assert(a + (b + c) =~= a + b + c); }
pub proof fn lemma_tokens(ws: Seq<Str>, l: Lexicon, n: int)
    requires 0 <= n <= ws.len()
    ensures word_tokens(ws, l, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] word_tokens(ws, l, n)[i] == word_token(ws[i], l)
    decreases n
{ if n > 0 { lemma_tokens(ws, l, n - 1); assert forall|i: int| 0 <= i < n implies #[trigger] word_tokens(ws, l, n)[i] == word_token(ws[i], l) by { if i < n - 1 { assert(word_tokens(ws, l, n)[i] == word_tokens(ws, l, n - 1)[i]); } } } }
// pieces joined together are the word again, and every token is a piece classified by the lexicon
pub proof fn C21_pieces_are_the_word(l: Lexicon, t: Token, r: Seq<Token>)
    requires split_result(l, t, r), utf8(t.text_), !t.inclass_.contains(#InClass::MIXED)
    ensures r.len() > 0 ==> exists|ws: Seq<Str>| glued(ws) == t.text_ && ws.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> r[i] == #[trigger] word_token(ws[i], l)
{
    reveal(prefix_cut); reveal(suffix_cut); reveal(cut_at);
    let (p, s) = choose|p: Option<int>, s: Option<int>| #[trigger] split_as(l, t, r, p, s);
    let x = t.text_; let n = x.len() as int; let ws = parts(x, p, s);
    lemma_tokens(ws, l, ws.len() as int);
    if r.len() > 0 {
        if ws.len() == 2 { lemma_glued2(ws[0], ws[1]); assert(ws =~= seq![ws[0], ws[1]]); assert(ws[0] + ws[1] =~= x); }
        else { lemma_glued3(ws[0], ws[1], ws[2]); assert(ws =~= seq![ws[0], ws[1], ws[2]]); assert(ws[0] + ws[1] + ws[2] =~= x); }
        assert(glued(ws) == x);
    }
}
// a word that starts with no attached prefix and ends with no attached suffix is not split, and one that does is
pub proof fn C21_split_exactly_with_a_part(l: Lexicon, t: Token, r: Seq<Token>)
    requires split_result(l, t, r), utf8(t.text_), !t.inclass_.contains(#InClass::MIXED)
    ensures r.len() > 0 <==> (exists|m: int| 0 < m && #[trigger] prefix_cut(words_att(l.lex_, #InClass::ATT_PRE), t.text_, m)) || (exists|m: int| m < t.text_.len() && #[trigger] suffix_cut(words_att(l.lex_, #InClass::ATT_SUF), t.text_, m)),
        r.len() != 1,
{
    reveal(no_prefix); reveal(no_suffix);
    let (p, s) = choose|p: Option<int>, s: Option<int>| #[trigger] split_as(l, t, r, p, s);
    let ws = parts(t.text_, p, s);
    lemma_tokens(ws, l, ws.len() as int);
}
// an attached prefix is a word of the lexicon attached that way
pub proof fn C21_the_part_is_a_word(l: Lexicon, t: Str, m: int)
    requires prefix_cut(words_att(l.lex_, #InClass::ATT_PRE), t, m), m > 0
    ensures exists|k: Str| l.lex_.dom().contains(k) && attached_some(l.lex_[k], #InClass::ATT_PRE) && #[trigger] cps(k) == cps(t.subrange(0, m))
{
    reveal(prefix_cut); reveal(cut_at);
    let ws = words_att(l.lex_, #InClass::ATT_PRE); let s = t.subrange(0, m);
    lemma_cps_empty(s);
    let k = choose|k: Str| #[trigger] ws.contains(k) && k.len() > 0 && cps(k) == cps(s);
    assert(l.lex_.dom().contains(k));
}
// a mixed word loses nothing but blanks
pub proof fn lemma_sans_add(a: Str, b: Str)
    ensures sans(a + b) == sans(a) + sans(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(sans(a) + sans(b) =~= sans(a)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_sans_add(a, b.drop_last()); if b.last() != 32 { assert((sans(a) + sans(b.drop_last())).push(b.last()) =~= sans(a) + sans(b)); } }
}
pub proof fn lemma_sans_id(a: Str, on: bool)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i] == 32) == on
    ensures on ==> sans(a).len() == 0, !on ==> sans(a) == a
    decreases a.len()
{ if a.len() > 0 { lemma_sans_id(a.drop_last(), on); if !on { assert(sans(a) =~= a); } } }
pub proof fn lemma_glued_split(s: Str, start: int, i: int)
    requires 0 <= start <= i <= s.len(), forall|k: int| start <= k < i ==> s[k] != 32
    ensures glued(split_from(s, #" ", true, start, i)) == sans(s.subrange(start, s.len() as int))
    decreases s.len() - i
{
    lemma_blank();
    let n = s.len() as int;
    let ws = split_from(s, #" ", true, start, i);
    if i >= n { let x = s.subrange(start, n); assert(ws =~= seq![x]); assert(ws.subrange(1, 1) =~= Seq::<Str>::empty()); reveal_with_fuel(glued, 2); assert(x + Seq::<int>::empty() =~= x); lemma_sans_id(x, false); }
    else if s[i] == 32 {
        let k = skip_in(s, #" ", i);
        lemma_skip(s, #" ", i);
        lemma_glued_split(s, k, k);
        let more = split_from(s, #" ", true, k, k);
        assert(ws == seq![s.subrange(start, i)] + more);
        assert(ws.subrange(1, ws.len() as int) =~= more);
        let a = s.subrange(start, i); let b = s.subrange(i, k); let c = s.subrange(k, n);
        lemma_sans_id(a, false); lemma_sans_id(b, true);
        lemma_sans_add(a, b); lemma_sans_add(a + b, c);
        assert(a + b + c =~= s.subrange(start, n));
        assert(sans(a) + sans(b) =~= a);
    } else { lemma_glued_split(s, start, i + 1); }
}
pub proof fn C21_mixed_word_is_kept(l: Lexicon, t: Token, r: Seq<Token>)
    requires split_result(l, t, r), utf8(t.text_), t.inclass_.contains(#InClass::MIXED)
    ensures glued(mixed_pieces(t.text_)) == sans(t.text_), r.len() == mixed_pieces(t.text_).len(), forall|i: int| 0 <= i < r.len() ==> r[i] == #[trigger] word_token(mixed_pieces(t.text_)[i], l)
{
    let x = t.text_; let u = re_ld(re_dl(x));
    axiom_mixed(x); axiom_mixed(re_dl(x));
    assert(u.subrange(0, u.len() as int) =~= u);
    lemma_glued_split(u, 0, 0);
    lemma_tokens(mixed_pieces(x), l, mixed_pieces(x).len() as int);
}
// a mixed word of word characters is split between digits and letter, and only there
pub proof fn C21_mixed_word_is_cut_once(t: Str)
    requires utf8(t), all_word(cps(t)), forall|k: int| 0 <= k < t.len() ==> t[k] != 32
    ensures
        !digits_letter(cps(t)) && !letter_digits(cps(t)) ==> mixed_pieces(t) == seq![t],
        digits_letter(cps(t)) ==> exists|m: int| mixed_pieces(t) == seq![#[trigger] t.subrange(0, m), t.subrange(m, t.len() as int)] && cps(t.subrange(0, m)) == cps(t).drop_last() && 0 <= m <= t.len(),
        letter_digits(cps(t)) && !digits_letter(cps(t)) ==> exists|m: int| mixed_pieces(t) == seq![#[trigger] t.subrange(0, m), t.subrange(m, t.len() as int)] && cps(t.subrange(0, m)) == seq![cps(t)[0]] && 0 <= m <= t.len(),
{
    axiom_mixed(t); axiom_mixed(re_dl(t));
    let n = t.len() as int;
    if digits_letter(cps(t)) { let m = choose|m: int| #[trigger] spaced(t, re_dl(t), m) && cps(t.subrange(0, m)) == cps(t).drop_last() && re_ld(re_dl(t)) == re_dl(t); lemma_at_blank(t, re_dl(t), m); assert(mixed_pieces(t) == seq![t.subrange(0, m), t.subrange(m, n)]); }
    else if letter_digits(cps(t)) { assert(re_dl(t) == t); let m = choose|m: int| #[trigger] spaced(t, re_ld(t), m) && cps(t.subrange(0, m)) == seq![cps(t)[0]]; lemma_at_blank(t, re_ld(t), m); assert(mixed_pieces(t) == seq![t.subrange(0, m), t.subrange(m, n)]); }
    else { assert(re_dl(t) == t); lemma_one_word(t, 0, 0); assert(t.subrange(0, n) =~= t); }
}
pub proof fn lemma_at_blank(t: Str, u: Str, m: int)
    requires spaced(t, u, m), forall|k: int| 0 <= k < t.len() ==> t[k] != 32
    ensures str_split(u, #" ", true) == seq![t.subrange(0, m), t.subrange(m, t.len() as int)], 0 <= m <= t.len()
{
    reveal(cut_at);
    let a = t.subrange(0, m); let b = t.subrange(m, t.len() as int);
    assert forall|k: int| 0 <= k < a.len() implies a[k] != 32 by { assert(a[k] == t[k]); }
    assert forall|k: int| 0 <= k < b.len() implies b[k] != 32 by { assert(b[k] == t[m + k]); }
    lemma_two_words(a, b);
}
pub proof fn lemma_one_word(s: Str, start: int, i: int)
    requires 0 <= start <= i <= s.len(), forall|k: int| i <= k < s.len() ==> s[k] != 32
    ensures split_from(s, #" ", true, start, i) == seq![s.subrange(start, s.len() as int)]
    decreases s.len() - i
{ lemma_blank(); if i < s.len() { lemma_one_word(s, start, i + 1); } }
pub proof fn lemma_reach(s: Str, start: int, i: int, j: int)
    requires 0 <= start <= i <= j <= s.len(), forall|k: int| i <= k < j ==> s[k] != 32
    ensures split_from(s, #" ", true, start, i) == split_from(s, #" ", true, start, j)
    decreases j - i
{ lemma_blank(); if i < j { lemma_reach(s, start, i + 1, j); } }
pub proof fn lemma_two_words(a: Str, b: Str)
    requires forall|k: int| 0 <= k < a.len() ==> a[k] != 32, forall|k: int| 0 <= k < b.len() ==> b[k] != 32
    ensures str_split(a + #" " + b, #" ", true) == seq![a, b]
{
    lits(); reveal(#" "); lemma_blank();
    let s = a + #" " + b; let i = a.len() as int;
    assert(s[i] == 32);
    assert forall|k: int| 0 <= k < i implies s[k] != 32 by { assert(s[k] == a[k]); }
    lemma_reach(s, 0, 0, i);
    lemma_skip(s, #" ", i); lemma_skip(s, #" ", i + 1);
    if skip_in(s, #" ", i) > i + 1 { assert(s[i + 1] == b[0]); assert(#" ".contains(s[i + 1])); }
    assert(skip_in(s, #" ", i) == i + 1);
    assert forall|k: int| i + 1 <= k < s.len() implies s[k] != 32 by { assert(s[k] == b[k - i - 1]); }
    lemma_one_word(s, i + 1, i + 1);
    assert(s.subrange(0, i) =~= a); assert(s.subrange(i + 1, s.len() as int) =~= b);
    assert(seq![a] + seq![b] =~= seq![a, b]);
}
@@end
