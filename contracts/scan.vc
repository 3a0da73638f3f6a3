@@uses tokenize unicode
@@spec
// ---- trimming a token -----------------------------------------------------------------------
pub open spec fn blanks() -> Str { #" \f\n\r\t\v" }
pub open spec fn trimmed(t: Str, which: int) -> Str {
    let a = if which != 2 { trim_l(t, blanks()) } else { t };
    let b = if which != 1 { trim_r(a, blanks()) } else { a };
    if t.len() > 0 && b.len() == 0 { #" " } else { b }
}
pub proof fn lemma_left(s: Str, set: Str, i: int)
    requires 0 <= i <= s.len(), s.len() < npos()
    ensures ({ let k = first_in(s, set, i, false); let e = s.subrange(i, s.len() as int);
        if k == npos() { trim_l(e, set).len() == 0 } else { i <= k < s.len() && trim_l(e, set) == s.subrange(k, s.len() as int) } })
    decreases s.len() - i
{
    lemma_first_in(s, set, i, false);
    let e = s.subrange(i, s.len() as int);
    if i < s.len() && set.contains(s[i]) { assert(e.subrange(1, e.len() as int) =~= s.subrange(i + 1, s.len() as int)); assert(e[0] == s[i]); lemma_left(s, set, i + 1); }
    else if i < s.len() { assert(e[0] == s[i]); }
}
pub proof fn lemma_right(s: Str, set: Str, i: int)
    requires -1 <= i < s.len(), s.len() < npos() - 1
    ensures ({ let k = last_in(s, set, i, false); let e = s.subrange(0, i + 1);
        if k == npos() { trim_r(e, set).len() == 0 } else { 0 <= k <= i && trim_r(e, set) == s.subrange(0, k + 1) } })
    decreases i + 1
{
    let e = s.subrange(0, i + 1);
    if i >= 0 && set.contains(s[i]) { assert(e.drop_last() =~= s.subrange(0, i)); assert(e.last() == s[i]); lemma_right(s, set, i - 1); }
    else if i >= 0 { assert(e.last() == s[i]); }
}
@@end
@@fn Token::trim(int)
params: this which
requires $this.text_.len() < npos() - 1,
ensures $this' == (Token { text_: trimmed($this.text_, $which), ..$this }),
@@entry
let t = $$this.text_;
lemma_left(t, blanks(), 0);
assert(t.subrange(0, t.len() as int) =~= t);
let a = if $$which != 2 { trim_l(t, blanks()) } else { t };
assert(a.len() <= t.len());
lemma_right(a, blanks(), a.len() - 1);
assert(a.subrange(0, a.len() as int) =~= a);
@@return
assert($this.text_ =~= trimmed($$this.text_, $$which));
@@end
@@spec
// ---- reading the tokens of a text -------------------------------------------------------------
pub open spec fn scan_re(x: Str) -> Regex { re_make((#"^\\s*(?!(?:\xe2\x80\x94)+)(" + x) + #"\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\d]+)([-&\\s\\|[:punct:]]+|\xe2\x80\x94|$)", true) }
pub open spec fn behind(t: Str, at: int) -> Str { t.subrange(at, t.len() as int) }
// a match: where it starts, where its word starts and ends, where it ends
pub struct Step { pub at: int, pub word: int, pub sep: int, pub end: int }
#[verifier::opaque]
pub open spec fn step_ok(r: Regex, t: Str, s: Step) -> bool {
    &&& 0 <= s.at <= s.word <= s.sep <= s.end <= t.len()
    &&& cut_at(t, s.at) && cut_at(t, s.word) && cut_at(t, s.sep) && cut_at(t, s.end)
    &&& re_search(r, behind(t, s.at))
    &&& passed(t.subrange(s.at, s.word))
    &&& ({ let g = re_search_groups(r, behind(t, s.at)); g.len() == 3 && g[0].1 + s.at == s.end && g[1] == (s.word - s.at, s.sep - s.at) && g[2] == (s.sep - s.at, s.end - s.at) })
}
pub uninterp spec fn white(s: Str) -> bool;
// a line of the text starts at j
pub uninterp spec fn line_starts(s: Str, j: int) -> bool;
pub open spec fn one_line(s: Str) -> bool { forall|i: int| 0 <= i < cps(s).len() ==> !line_break(#[trigger] cps(s)[i]) }
pub open spec fn line_break(c: int) -> bool { 10 <= c <= 13 || c == 0x85 || c == 0x2028 || c == 0x2029 }
// what is passed over: white space, after lines that do not begin with a token
pub open spec fn passed_from(s: Str, j: int) -> bool { 0 <= j <= s.len() && (j == 0 || line_starts(s, j)) && white(s.subrange(j, s.len() as int)) }
pub open spec fn passed(s: Str) -> bool { exists|j: int| #[trigger] passed_from(s, j) }
// a text of one line has no other line
pub axiom fn axiom_line(s: Str, j: int)
    requires line_starts(s, j), 0 < j
    ensures !one_line(s.subrange(0, j));
// how the library reads the expression for tokens (assumed; the harness runs the library): the word and the separator
// follow each other up to the end of the match, at whole characters, before the word comes white space only, at the start or at the start of a later line, and something is read while there is text
pub axiom fn axiom_scan(x: Str, m: Map<Str, Seq<LexEntry>>, t: Str)
    requires all_expr(x, m), utf8(t), re_search(scan_re(x), t)
    ensures ({
        let g = re_search_groups(scan_re(x), t);
        &&& g.len() == 3 && 0 <= g[0].0 <= g[1].0 <= g[1].1 <= g[2].1 && g[1].1 == g[2].0 && g[2].1 == g[0].1 && g[0].1 <= t.len()
        &&& cut_at(t, g[1].0) && cut_at(t, g[1].1) && cut_at(t, g[2].1)
        &&& passed(t.subrange(0, g[1].0))
        &&& t.len() > 0 ==> g[0].1 > 0
    });
// the tokens of a word: itself when the lexicon knows it or nothing splits it, else its pieces
#[verifier::opaque]
pub open spec fn word_part(l: Lexicon, w: Str, ts: Seq<Token>) -> bool {
    let tok = word_token(w, l);
    if w.len() == 0 { ts.len() == 0 }
    else if tok.inlex_ { ts == seq![tok] }
    else { exists|r: Seq<Token>| #[trigger] split_result(l, tok, r) && ts == if r.len() > 0 { r } else { seq![tok] } }
}
#[verifier::opaque]
pub open spec fn sep_part(l: Lexicon, w: Str) -> Seq<Token> {
    let tok = token_of(w);
    if w.len() == 0 { Seq::<Token>::empty() } else { seq![classed(Token { text_: trimmed(tok.text_, 3), ..tok }, l, #InClass::PUNCT)] }
}
pub open spec fn joined(tss: Seq<Seq<Token>>, n: int) -> Seq<Token> decreases n { if n <= 0 { Seq::<Token>::empty() } else { joined(tss, n - 1) + tss[n - 1] } }
pub open spec fn step_at(ss: Seq<Step>, i: int) -> int { if i <= 0 { 0 } else { ss[i - 1].end } }
pub open spec fn word_in(t: Str, s: Step) -> Str { t.subrange(s.word, s.sep) }
pub open spec fn sep_in(t: Str, s: Step) -> Str { t.subrange(s.sep, s.end) }
// the first k steps: each starts where the last ended, ws[i] are the tokens of its word
pub open spec fn steps_ok(l: Lexicon, r: Regex, t: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> step_ok(r, t, #[trigger] ss[i]) && ss[i].at == step_at(ss, i) && word_part(l, word_in(t, ss[i]), ws[i])
}
pub open spec fn step_tokens(l: Lexicon, t: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>) -> Seq<Seq<Token>> { Seq::new(ss.len(), |i: int| ws[i] + sep_part(l, sep_in(t, ss[i]))) }
// the steps go on until nothing is left or nothing more can be read
pub open spec fn steps_end(r: Regex, t: Str, ss: Seq<Step>) -> bool { (ss.len() > 0 && ss.last().at == t.len()) || !re_search(r, behind(t, step_at(ss, ss.len() as int))) }
#[verifier::opaque]
pub open spec fn reads(l: Lexicon, x: Str, t: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>, ts: Seq<Token>) -> bool {
    &&& all_expr(x, l.lex_) && ss.len() == ws.len()
    &&& steps_ok(l, scan_re(x), t, ss, ws, ss.len() as int)
    &&& steps_end(scan_re(x), t, ss)
    &&& ts == joined(step_tokens(l, t, ss, ws), ss.len() as int)
}
pub open spec fn all_tokens(l: Lexicon, t: Str, ts: Seq<Token>) -> bool { exists|x: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>| #[trigger] reads(l, x, t, ss, ws, ts) }
pub open spec fn scan_text(l: Lexicon, s: Str) -> Str { upper(nfc(s), l.locale_) }
// what the tokenizer gives for a text
pub open spec fn tokens_of(z: Tokenizer, s: Str, ts: Seq<Token>) -> bool { exists|all: Seq<Token>| #[trigger] all_tokens(z.lex_, scan_text(z.lex_, s), all) && ts == unfiltered(all, z.filter_) }
// every token has a class and a text
pub open spec fn fine(t: Token) -> bool { utf8(t.text_) && t.text_.len() < npos() - 1 && exists|c: int| t.inclass_.contains(c) }
pub open spec fn all_fine(ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> fine(#[trigger] ts[i]) }
pub proof fn lemma_cat(a: Str, b: Str)
    requires utf8(a), utf8(b)
    ensures utf8(a + b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let s = a + b; let n = seq_len(a[0]);
        assert(s[0] == a[0]);
        assert(s.subrange(0, n) =~= a.subrange(0, n));
        assert forall|q: int| 0 <= q < n implies is_byte(#[trigger] s[q]) by { assert(s[q] == a[q]); assert(is_byte(a[q])); }
        if n > 1 { assert(s[1] == a[1]); } if n > 2 { assert(s[2] == a[2]); } if n > 3 { assert(s[3] == a[3]); }
        assert(rest(s) =~= rest(a) + b);
        lemma_cat(rest(a), b);
        assert(utf8_head(s));
    }
}
pub proof fn lemma_ascii(c: int)
    requires 0 <= c < 128
    ensures utf8(seq![c]), seq_len(c) == 1
{
    let s = seq![c];
    assert(is_byte(c));
    assert(enc(c) =~= seq![c]);
    assert(s.subrange(0, 1) =~= s);
    assert(rest(s) =~= Seq::<int>::empty());
    assert(seq_len(s[0]) == 1 && dec_at(s, 0) == c);
    assert(cp_ok(c));
    assert(room(s, 0));
    assert(utf8_head(s));
    assert(utf8(rest(s)));
    assert(utf8(s));
}
pub proof fn lemma_pointed(t: Str)
    requires utf8(t)
    ensures utf8(pointed(t)), pointed(t).len() == t.len()
{
    if exists|k: int| has_comma(t, k) {
        let k = choose|k: int| has_comma(t, k);
        lemma_ascii(44); lemma_ascii(46);
        lemma_cut(t, k);
        let a = t.subrange(0, k); let b = t.subrange(k + 1, t.len() as int);
        lemma_cat(a, seq![46int]); lemma_cat(a + seq![46int], b);
        assert(pointed(t) =~= a + seq![46int] + b);
    }
}
pub proof fn lemma_classed(tok: Token, l: Lexicon, typ: int)
    requires utf8(tok.text_), tok.text_.len() < npos() - 1
    ensures fine(classed(tok, l, typ)), classed(tok, l, typ).text_.len() == tok.text_.len()
{
    lemma_pointed(tok.text_);
    let found = tok.inclass_.union(types_of(defs(l, tok.text_)));
    if found != Set::<int>::empty() {
        if forall|c: int| !found.contains(c) { assert(found =~= Set::<int>::empty()); }
        let c = choose|c: int| found.contains(c); assert(classed(tok, l, typ).inclass_.contains(c));
    } else {
        let s = shape(tok.text_);
        if s == Set::<int>::empty() { assert(classed(tok, l, typ).inclass_.contains(typ)); }
        else { if forall|c: int| !s.contains(c) { assert(s =~= Set::<int>::empty()); } let c = choose|c: int| s.contains(c); assert(classed(tok, l, typ).inclass_.contains(c)); }
    }
}
pub proof fn lemma_word_fine(w: Str, l: Lexicon)
    requires utf8(w), w.len() < npos() - 1
    ensures fine(word_token(w, l)), word_token(w, l).text_.len() <= w.len()
{ reveal(word_token); lemma_token_text(w); lemma_classed(token_of(w), l, #InClass::WORD); }
pub proof fn lemma_words_fine(ws: Seq<Str>, l: Lexicon, n: int)
    requires 0 <= n <= ws.len(), fine_texts(ws)
    ensures all_fine(word_tokens(ws, l, n))
    decreases n
{ if n > 0 { lemma_words_fine(ws, l, n - 1); assert(fine_text(ws[n - 1])); lemma_word_fine(ws[n - 1], l); } }
pub open spec fn fine_text(w: Str) -> bool { utf8(w) && w.len() < npos() - 1 }
pub open spec fn fine_texts(ws: Seq<Str>) -> bool { forall|i: int| 0 <= i < ws.len() ==> fine_text(#[trigger] ws[i]) }
pub proof fn lemma_mixed_fine(t: Str)
    requires utf8(t), 4 * t.len() < npos() - 1
    ensures fine_texts(mixed_pieces(t))
{
    axiom_mixed(t); axiom_mixed(re_dl(t));
    let u = re_ld(re_dl(t));
    assert(u.subrange(0, u.len() as int) =~= u); lemma_pieces(u, 0, 0);
    assert forall|i: int| 0 <= i < mixed_pieces(t).len() implies fine_text(#[trigger] mixed_pieces(t)[i]) by {}
}
pub proof fn lemma_parts_fine(t: Str, p: Option<int>, s: Option<int>)
    requires utf8(t), 4 * t.len() < npos() - 1, p is Some ==> cut_at(t, p->0), s is Some ==> cut_at(t, s->0)
    ensures fine_texts(parts(t, p, s))
{
    let n = t.len() as int;
    assert(cut_at(t, 0) && cut_at(t, n)) by { reveal(cut_at); assert(t.subrange(0, n) =~= t); assert(t.subrange(0, 0) =~= Seq::<int>::empty()); assert(t.subrange(n, n) =~= Seq::<int>::empty()); }
    if p is Some { lemma_bounds(t, p->0); lemma_middle(t, 0, p->0); lemma_middle(t, p->0, n); }
    if s is Some { lemma_bounds(t, s->0); lemma_middle(t, 0, s->0); lemma_middle(t, s->0, n); if p is Some && p->0 < s->0 { lemma_middle(t, p->0, s->0); } }
}
pub proof fn lemma_split_fine(l: Lexicon, tok: Token, r: Seq<Token>)
    requires split_result(l, tok, r), utf8(tok.text_), 4 * tok.text_.len() < npos() - 1
    ensures all_fine(r)
{
    let t = tok.text_;
    if tok.inclass_.contains(#InClass::MIXED) {
        let ws = mixed_pieces(t);
        lemma_mixed_fine(t);
        lemma_words_fine(ws, l, ws.len() as int);
    } else {
        let (p, s) = choose|p: Option<int>, s: Option<int>| #[trigger] split_as(l, tok, r, p, s);
        lemma_cuts(l, t, p, s);
        let ws = parts(t, p, s);
        lemma_parts_fine(t, p, s);
        lemma_words_fine(ws, l, ws.len() as int);
    }
}
pub proof fn lemma_cuts(l: Lexicon, t: Str, p: Option<int>, s: Option<int>)
    requires cuts(l, t, p, s)
    ensures p is Some ==> cut_at(t, p->0), s is Some ==> cut_at(t, s->0)
{ reveal(prefix_cut); reveal(suffix_cut); }
pub proof fn lemma_bounds(t: Str, m: int) requires cut_at(t, m) ensures 0 <= m <= t.len() { reveal(cut_at); }
pub proof fn lemma_same_split(a: Lexicon, b: Lexicon, t: Token, r: Seq<Token>)
    requires split_result(a, t, r), a.lex_ == b.lex_
    ensures split_result(b, t, r)
{
    lemma_same_tokens(mixed_pieces(t.text_), a, b, mixed_pieces(t.text_).len() as int);
    if !t.inclass_.contains(#InClass::MIXED) {
        let (p, s) = choose|p: Option<int>, s: Option<int>| #[trigger] split_as(a, t, r, p, s);
        lemma_same_tokens(parts(t.text_, p, s), a, b, parts(t.text_, p, s).len() as int);
        assert(split_as(b, t, r, p, s));
    }
}
pub proof fn lemma_same_tokens(ws: Seq<Str>, a: Lexicon, b: Lexicon, n: int)
    requires a.lex_ == b.lex_
    ensures word_tokens(ws, a, n) == word_tokens(ws, b, n)
    decreases n
{ if n > 0 { lemma_same_tokens(ws, a, b, n - 1); lemma_same_words(ws[n - 1], a, b); } }
pub proof fn lemma_sep_fine(l: Lexicon, w: Str)
    requires utf8(w), w.len() < npos() - 1
    ensures all_fine(sep_part(l, w)), w.len() > 0 ==> utf8(trimmed(token_of(w).text_, 3)) && trimmed(token_of(w).text_, 3).len() < npos() - 1
{
    reveal(sep_part);
    lemma_token_text(w);
    let t = token_of(w).text_;
    lemma_set(); lemma_trims(t, blanks());
    let a = trim_l(t, blanks()); lemma_trims(a, blanks());
    lemma_ascii(32); reveal(#" "); assert(#" " =~= seq![32int]);
    lemma_classed(Token { text_: trimmed(t, 3), ..token_of(w) }, l, #InClass::PUNCT);
}
pub proof fn lemma_set() ensures forall|c: int| blanks().contains(c) ==> 0 <= c < 128 { lits(); reveal(#" \f\n\r\t\v"); }
pub proof fn lemma_trims(s: Str, set: Str)
    requires utf8(s), forall|c: int| set.contains(c) ==> 0 <= c < 128
    ensures utf8(trim_r(s, set)), trim_r(s, set).len() <= s.len(), utf8(trim_l(s, set)), trim_l(s, set).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 && set.contains(s.last()) { lemma_cut(s, s.len() - 1); assert(s.drop_last() =~= s.subrange(0, s.len() - 1)); lemma_trims(s.drop_last(), set); }
    if s.len() > 0 && set.contains(s[0]) { lemma_ascii(s[0]); lemma_cut(s, 0); lemma_trims(s.subrange(1, s.len() as int), set); }
}
@@end
@@spec
pub open spec fn take(l: Lexicon, t: Str, s: Step, w: Seq<Token>) -> Seq<Token> { w + sep_part(l, sep_in(t, s)) }
pub proof fn lemma_joined(a: Seq<Seq<Token>>, b: Seq<Seq<Token>>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures joined(a, n) == joined(b, n)
    decreases n
{ if n > 0 { lemma_joined(a, b, n - 1); } }
pub proof fn lemma_next(l: Lexicon, r: Regex, t: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>, s: Step, w: Seq<Token>)
    requires ss.len() == ws.len(), steps_ok(l, r, t, ss, ws, ss.len() as int), step_ok(r, t, s), s.at == step_at(ss, ss.len() as int), word_part(l, word_in(t, s), w)
    ensures
        steps_ok(l, r, t, ss.push(s), ws.push(w), (ss.len() + 1) as int),
        step_at(ss.push(s), (ss.len() + 1) as int) == s.end,
        joined(step_tokens(l, t, ss.push(s), ws.push(w)), (ss.len() + 1) as int) == joined(step_tokens(l, t, ss, ws), ss.len() as int) + (w + sep_part(l, sep_in(t, s))),
{
    let a = step_tokens(l, t, ss.push(s), ws.push(w)); let b = step_tokens(l, t, ss, ws);
    assert forall|i: int| 0 <= i < ss.len() implies a[i] == b[i] by { assert(ss.push(s)[i] == ss[i]); assert(ws.push(w)[i] == ws[i]); }
    lemma_joined(a, b, ss.len() as int);
    assert forall|i: int| 0 <= i < (ss.len() + 1) as int implies step_ok(r, t, #[trigger] ss.push(s)[i]) && ss.push(s)[i].at == step_at(ss.push(s), i) && word_part(l, word_in(t, ss.push(s)[i]), ws.push(w)[i]) by {
        if i < ss.len() { assert(ss.push(s)[i] == ss[i]); assert(ws.push(w)[i] == ws[i]); if i > 0 { assert(ss.push(s)[i - 1] == ss[i - 1]); } }
        else if i > 0 { assert(ss.push(s)[i - 1] == ss[i - 1]); }
    }
}
// what the library found when the rest of the text is searched is a step
pub proof fn lemma_step(x: Str, m: Map<Str, Seq<LexEntry>>, t: Str, at: int)
    requires all_expr(x, m), cut_at(t, at), utf8(t), re_search(scan_re(x), behind(t, at))
    ensures ({
        let g = re_search_groups(scan_re(x), behind(t, at));
        let s = Step { at: at, word: at + g[1].0, sep: at + g[1].1, end: at + g[2].1 };
        step_ok(scan_re(x), t, s) && g.len() == 3 && g[0].1 == g[2].1 && g[2].0 == g[1].1 && cut_at(t, s.end) && (at < t.len() ==> s.end > at) && s.end <= t.len()
            && utf8(word_in(t, s)) && utf8(sep_in(t, s)) && 0 <= at <= s.word <= s.sep <= s.end
    })
{
    reveal(step_ok);
    lemma_bounds(t, at);
    assert(utf8(behind(t, at))) by { reveal(cut_at); }
    let e = behind(t, at);
    axiom_scan(x, m, e);
    let g = re_search_groups(scan_re(x), e);
    assert(e.subrange(0, g[1].0) =~= t.subrange(at, at + g[1].0));
    lemma_far(t, at, g[1].0); lemma_far(t, at, g[1].1); lemma_far(t, at, g[2].1);
    lemma_middle(t, at + g[1].0, at + g[1].1); lemma_middle(t, at + g[1].1, at + g[2].1);
}
pub proof fn lemma_far(t: Str, at: int, k: int)
    requires cut_at(t, at), cut_at(behind(t, at), k)
    ensures cut_at(t, at + k)
{
    reveal(cut_at);
    assert(behind(behind(t, at), k) =~= behind(t, at + k));
    let a = t.subrange(0, at); let b = behind(t, at).subrange(0, k);
    lemma_cat(a, b);
    assert(a + b =~= t.subrange(0, at + k));
}
pub proof fn lemma_kept_fine(ts: Seq<Token>, f: Set<int>, n: int)
    requires 0 <= n <= ts.len(), all_fine(ts)
    ensures all_fine(kept(ts, f, n))
    decreases n
{ if n > 0 { lemma_kept_fine(ts, f, n - 1); } }
// the tokens put after o, without that of the separator
pub open spec fn word_of(o: Seq<Token>, ts: Seq<Token>, sep: Str) -> Seq<Token> { ts.subrange(o.len() as int, if sep.len() > 0 { ts.len() - 1 } else { ts.len() as int }) }
@@end
@@fn Tokenizer::getTokens(string)
params: this str
vars: locale Str#1; nstr Str; regex Str; re Regex; outtokens Seq<Token>; what SMatch; start int#3; end int#4; tok Token#1; toks Seq<Token>#2; punct Token#2
opt: rlimit 100
opt: hide classed lex_inv word_tokens split_result all_expr
requires lex_inv($this.lex_),
ensures !$throws, tokens_of($this, $str, $ret), all_fine($ret), $this'.filter_ == $this.filter_, lex_inv($this'.lex_), $this'.lex_.lex_ == $this.lex_.lex_, same_head($this.lex_, $this'.lex_),
@@before 1
let ghost mut ss: Seq<Step> = Seq::empty();
let ghost mut ws: Seq<Seq<Token>> = Seq::empty();
let ghost t = $str;
let ghost l = $$this.lex_;
let ghost x = choose|x: Str| #[trigger] all_expr(x, l.lex_) && $re == scan_re(x);
assert(t.subrange(0, t.len() as int) =~= t);
assert(t == scan_text(l, $$str));
assert(cut_at(t, 0)) by { reveal(cut_at); assert(t.subrange(0, 0) =~= Seq::<int>::empty()); }
@@loop 1
invariant_except_break
    steps_ok(l, scan_re(x), t, ss, ws, ss.len() as int),
    $start == step_at(ss, ss.len() as int), cut_at(t, $start), 0 <= $start <= t.len(),
    $outtokens == joined(step_tokens(l, t, ss, ws), ss.len() as int),
    re_search($re, behind(t, $start)) ==> $what.groups == shift_groups(re_search_groups($re, behind(t, $start)), $start),
    ss.len() > 0 ==> ss.last().at < t.len(),
invariant
    ss.len() == ws.len(),
    all_expr(x, l.lex_), $re == scan_re(x), $end == t.len(), $str == t, utf8(t), 4 * t.len() < npos() - 1,
    lex_inv($this.lex_), $this.lex_.lex_ == l.lex_, same_head(l, $this.lex_), $this.filter_ == $$this.filter_,
    all_fine($outtokens),
ensures
    steps_ok(l, scan_re(x), t, ss, ws, ss.len() as int),
    steps_end(scan_re(x), t, ss),
    $outtokens == joined(step_tokens(l, t, ss, ws), ss.len() as int),
decreases t.len() - $start
@@loopbody 1
let ghost o0 = $outtokens;
let ghost at = $start;
let ghost g = re_search_groups(scan_re(x), behind(t, at));
let ghost st = Step { at: at, word: at + g[1].0, sep: at + g[1].1, end: at + g[2].1 };
let ghost word = word_in(t, st);
let ghost mut got: Seq<Token> = Seq::empty();
let ghost sep = sep_in(t, st);
lemma_step(x, l.lex_, t, at);
lemma_word_fine(word, l);
lemma_word_fine(word, $this.lex_);
lemma_same_words(word, l, $this.lex_);
lemma_token_text(word);
lemma_sep_fine(l, sep);
lemma_token_text(sep);
assert(g.len() == 3);
assert($what.groups[1] == (st.word, st.sep));
assert($what.groups[2] == (st.sep, st.end));
assert(fine(word_token(word, $this.lex_)));
assert(word.len() <= t.len());
reveal(word_token); reveal(sep_part); reveal(word_part);
assert forall|a: Lexicon| a.lex_ == l.lex_ implies #[trigger] classed(token_of(word), a, #InClass::WORD) == word_token(word, l) by { lemma_same_words(word, l, a); }
assert forall|a: Lexicon, k: Token| a.lex_ == l.lex_ implies #[trigger] classed(k, a, #InClass::PUNCT) == classed(k, l, #InClass::PUNCT) by { reveal(classed); assert(defs(a, k.text_) == defs(l, k.text_)); }
assert forall|r: Seq<Token>| #[trigger] r.len() == 0 implies r == Seq::<Token>::empty() by { assert(r =~= Seq::<Token>::empty()); }
assert forall|a: Lexicon, k: Token, r: Seq<Token>| #[trigger] split_result(a, k, r) && a.lex_ == l.lex_ implies split_result(l, k, r) by { lemma_same_split(a, l, k, r); }
assert forall|k: Token, r: Seq<Token>| #[trigger] split_result(l, k, r) && utf8(k.text_) && 4 * k.text_.len() < npos() - 1 implies all_fine(r) by { lemma_split_fine(l, k, r); }
@@before 2
let ghost o1 = $outtokens;
@@loop 2
invariant $outtokens == o1 + $toks.subrange(0, $i),
@@afterloop 2
assert($toks.subrange(0, $toks.len() as int) =~= $toks);
got = $toks;
@@break 1
let w = word_of(o0, $outtokens, sep);
let tok = word_token(word, l);
assert(word_part(l, word, w)) by {
    if word.len() == 0 { assert(w =~= Seq::<Token>::empty()); }
    else if tok.inlex_ { assert(w =~= seq![tok]); }
    else if got.len() > 0 { assert(w =~= got); assert(split_result(l, tok, got)); }
    else { assert(w =~= seq![tok]); assert(split_result(l, tok, Seq::<Token>::empty())); }
}
assert($outtokens =~= o0 + (w + sep_part(l, sep)));
lemma_next(l, scan_re(x), t, ss, ws, st, w);
ss = ss.push(st); ws = ws.push(w);
@@loopend 1
let w = word_of(o0, $outtokens, sep);
let tok = word_token(word, l);
assert(word_part(l, word, w)) by {
    if word.len() == 0 { assert(w =~= Seq::<Token>::empty()); }
    else if tok.inlex_ { assert(w =~= seq![tok]); }
    else if got.len() > 0 { assert(w =~= got); assert(split_result(l, tok, got)); }
    else { assert(w =~= seq![tok]); assert(split_result(l, tok, Seq::<Token>::empty())); }
}
assert($outtokens =~= o0 + (w + sep_part(l, sep)));
lemma_next(l, scan_re(x), t, ss, ws, st, w);
ss = ss.push(st); ws = ws.push(w);
@@return
reveal(reads);
assert(reads(l, x, t, ss, ws, $outtokens));
assert(all_tokens($$this.lex_, scan_text($$this.lex_, $$str), $outtokens));
lemma_kept_fine($outtokens, $this.filter_, $outtokens.len() as int);
@@end
@@spec C22
pub open spec fn gap_in(t: Str, s: Step) -> Str { t.subrange(s.at, s.word) }
// the text as it was read: white space, word, separator, white space, word, separator, ...
pub open spec fn as_read(t: Str, ss: Seq<Step>, k: int) -> Str decreases k {
    if k <= 0 { Seq::<int>::empty() } else { ((as_read(t, ss, k - 1) + gap_in(t, ss[k - 1])) + word_in(t, ss[k - 1])) + sep_in(t, ss[k - 1]) }
}
// what was read is the text from its start on, in order, with nothing left out but what is passed over before a word
pub proof fn lemma_glue(t: Str, a: int, b: int)
    requires 0 <= a <= b <= t.len()
    ensures t.subrange(0, a) + t.subrange(a, b) == t.subrange(0, b)
{ assert(t.subrange(0, a) + t.subrange(a, b) =~= t.subrange(0, b)); }
pub proof fn lemma_step_bounds(r: Regex, t: Str, s: Step)
    requires step_ok(r, t, s)
    ensures 0 <= s.at <= s.word <= s.sep <= s.end <= t.len(), passed(gap_in(t, s))
{ reveal(step_ok); }
pub proof fn lemma_read_one(t: Str, ss: Seq<Step>, k: int)
    requires 0 < k <= ss.len(), ({ let s = ss[k - 1]; 0 <= s.at <= s.word <= s.sep <= s.end <= t.len() && as_read(t, ss, k - 1) == t.subrange(0, s.at) })
    ensures as_read(t, ss, k) == t.subrange(0, step_at(ss, k))
{
    let s = ss[k - 1];
    lemma_glue(t, s.at, s.word); lemma_glue(t, s.word, s.sep); lemma_glue(t, s.sep, s.end);
}
pub proof fn C22_the_text_is_read_in_order(l: Lexicon, r: Regex, t: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>, k: int)
    requires steps_ok(l, r, t, ss, ws, k), 0 <= k <= ss.len()
    ensures 0 <= step_at(ss, k) <= t.len(), as_read(t, ss, k) == t.subrange(0, step_at(ss, k)), forall|i: int| 0 <= i < k ==> passed(gap_in(t, #[trigger] ss[i]))
    decreases k
{
    hide(step_ok); hide(word_part); hide(passed);
    if k > 0 {
        let s = ss[k - 1];
        assert(step_ok(r, t, s) && s.at == step_at(ss, k - 1));
        assert(steps_ok(l, r, t, ss, ws, k - 1));
        C22_the_text_is_read_in_order(l, r, t, ss, ws, k - 1);
        lemma_step_bounds(r, t, s);
        lemma_read_one(t, ss, k);
        assert forall|i: int| 0 <= i < k implies passed(gap_in(t, #[trigger] ss[i])) by { if i == k - 1 { } }
    } else { assert(as_read(t, ss, k) =~= t.subrange(0, 0)); }
}
// on one line only white space is passed over
pub proof fn C22_on_one_line_only_white_space_is_passed(s: Str)
    requires passed(s), forall|j: int| 0 < j <= s.len() ==> one_line(#[trigger] s.subrange(0, j))
    ensures white(s)
{
    let j = choose|j: int| #[trigger] passed_from(s, j);
    if j > 0 { axiom_line(s, j); assert(one_line(s.subrange(0, j))); }
    assert(s.subrange(0, s.len() as int) =~= s);
}
// reading goes on to the end of the text unless the rest does not begin with a token
pub proof fn C22_reading_goes_on(z: Tokenizer, s: Str, ts: Seq<Token>)
    requires tokens_of(z, s, ts)
    ensures ({
        let t = scan_text(z.lex_, s);
        exists|x: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>, all: Seq<Token>| #[trigger] reads(z.lex_, x, t, ss, ws, all) && ts == unfiltered(all, z.filter_)
            && (step_at(ss, ss.len() as int) == t.len() || !re_search(scan_re(x), behind(t, step_at(ss, ss.len() as int))))
    })
{
    reveal(reads); reveal(step_ok);
    let t = scan_text(z.lex_, s);
    let all = choose|all: Seq<Token>| #[trigger] all_tokens(z.lex_, t, all) && ts == unfiltered(all, z.filter_);
    let (x, ss, ws) = choose|x: Str, ss: Seq<Step>, ws: Seq<Seq<Token>>| #[trigger] reads(z.lex_, x, t, ss, ws, all);
    assert(steps_end(scan_re(x), t, ss));
    if ss.len() > 0 { assert(step_ok(scan_re(x), t, ss[ss.len() - 1])); }
}
// a word the lexicon knows is one token with the classes of its definitions; any other is one word token, or is split
pub proof fn C22_known_words_stay_whole(l: Lexicon, w: Str, ts: Seq<Token>)
    requires word_part(l, w, ts), w.len() > 0
    ensures word_token(w, l).inlex_ ==> ts == seq![word_token(w, l)], ts.len() > 0
{ reveal(word_part); }
// a separator is one token: its text without white space around, or a blank
pub proof fn C22_a_separator_is_one_token(l: Lexicon, w: Str)
    requires w.len() > 0
    ensures sep_part(l, w).len() == 1
{ reveal(sep_part); }
@@end
