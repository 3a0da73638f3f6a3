@@uses rule classes
@@spec
// ---- a rule line: words between blanks, parts between arrows ----------------------------------
pub open spec fn words(s: Str) -> Seq<Str> decreases s.len() via words_shrink {
    let a = ws_end(s, 0); let b = word_end(s, a);
    if a >= s.len() { Seq::<Str>::empty() } else { seq![s.subrange(a, b)] + words(s.subrange(b, s.len() as int)) }
}
#[via_fn]
proof fn words_shrink(s: Str) { lemma_ws_end(s, 0); lemma_word_end(s, ws_end(s, 0)); lemma_word_moves(s, ws_end(s, 0)); }
pub proof fn lemma_word_moves(s: Str, a: int)
    requires 0 <= a
    ensures a < s.len() && !is_ws(s[a]) ==> word_end(s, a) > a
{ if a < s.len() && !is_ws(s[a]) { lemma_word_end(s, a + 1); } }
pub ghost struct Reading { pub rule: Rule, pub part: int }
pub open spec fn arrow() -> Str { #"->" }
pub open spec fn fed(x: Reading, w: Str) -> Reading {
    if w == arrow() { Reading { part: x.part + 1, ..x } }
    else if x.part == 0 { Reading { rule: Rule { inClass_: x.rule.inClass_.push(in_code(w)), ..x.rule }, ..x } }
    else if x.part == 1 { Reading { rule: Rule { outClass_: x.rule.outClass_.push(out_code(w)), ..x.rule }, ..x } }
    else if x.part == 2 { Reading { rule: Rule { score_: f64to32(atof_val(w)), ..x.rule }, ..x } }
    else { x }
}
pub open spec fn fed_all(x: Reading, ws: Seq<Str>) -> Reading decreases ws.len() {
    if ws.len() == 0 { x } else { fed_all(fed(x, ws[0]), ws.subrange(1, ws.len() as int)) }
}
pub open spec fn blank_rule() -> Rule { Rule { inClass_: Seq::<int>::empty(), outClass_: Seq::<int>::empty(), score_: #f0.0 } }
pub open spec fn start() -> Reading { Reading { rule: blank_rule(), part: 0 } }
pub open spec fn rule_of(line: Str) -> Rule { fed_all(start(), words(line)).rule }
pub open spec fn valid(r: Rule) -> bool { r.inClass_.len() == r.outClass_.len() && fgt(r.score_, #f0.0) }
pub open spec fn same_rule(a: Rule, b: Rule) -> bool { a == b || (!valid(a) && !valid(b)) }
pub open spec fn last_fed(x: Reading, w: Str) -> bool {
    &&& x.part >= 0
    &&& x.part <= 1 ==> x.rule.score_ == #f0.0
    &&& x.part == 2 ==> if w == arrow() { x.rule.score_ == #f0.0 } else { x.rule.score_ == f64to32(atof_val(w)) }
}
// a number is not above itself
#[verifier::external_body]
pub proof fn axiom_fgt_self(a: F) ensures !fgt(a, a) {}
pub proof fn lemma_reads(st: Stream, old: Str)
    requires !st.eof, !st.fail
    ensures ({
        let n = word_read(st, old);
        if words(st.rest).len() == 0 { n.0.eof && n.0.fail && n.1 == old }
        else { !n.0.fail && n.1 == words(st.rest)[0] && words(st.rest).subrange(1, words(st.rest).len() as int) == words(n.0.rest) && n.0.rest.len() < st.rest.len() && (n.0.eof ==> words(n.0.rest).len() == 0) }
    })
{
    let s = st.rest; let a = ws_end(s, 0);
    lemma_ws_end(s, 0);
    if a < s.len() {
        lemma_word_end(s, a); lemma_word_moves(s, a);
        let b = word_end(s, a);
        assert(words(s) == seq![s.subrange(a, b)] + words(s.subrange(b, s.len() as int)));
        assert(words(s).subrange(1, words(s).len() as int) =~= words(s.subrange(b, s.len() as int)));
        if b >= s.len() { assert(s.subrange(b, s.len() as int).len() == 0); }
    }
}
@@end
@@fn Rule::Rule(string)
params: line
vars: buffer Stream; state int; token Str
opt: throws
ensures
    $throws <==> !valid(rule_of($line)),
    !$throws ==> $ret == rule_of($line),
@@entry
assert(stream_of($$line).rest == $$line);
@@loop 1
invariant
    !$buffer.eof ==> !$buffer.fail,
    last_fed(Reading { rule: $this, part: $state }, $token),
    !$buffer.eof ==> fed_all(Reading { rule: $this, part: $state }, words($buffer.rest)).rule == rule_of($$line),
    $buffer.eof ==> same_rule($this, rule_of($$line)),
decreases (if $buffer.eof { 0 } else { $buffer.rest.len() + 1 })
@@loopbody 1
let ghost b0 = $buffer;
let ghost t0 = $token;
let ghost x0 = Reading { rule: $this, part: $state };
axiom_fgt_self(#f0.0);
lemma_reads($buffer, $token);
lemma_ws_end($buffer.rest, 0);
lemma_word_end($buffer.rest, ws_end($buffer.rest, 0));
@@loopend 1
let x1 = Reading { rule: $this, part: $state };
let w = word_read(b0, t0);
let ws = words(b0.rest);
assert($buffer == w.0 && $token == w.1);
assert(x1.rule.inClass_ =~= fed(x0, w.1).rule.inClass_);
assert(x1.rule.outClass_ =~= fed(x0, w.1).rule.outClass_);
assert(x1 == fed(x0, w.1));
if ws.len() == 0 {
    assert(x0.rule == rule_of($$line));
    if x0.part <= 1 { assert(!valid(x0.rule)); assert(!valid(x1.rule)); }
    else { assert(x1.rule == x0.rule); }
    assert(same_rule($this, rule_of($$line)));
} else {
    let t = ws.subrange(1, ws.len() as int);
    assert(fed_all(x0, ws) == fed_all(fed(x0, ws[0]), t));
    assert(t == words($buffer.rest));
    assert(fed_all(x1, words($buffer.rest)).rule == rule_of($$line));
    if $buffer.eof { assert(fed_all(x1, t) == x1); assert(same_rule($this, rule_of($$line))); }
}
@@end
@@spec C11
pub open spec fn is_word(w: Str) -> bool { w.len() > 0 && forall|k: int| 0 <= k < w.len() ==> !is_ws(#[trigger] w[k]) }
pub open spec fn are_words(ws: Seq<Str>) -> bool { forall|k: int| 0 <= k < ws.len() ==> is_word(#[trigger] ws[k]) }
pub open spec fn no_arrow(ws: Seq<Str>) -> bool { forall|k: int| 0 <= k < ws.len() ==> #[trigger] ws[k] != arrow() }
pub open spec fn row(ws: Seq<Str>) -> Str decreases ws.len() { if ws.len() == 0 { Seq::<int>::empty() } else { (ws[0] + #" ") + row(ws.subrange(1, ws.len() as int)) } }
pub open spec fn in_codes(ws: Seq<Str>) -> Seq<int> { Seq::new(ws.len(), |k: int| in_code(ws[k])) }
pub open spec fn out_codes(ws: Seq<Str>) -> Seq<int> { Seq::new(ws.len(), |k: int| out_code(ws[k])) }
pub proof fn lemma_word_whole(s: Str, i: int, n: int)
    requires 0 <= i <= n < s.len(), is_ws(s[n]), forall|k: int| i <= k < n ==> !is_ws(s[k])
    ensures word_end(s, i) == n
    decreases n - i
{ if i < n { lemma_word_whole(s, i + 1, n); } }
// the words of a row of words are those words
pub proof fn C11_a_line_is_its_words(ws: Seq<Str>)
    requires are_words(ws)
    ensures words(row(ws)) == ws
    decreases ws.len()
{
    lits();
    reveal(#" ");
    if ws.len() == 0 { assert(words(row(ws)) =~= ws); }
    else {
        let t = ws.subrange(1, ws.len() as int);
        let w = ws[0]; let s = row(ws); let n = w.len() as int;
        assert(is_word(w));
        assert forall|k: int| 0 <= k < t.len() implies is_word(#[trigger] t[k]) by { assert(t[k] == ws[k + 1]); }
        C11_a_line_is_its_words(t);
        assert(forall|k: int| 0 <= k < n ==> s[k] == w[k]);
        assert(s[n] == 32);
        assert(!is_ws(s[0])) by { assert(s[0] == w[0]); }
        assert(ws_end(s, 0) == 0);
        lemma_word_whole(s, 0, n);
        assert(s.subrange(0, n) =~= w);
        let r = s.subrange(n, s.len() as int);
        assert(r =~= #" " + row(t));
        lemma_lead(row(t));
        assert(words(s) == seq![w] + words(r));
        assert(ws =~= seq![w] + t);
    }
}
pub proof fn lemma_skip(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures ws_end(#" " + s, i + 1) == ws_end(s, i) + 1, word_end(#" " + s, i + 1) == word_end(s, i) + 1
    decreases s.len() - i
{
    lits();
    reveal(#" ");
    let t = #" " + s;
    if i < s.len() { assert(t[i + 1] == s[i]); lemma_skip(s, i + 1); }
}
pub proof fn lemma_lead(s: Str)
    ensures words(#" " + s) == words(s)
{
    lits();
    reveal(#" ");
    let t = #" " + s;
    lemma_skip(s, 0);
    assert(is_ws(t[0]));
    assert(ws_end(t, 0) == ws_end(s, 0) + 1);
    let a = ws_end(s, 0);
    lemma_ws_end(s, 0);
    if a < s.len() {
        lemma_skip(s, a);
        lemma_word_end(s, a);
        let b = word_end(s, a);
        assert(t.subrange(a + 1, b + 1) =~= s.subrange(a, b));
        assert(t.subrange(b + 1, t.len() as int) =~= s.subrange(b, s.len() as int));
    }
}
pub proof fn lemma_fed_add(x: Reading, a: Seq<Str>, b: Seq<Str>)
    ensures fed_all(x, a + b) == fed_all(fed_all(x, a), b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let t = a.subrange(1, a.len() as int);
        lemma_fed_add(fed(x, a[0]), t, b);
        assert((a + b).subrange(1, (a + b).len() as int) =~= t + b);
    }
}
pub proof fn lemma_fed_part(x: Reading, ws: Seq<Str>)
    requires no_arrow(ws)
    ensures
        x.part == 0 ==> fed_all(x, ws) == (Reading { rule: Rule { inClass_: x.rule.inClass_ + in_codes(ws), ..x.rule }, part: 0 }),
        x.part == 1 ==> fed_all(x, ws) == (Reading { rule: Rule { outClass_: x.rule.outClass_ + out_codes(ws), ..x.rule }, part: 1 }),
    decreases ws.len()
{
    if ws.len() == 0 { assert(x.rule.inClass_ + in_codes(ws) =~= x.rule.inClass_); assert(x.rule.outClass_ + out_codes(ws) =~= x.rule.outClass_); }
    else {
        let t = ws.subrange(1, ws.len() as int);
        assert(ws[0] != arrow());
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] != arrow() by { assert(t[k] == ws[k + 1]); }
        lemma_fed_part(fed(x, ws[0]), t);
        assert(x.rule.inClass_.push(in_code(ws[0])) + in_codes(t) =~= x.rule.inClass_ + in_codes(ws));
        assert(x.rule.outClass_.push(out_code(ws[0])) + out_codes(t) =~= x.rule.outClass_ + out_codes(ws));
    }
}
pub open spec fn rule_line(ins: Seq<Str>, outs: Seq<Str>, score: Str) -> Str { row(ins + seq![arrow()] + outs + seq![arrow(), score]) }
// a line of input classes, output classes and a score reads as just that
pub proof fn C11_a_line_reads_as_its_parts(ins: Seq<Str>, outs: Seq<Str>, score: Str)
    requires are_words(ins), are_words(outs), is_word(score), no_arrow(ins), no_arrow(outs), score != arrow()
    ensures rule_of(rule_line(ins, outs, score)) == (Rule { inClass_: in_codes(ins), outClass_: out_codes(outs), score_: f64to32(atof_val(score)) })
{
    lits();
    reveal(#"->");
    let ws = ins + seq![arrow()] + outs + seq![arrow(), score];
    assert(is_word(arrow()));
    assert forall|k: int| 0 <= k < ws.len() implies is_word(#[trigger] ws[k]) by {
        if k < ins.len() { assert(ws[k] == ins[k]); } else if k > ins.len() && k < ins.len() + 1 + outs.len() { assert(ws[k] == outs[k - ins.len() - 1]); }
    }
    C11_a_line_is_its_words(ws);
    lemma_fed_part(start(), ins);
    let a = fed_all(start(), ins);
    assert(a.rule.inClass_ =~= in_codes(ins));
    lemma_fed_add(start(), ins, seq![arrow()] + outs + seq![arrow(), score]);
    assert(ws =~= ins + (seq![arrow()] + outs + seq![arrow(), score]));
    lemma_fed_add(a, seq![arrow()], outs + seq![arrow(), score]);
    assert(seq![arrow()] + outs + seq![arrow(), score] =~= seq![arrow()] + (outs + seq![arrow(), score]));
    lemma_one(a, arrow());
    let b = fed(a, arrow());
    lemma_fed_add(b, outs, seq![arrow(), score]);
    lemma_fed_part(b, outs);
    let c = fed_all(b, outs);
    assert(c.rule.outClass_ =~= out_codes(outs));
    assert(seq![arrow(), score] =~= seq![arrow()] + seq![score]);
    lemma_fed_add(c, seq![arrow()], seq![score]);
    lemma_one(c, arrow());
    lemma_one(fed(c, arrow()), score);
}
pub proof fn lemma_one(x: Reading, w: Str) ensures fed_all(x, seq![w]) == fed(x, w) { assert(seq![w].subrange(1, 1) =~= Seq::<Str>::empty()); assert(fed_all(fed(x, w), seq![w].subrange(1, 1)) == fed(x, w)); }
// a refused line: the sides differ, or the score is not above zero
pub proof fn C11_a_line_is_refused_when_not_balanced_or_not_positive(ins: Seq<Str>, outs: Seq<Str>, score: Str)
    requires are_words(ins), are_words(outs), is_word(score), no_arrow(ins), no_arrow(outs), score != arrow()
    ensures valid(rule_of(rule_line(ins, outs, score))) <==> ins.len() == outs.len() && fgt(f64to32(atof_val(score)), #f0.0)
{ C11_a_line_reads_as_its_parts(ins, outs, score); }
@@end
