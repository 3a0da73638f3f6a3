@@uses search classes
@@spec
pub open spec fn flat_out(rs: Seq<Rule>) -> Seq<int> decreases rs.len() { if rs.len() == 0 { Seq::<int>::empty() } else { flat_out(rs.drop_last()) + rs.last().outClass_ } }
pub open spec fn all_rules_ok(rs: Seq<Rule>) -> bool { forall|k: int| 0 <= k < rs.len() ==> rule_ok(#[trigger] rs[k]) }
pub open spec fn upto_rule(rs: Seq<Rule>, k: int) -> Seq<Rule> { rs.subrange(0, k) }
pub proof fn lemma_flat_step(rs: Seq<Rule>, k: int)
    requires 0 <= k < rs.len()
    ensures
        flat_in(upto_rule(rs, k + 1)) == flat_in(upto_rule(rs, k)) + rs[k].inClass_,
        flat_out(upto_rule(rs, k + 1)) == flat_out(upto_rule(rs, k)) + rs[k].outClass_,
{ assert(upto_rule(rs, k + 1).drop_last() =~= upto_rule(rs, k)); assert(upto_rule(rs, k + 1).last() == rs[k]); }
pub proof fn lemma_flat_prefix(rs: Seq<Rule>, k: int)
    requires 0 <= k <= rs.len(), all_rules_ok(rs)
    ensures
        flat_in(upto_rule(rs, k)).len() == flat_out(upto_rule(rs, k)).len(),
        flat_in(upto_rule(rs, k)).len() <= flat_in(rs).len(),
        flat_in(rs).len() == flat_out(rs).len(),
        forall|j: int| 0 <= j < flat_in(upto_rule(rs, k)).len() ==> #[trigger] flat_in(rs)[j] == flat_in(upto_rule(rs, k))[j] && flat_out(rs)[j] == flat_out(upto_rule(rs, k))[j],
    decreases rs.len() - k
{
    if k < rs.len() {
        lemma_flat_prefix(rs, k + 1);
        lemma_flat_step(rs, k);
        assert(rule_ok(rs[k]));
        assert forall|j: int| 0 <= j < flat_in(upto_rule(rs, k)).len() implies #[trigger] flat_in(rs)[j] == flat_in(upto_rule(rs, k))[j] && flat_out(rs)[j] == flat_out(upto_rule(rs, k))[j] by {
            assert(flat_in(upto_rule(rs, k + 1))[j] == flat_in(upto_rule(rs, k))[j]);
        }
    } else { assert(upto_rule(rs, k) =~= rs); lemma_flat_len(rs); }
}
pub proof fn lemma_flat_len(rs: Seq<Rule>)
    requires all_rules_ok(rs)
    ensures flat_in(rs).len() == flat_out(rs).len()
    decreases rs.len()
{
    if rs.len() > 0 {
        assert(rule_ok(rs.last())) by { assert(rule_ok(rs[rs.len() - 1])); }
        assert forall|k: int| 0 <= k < rs.drop_last().len() implies rule_ok(#[trigger] rs.drop_last()[k]) by { assert(rule_ok(rs[k])); }
        lemma_flat_len(rs.drop_last());
    }
}
// a phrase with the first k tokens tagged
pub open spec fn tag1(t: Token, i: int, o: int) -> Token { Token { inclass_: Set::<int>::empty().insert(i), outclass_: o, ..t } }
pub open spec fn tagged(ts: Seq<Token>, ins: Seq<int>, outs: Seq<int>, k: int) -> Seq<Token> { Seq::new(ts.len(), |i: int| if i < k { tag1(ts[i], ins[i], outs[i]) } else { ts[i] }) }
pub open spec fn first_bad(ts: Seq<Token>, ins: Seq<int>, i: int) -> int decreases ins.len() - i {
    if i < 0 || i >= ins.len() { ins.len() as int } else if !ts[i].inclass_.contains(ins[i]) { i } else { first_bad(ts, ins, i + 1) }
}
pub open spec fn reclassed(ts: Seq<Token>, r: SearchPath) -> (bool, Seq<Token>) {
    let ins = flat_in(r.rules); let outs = flat_out(r.rules);
    if ins.len() != ts.len() { (false, ts) } else { (first_bad(ts, ins, 0) == ins.len(), tagged(ts, ins, outs, first_bad(ts, ins, 0))) }
}
pub proof fn lemma_first_bad(ts: Seq<Token>, ins: Seq<int>, i: int, k: int)
    requires 0 <= i <= k <= ins.len(), forall|j: int| i <= j < k ==> ts[j].inclass_.contains(#[trigger] ins[j])
    ensures first_bad(ts, ins, i) == first_bad(ts, ins, k)
    decreases k - i
{ if i < k { assert(ts[i].inclass_.contains(ins[i])); lemma_first_bad(ts, ins, i + 1, k); } }
// the text of a tagged phrase
pub open spec fn ins_text(ts: Seq<Token>, k: int) -> Str decreases k when k >= 0 { if k <= 0 { Seq::<int>::empty() } else { ins_text(ts, k - 1) + in_names(ts[k - 1].inclass_) + #" " } }
pub open spec fn outs_text(ts: Seq<Token>, k: int) -> Str decreases k when k >= 0 { if k <= 0 { ins_text(ts, ts.len() as int) + #"-> " } else { outs_text(ts, k - 1) + out_name(ts[k - 1].outclass_) + #" " } }
pub open spec fn match_text(ts: Seq<Token>) -> Str { outs_text(ts, ts.len() as int).drop_last() }

// ---- rules of a result are rules of the grammar and consume exactly a prefix of the pattern ----
pub open spec fn pinv(p: SearchPath, base: Seq<int>) -> bool { all_rules_ok(p.rules) && flat_in(p.rules) + p.remaining == base }
pub open spec fn psinv(ps: Seq<SearchPath>, base: Seq<int>) -> bool { forall|i: int| 0 <= i < ps.len() ==> pinv(#[trigger] ps[i], base) }
pub proof fn lemma_psinv_add(a: Seq<SearchPath>, b: Seq<SearchPath>, base: Seq<int>)
    requires psinv(a, base), psinv(b, base)
    ensures psinv(a + b, base)
{ assert forall|i: int| 0 <= i < (a + b).len() implies pinv(#[trigger] (a + b)[i], base) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_m_rules_inv(rs: Seq<Rule>, k: int, p: SearchPath, base: Seq<int>)
    requires 0 <= k <= rs.len(), all_rules_ok(rs), pinv(p, base)
    ensures psinv(m_rules(rs, k, p), base)
    decreases k
{
    if k > 0 {
        lemma_m_rules_inv(rs, k - 1, p, base);
        let b = if is_prefix(rs[k - 1].inClass_, p.remaining) { seq![at_rule(rs[k - 1], p)] } else { Seq::<SearchPath>::empty() };
        if is_prefix(rs[k - 1].inClass_, p.remaining) {
            let q = at_rule(rs[k - 1], p);
            assert(rule_ok(rs[k - 1]));
            assert(q.rules.drop_last() =~= p.rules);
            assert(rs[k - 1].inClass_ + q.remaining =~= p.remaining);
            assert(flat_in(q.rules) + q.remaining =~= flat_in(p.rules) + p.remaining);
        }
        lemma_psinv_add(m_rules(rs, k - 1, p), b, base);
    }
}
pub proof fn lemma_m_sec_inv(g: Search, s: SectionPtr, p: SearchPath, l: int, base: Seq<int>)
    requires g_wf(g), ref_ok(g, s), refs_ok(g, p.next), pinv(p, base)
    ensures psinv(m_sec(g, s, p, l), base)
    decreases g.recursion_limit_ + 1 - l, 2int, 0int, 0int, 0int
{
    if l <= g.recursion_limit_ {
        if s.mptr_ != -1 { lemma_m_alts_inv(g, s.mptr_, g.metas_[s.mptr_].rules_.len() as int, p, l, base); }
        else if s.rptr_ != -1 {
            let rr = g.rules_[s.rptr_].rules_;
            assert forall|k: int| 0 <= k < rr.len() implies rule_ok(#[trigger] rr[k]) by { assert(rule_ok(g.rules_[s.rptr_].rules_[k])); }
            lemma_m_rules_inv(rr, rr.len() as int, p, base);
        }
    }
}
pub proof fn lemma_m_alts_inv(g: Search, m: int, k: int, p: SearchPath, l: int, base: Seq<int>)
    requires g_wf(g), refs_ok(g, p.next), 0 <= m < g.metas_.len(), 0 <= k <= g.metas_[m].rules_.len(), pinv(p, base)
    ensures psinv(m_alts(g, g.metas_[m].rules_, k, p, l), base)
    decreases g.recursion_limit_ + 1 - l, 1int, k, 0int, 0int
{
    let alts = g.metas_[m].rules_;
    if k > 0 && l <= g.recursion_limit_ {
        lemma_m_alts_inv(g, m, k - 1, p, l, base);
        let a = g.metas_[m].rules_[k - 1];
        let q = expand(p, a);
        assert(refs_ok(g, a.refs_));
        assert(refs_ok(g, q.next)) by {
            assert forall|i: int| 0 <= i < q.next.len() implies ref_ok(g, #[trigger] q.next[i]) by { if i < a.refs_.len() { assert(q.next[i] == a.refs_[i]); } else { assert(q.next[i] == p.next[i - a.refs_.len()]); } }
        }
        lemma_m_next_inv(g, q, l, base);
        let b = if (alts[k - 1].refs_ + p.next).len() > 0 { m_next(g, q, l) } else { Seq::<SearchPath>::empty() };
        lemma_psinv_add(m_alts(g, alts, k - 1, p, l), b, base);
    }
}
pub proof fn lemma_m_next_inv(g: Search, p: SearchPath, l: int, base: Seq<int>)
    requires g_wf(g), refs_ok(g, p.next), pinv(p, base)
    ensures psinv(m_next(g, p, l), base)
    decreases g.recursion_limit_ + 1 - l, 0int, p.next.len() as int, 1int, 0int
{
    if l <= g.recursion_limit_ && p.next.len() > 0 {
        let rs = m_sec(g, p.next[0], tailp(p), l + 1);
        assert(ref_ok(g, p.next[0]));
        assert(refs_ok(g, tailp(p).next)) by { assert forall|k: int| 0 <= k < tailp(p).next.len() implies ref_ok(g, #[trigger] tailp(p).next[k]) by { assert(tailp(p).next[k] == p.next[k + 1]); } }
        lemma_m_sec_inv(g, p.next[0], tailp(p), l + 1, base);
        lemma_sec_next(g, p.next[0], tailp(p), l + 1);
        lemma_m_cont_inv(g, rs, rs.len() as int, l, p.next.len() as int, base);
    }
}
pub proof fn lemma_m_cont_inv(g: Search, rs: Seq<SearchPath>, k: int, l: int, b: int, base: Seq<int>)
    requires g_wf(g), 0 <= k <= rs.len(), 0 <= b, psinv(rs, base), forall|i: int| 0 <= i < rs.len() ==> refs_ok(g, (#[trigger] rs[i]).next)
    ensures psinv(m_cont(g, rs, k, l, b), base)
    decreases g.recursion_limit_ + 1 - l, 0int, b, 0int, k
{
    if k > 0 && l <= g.recursion_limit_ {
        lemma_m_cont_inv(g, rs, k - 1, l, b, base);
        assert(pinv(rs[k - 1], base) && refs_ok(g, rs[k - 1].next));
        if 0 < rs[k - 1].next.len() < b { lemma_m_next_inv(g, rs[k - 1], l, base); }
        let c = if rs[k - 1].next.len() > 0 { if rs[k - 1].next.len() < b { m_next(g, rs[k - 1], l) } else { Seq::<SearchPath>::empty() } } else { seq![rs[k - 1]] };
        lemma_psinv_add(m_cont(g, rs, k - 1, l, b), c, base);
    }
}
// what holds of every result of a search: it can be applied
pub open spec fn applies(ts: Seq<Token>, r: SearchPath) -> bool { all_rules_ok(r.rules) && combos(ts).contains(flat_in(r.rules)) }
pub open spec fn all_apply(ts: Seq<Token>, rs: Seq<SearchPath>) -> bool { forall|i: int| 0 <= i < rs.len() ==> applies(ts, #[trigger] rs[i]) }
pub proof fn lemma_many_apply(g: Search, s: SectionPtr, ts: Seq<Token>, k: int)
    requires g_wf(g), ref_ok(g, s), 0 <= k <= openings(ts).len()
    ensures forall|i: int| 0 <= i < m_many(g, s, openings(ts), k, 0).len() ==> all_rules_ok((#[trigger] m_many(g, s, openings(ts), k, 0)[i]).rules) && combos(ts).contains(flat_in(m_many(g, s, openings(ts), k, 0)[i].rules) + m_many(g, s, openings(ts), k, 0)[i].remaining)
    decreases k
{
    if k > 0 {
        lemma_many_apply(g, s, ts, k - 1);
        let p = openings(ts)[k - 1];
        assert(p.next.len() == 0 && p.rules.len() == 0);
        assert(flat_in(p.rules) + p.remaining =~= combos(ts)[k - 1]);
        lemma_m_sec_inv(g, s, p, 0, combos(ts)[k - 1]);
        let a = m_many(g, s, openings(ts), k - 1, 0); let b = m_sec(g, s, p, 0);
        assert forall|i: int| 0 <= i < (a + b).len() implies all_rules_ok((#[trigger] (a + b)[i]).rules) && combos(ts).contains(flat_in((a + b)[i].rules) + (a + b)[i].remaining) by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); assert(pinv(b[i - a.len()], combos(ts)[k - 1])); }
        }
    }
}
pub proof fn lemma_done_keeps(ts: Seq<Token>, rs: Seq<SearchPath>, k: int)
    requires 0 <= k <= rs.len(), forall|i: int| 0 <= i < rs.len() ==> all_rules_ok((#[trigger] rs[i]).rules) && combos(ts).contains(flat_in(rs[i].rules) + rs[i].remaining)
    ensures all_apply(ts, done(rs, k))
    decreases k
{
    if k > 0 {
        lemma_done_keeps(ts, rs, k - 1);
        let a = done(rs, k - 1); let x = rs[k - 1];
        assert(all_rules_ok(x.rules));
        if x.remaining.len() == 0 {
            assert(flat_in(x.rules) + x.remaining =~= flat_in(x.rules));
            assert forall|i: int| 0 <= i < done(rs, k).len() implies applies(ts, #[trigger] done(rs, k)[i]) by { if i < a.len() { assert(done(rs, k)[i] == a[i]); } else { assert(done(rs, k)[i] == x); } }
        } else { assert(done(rs, k) =~= a); }
    }
}
pub proof fn lemma_wf_limited(g: Search, ts: Seq<Token>)
    requires g_wf(g)
    ensures g_wf(limited(g, ts))
{
  let gg = limited(g, ts);
  assert forall|i: int, j: int| 0 <= i < gg.metas_.len() && 0 <= j < gg.metas_[i].rules_.len() implies refs_ok(gg, (#[trigger] gg.metas_[i].rules_[j]).refs_) by {
    assert(refs_ok(g, g.metas_[i].rules_[j].refs_));
    assert forall|k: int| 0 <= k < gg.metas_[i].rules_[j].refs_.len() implies ref_ok(gg, #[trigger] gg.metas_[i].rules_[j].refs_[k]) by { assert(ref_ok(g, g.metas_[i].rules_[j].refs_[k])); }
  }
}
pub proof fn lemma_search_applies(g: Search, n: Str, ts: Seq<Token>)
    requires g_wf(g), find_sec(g, n) is Some
    ensures all_apply(ts, search_of(g, n, ts))
{
    let s = find_sec(g, n)->0; let gg = limited(g, ts);
    lemma_wf_limited(g, ts);
    let all = m_many(gg, s, openings(ts), openings(ts).len() as int, 0);
    lemma_many_apply(gg, s, ts, openings(ts).len() as int);
    lemma_done_keeps(ts, all, all.len() as int);
}
// ---- scores ---------------------------------------------------------------------------------
pub open spec fn sum32(rs: Seq<Rule>, k: int) -> F decreases k when k >= 0 { if k <= 0 { #f0.0 } else { fadd32(sum32(rs, k - 1), rs[k - 1].score_) } }
pub open spec fn avg32(r: SearchPath) -> F { fdiv32(sum32(r.rules, r.rules.len() as int), f_of_int32(r.rules.len() as int)) }
pub open spec fn best_of(rs: Seq<SearchPath>, k: int) -> (int, F, F) decreases k when k >= 0 {
    if k <= 0 { (0int, #f0.0, f64to32(#f-1.0)) }
    else if fgt(avg32(rs[k - 1]), best_of(rs, k - 1).1) { (k - 1, avg32(rs[k - 1]), f_of_int32(rs[k - 1].rules.len() as int)) }
    else { best_of(rs, k - 1) }
}
pub proof fn lemma_best_bound(rs: Seq<SearchPath>, k: int)
    requires 0 <= k
    ensures 0 <= best_of(rs, k).0, k > 0 ==> best_of(rs, k).0 < k
    decreases k
{ if k > 0 { lemma_best_bound(rs, k - 1); } }
pub open spec fn addr_of(g: Search, ts: Seq<Token>) -> Seq<SearchPath> { search_of(g, #"ADDRESS", ts) }
pub open spec fn has_start(g: Search) -> bool { find_sec(g, #"ADDRESS") is Some }
// score, rule count, tokens and text of the best match of one phrase (old text when there is none)
pub struct Best { pub score: F, pub nrules: F, pub tokens: Seq<Token>, pub text: Str }
pub open spec fn best1(g: Search, ts: Seq<Token>, old: Str) -> Best {
    let rs = addr_of(g, ts); let b = best_of(rs, rs.len() as int); let t = reclassed(ts, rs[b.0]);
    if rs.len() == 0 { Best { score: f64to32(#f-1.0), nrules: f64to32(#f-1.0), tokens: Seq::<Token>::empty(), text: old } }
    else { Best { score: if t.0 { b.1 } else { f64to32(#f-2.0) }, nrules: b.2, tokens: t.1, text: if t.0 { match_text(t.1) } else { old } } }
}
pub open spec fn best_n(g: Search, ps: Seq<Seq<Token>>, k: int) -> Best decreases k when k >= 0 {
    if k <= 0 { Best { score: f64to32(#f-1.0), nrules: f64to32(#f-1.0), tokens: Seq::<Token>::empty(), text: Seq::<int>::empty() } }
    else { let b = best1(g, ps[k - 1], Seq::<int>::empty()); if fgt(b.score, best_n(g, ps, k - 1).score) { b } else { best_n(g, ps, k - 1) } }
}
pub open spec fn all_enum_ok(ps: Seq<Seq<Token>>) -> bool { forall|k: int| 0 <= k < ps.len() ==> enum_ok(#[trigger] ps[k]) }
// ---- the listing -----------------------------------------------------------------------------
pub open spec fn sum64(rs: Seq<Rule>, k: int) -> F decreases k when k >= 0 { if k <= 0 { #f0.0 } else { fadd64(sum64(rs, k - 1), f32to64(rs[k - 1].score_)) } }
pub open spec fn avg64(r: SearchPath) -> F { fdiv64(sum64(r.rules, r.rules.len() as int), f_of_int64(r.rules.len() as int)) }
pub open spec fn record(ts: Seq<Token>, r: SearchPath) -> MatchResult {
    MatchResult { matched: match_text(reclassed(ts, r).1), score: if reclassed(ts, r).0 { avg64(r) } else { #f-2.0 }, nrules: f_of_int64(r.rules.len() as int) }
}
pub open spec fn records1(ts: Seq<Token>, rs: Seq<SearchPath>, k: int) -> Seq<MatchResult> { Seq::new(k as nat, |i: int| record(ts, rs[i])) }
pub open spec fn records(g: Search, ps: Seq<Seq<Token>>, k: int) -> Seq<MatchResult> decreases k when k >= 0 {
    if k <= 0 { Seq::<MatchResult>::empty() } else { records(g, ps, k - 1) + records1(ps[k - 1], addr_of(g, ps[k - 1]), addr_of(g, ps[k - 1]).len() as int) }
}
pub open spec fn no_record() -> MatchResult { MatchResult { matched: #"Failed to match to grammar!", score: #f-1.0, nrules: #f-1.0 } }
@@end
@@fn Search::toString(vector<Token>)
params: this ts
vars: out Str
ensures $ret == match_text($ts),
@@loop 1
invariant $out == ins_text($$ts, $i),
@@loop 2
invariant $out == outs_text($$ts, $i),
@@afterloop 2
lemma_text_nonempty($$ts, $$ts.len() as int);
@@end
@@spec
pub proof fn lemma_text_nonempty(ts: Seq<Token>, k: int)
    requires 0 <= k
    ensures outs_text(ts, k).len() > 0
    decreases k
{ lits(); if k > 0 { lemma_text_nonempty(ts, k - 1); } }
@@end

@@fn Search::reclassTokens(vector<Token>&,SearchPath)
params: this tokens result
vars: cnt int; it int#2
requires all_rules_ok($result.rules),
ensures ($ret, $tokens') == reclassed($tokens, $result),
@@entry
let ghost ins = flat_in($$result.rules);
let ghost outs = flat_out($$result.rules);
@@loop 1
invariant $cnt == flat_in(upto_rule($$result.rules, $i)).len(),
@@beforeinc 1
lemma_flat_step($$result.rules, $i);
@@afterloop 1
assert(upto_rule($$result.rules, $$result.rules.len() as int) =~= $$result.rules);
lemma_flat_prefix($$result.rules, $$result.rules.len() as int);
@@loop 2
invariant
    $it == flat_in(upto_rule($$result.rules, $i)).len(),
    $tokens =~= tagged($$tokens, ins, outs, $it),
    forall|j: int| 0 <= j < $it ==> $$tokens[j].inclass_.contains(#[trigger] ins[j]),
@@loopbody 2
lemma_flat_step($$result.rules, $i); lemma_flat_prefix($$result.rules, $i); lemma_flat_prefix($$result.rules, $i + 1);
assert(rule_ok($$result.rules[$i]));
@@loop 3
invariant
    $it == flat_in(upto_rule($$result.rules, $i2)).len() + $i3,
    $tokens =~= tagged($$tokens, ins, outs, $it),
    forall|j: int| 0 <= j < $it ==> $$tokens[j].inclass_.contains(#[trigger] ins[j]),
@@loopbody 3
assert(flat_in(upto_rule($$result.rules, $i2 + 1))[$it] == $$result.rules[$i2].inClass_[$i3]);
assert(ins[$it] == $$result.rules[$i2].inClass_[$i3]);
assert(outs[$it] == $$result.rules[$i2].outClass_[$i3]);
assert(first_bad($$tokens, ins, 0) == first_bad($$tokens, ins, $it)) by { lemma_first_bad($$tokens, ins, 0, $it); }
@@return
if ins.len() == $$tokens.len() && $ret { assert(upto_rule($$result.rules, $$result.rules.len() as int) =~= $$result.rules); lemma_first_bad($$tokens, ins, 0, ins.len() as int); }
assert($tokens =~= reclassed($$tokens, $$result).1);
@@end
@@fn Search::searchAndReclassBest(vector<Token>,float&,string&,float&)
params: this phrase score matched nrules
vars: best int#1; bestScore F; bestNrules F#2; sum F#3
requires g_wf($this), enum_ok($phrase),
ensures
    $throws == !has_start($this),
    !$throws ==> ({ let b = best1($this, $phrase, $matched); $ret == b.tokens && $score' == b.score && $matched' == b.text && $nrules' == b.nrules }),
    !$throws ==> $this' == limited($this, $phrase),
@@entry
let ghost rs = addr_of($$this, $$phrase);
if has_start($$this) { lemma_search_applies($$this, #"ADDRESS", $$phrase); }
@@loop 1
invariant
    ($best, $bestScore, $bestNrules) == best_of(rs, $i),
@@loop 2
invariant
    $sum == sum32(rs[$i1].rules, $i2),
@@afterloop 1
lemma_best_bound(rs, rs.len() as int);
assert(applies($$phrase, rs[$best]));
@@end
@@fn Search::searchAndReclassBest(vector<vector<Token>>,float&,string&,float&)
params: this phrases score matched nrules
vars: best Seq<Token>; bestMatched Str; bestNrules F#2; bestScore F
requires g_wf($this), all_enum_ok($phrases),
ensures
    $phrases.len() > 0 ==> $throws == !has_start($this),
    !$throws ==> ({ let b = best_n($this, $phrases, $phrases.len() as int); $ret == b.tokens && $score' == b.score && $matched' == b.text && $nrules' == b.nrules }),
@@loop 1
invariant
    $this == (Search { recursion_limit_: $this.recursion_limit_, ..$$this }),
    $i > 0 ==> has_start($$this),
    (Best { score: $bestScore, nrules: $bestNrules, tokens: $best, text: $bestMatched }) == best_n($$this, $$phrases, $i),
@@loopbody 1
lemma_same($$this, $this, $$phrases[$i]);
@@end
@@spec
pub proof fn lemma_same(g: Search, h: Search, ts: Seq<Token>)
    requires g_wf(g), h == (Search { recursion_limit_: h.recursion_limit_, ..g })
    ensures g_wf(h), has_start(h) == has_start(g), addr_of(h, ts) == addr_of(g, ts), limited(h, ts) == limited(g, ts)
{
    assert(limited(h, ts) == limited(g, ts));
    assert forall|i: int, j: int| 0 <= i < h.metas_.len() && 0 <= j < h.metas_[i].rules_.len() implies refs_ok(h, (#[trigger] h.metas_[i].rules_[j]).refs_) by {
        assert(refs_ok(g, g.metas_[i].rules_[j].refs_));
        assert forall|k: int| 0 <= k < h.metas_[i].rules_[j].refs_.len() implies ref_ok(h, #[trigger] h.metas_[i].rules_[j].refs_[k]) by { assert(ref_ok(g, g.metas_[i].rules_[j].refs_[k])); }
    }
}
@@end
@@fn Search::searchAndReclassAll(vector<vector<Token>>)
params: this phrases
vars: patterns Seq<MatchResult>; sum F
requires g_wf($this), all_enum_ok($phrases),
ensures
    $phrases.len() > 0 ==> $throws == !has_start($this),
    !$throws ==> ({ let all = records($this, $phrases, $phrases.len() as int); $ret == if all.len() == 0 { seq![no_record()] } else { all } }),
@@loop 1
invariant
    0 <= $i <= $$phrases.len(),
    $this == (Search { recursion_limit_: $this.recursion_limit_, ..$$this }),
    $i > 0 ==> has_start($$this),
    $patterns == records($$this, $$phrases, $i),
decreases $$phrases.len() - $i
@@loopbody 1
let ghost rs = addr_of($$this, $$phrases[$i]);
lemma_same($$this, $this, $$phrases[$i]);
if has_start($$this) { lemma_search_applies($$this, #"ADDRESS", $$phrases[$i]); }
assert(records($$this, $$phrases, $i) + records1($$phrases[$i], rs, 0) =~= records($$this, $$phrases, $i));
@@loop 2
invariant
    $patterns =~= records($$this, $$phrases, $i1) + records1($$phrases[$i1], rs, $i2),
@@loopbody 2
assert(applies($$phrases[$i1], rs[$i2]));
@@loop 3
invariant
    $sum == sum64(rs[$i2].rules, $i3),
@@return
assert(records($$this, $$phrases, $$phrases.len() as int).len() == 0 ==> $ret =~= seq![no_record()]);
@@end
@@spec C05
// ---- C05: applying a match ------------------------------------------------------------------
pub open spec fn fits(ts: Seq<Token>, r: SearchPath) -> bool { flat_in(r.rules).len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> ts[i].inclass_.contains(#[trigger] flat_in(r.rules)[i]) }
pub proof fn lemma_bad_iff(ts: Seq<Token>, ins: Seq<int>, k: int)
    requires ins.len() == ts.len(), 0 <= k <= ts.len()
    ensures k <= first_bad(ts, ins, k) <= ts.len(),
        forall|i: int| k <= i < first_bad(ts, ins, k) ==> ts[i].inclass_.contains(#[trigger] ins[i]),
        first_bad(ts, ins, k) < ts.len() ==> !ts[first_bad(ts, ins, k)].inclass_.contains(ins[first_bad(ts, ins, k)]),
    decreases ts.len() - k
{ if k < ts.len() && ts[k].inclass_.contains(ins[k]) { lemma_bad_iff(ts, ins, k + 1); } }
pub proof fn C05_success_exactly_when_the_match_fits(ts: Seq<Token>, r: SearchPath)
    ensures reclassed(ts, r).0 == fits(ts, r)
{ let ins = flat_in(r.rules); if ins.len() == ts.len() { lemma_bad_iff(ts, ins, 0); let b = first_bad(ts, ins, 0); if fits(ts, r) && b < ts.len() { assert(ts[b].inclass_.contains(ins[b])); } } }
pub proof fn C05_tokens_are_tagged_by_position(ts: Seq<Token>, r: SearchPath, i: int)
    requires reclassed(ts, r).0, 0 <= i < ts.len()
    ensures ({
        let t = reclassed(ts, r).1[i];
        &&& t.inclass_ =~= Set::<int>::empty().insert(flat_in(r.rules)[i])
        &&& t.outclass_ == flat_out(r.rules)[i]
        &&& t == Token { inclass_: t.inclass_, outclass_: t.outclass_, ..ts[i] }
    }), reclassed(ts, r).1.len() == ts.len()
{}
pub proof fn C05_own_matches_never_fail(g: Search, ts: Seq<Token>, j: int)
    requires g_wf(g), has_start(g), enum_ok(ts), 0 <= j < addr_of(g, ts).len()
    ensures reclassed(ts, addr_of(g, ts)[j]).0
{
    broadcast use containers;
    lemma_search_applies(g, #"ADDRESS", ts);
    let r = addr_of(g, ts)[j];
    assert(applies(ts, r));
    let i = choose|i: int| 0 <= i < combos(ts).len() && combos(ts)[i] == flat_in(r.rules);
    lemma_sp_nonneg(ts, 0);
    assert(fits(ts, r)) by { assert forall|k: int| 0 <= k < ts.len() implies ts[k].inclass_.contains(#[trigger] flat_in(r.rules)[k]) by { lemma_scale(ts, i, k); assert(combos(ts)[i][k] == set_items(ts[k].inclass_)[digit(ts, i, k)]); } }
    C05_success_exactly_when_the_match_fits(ts, r);
}
@@end
@@spec C04 C06 C23
// ---- C04: the order of floating point numbers (an assumption) ---------------------------------
pub uninterp spec fn f_num(a: F) -> bool;   // not NaN
#[verifier::external_body]
pub proof fn axiom_fgt(a: F, b: F, c: F)
    requires f_num(a), f_num(b), f_num(c)
    ensures !fgt(a, a), fgt(a, b) && fgt(b, c) ==> fgt(a, c), !fgt(a, b) && !fgt(b, c) ==> !fgt(a, c)
{}
#[verifier::external_body]
pub proof fn axiom_f_lits()
    ensures f_num(#f0.0), f_num(f64to32(#f-1.0)), fgt(#f0.0, f64to32(#f-1.0))
{}
// every match has a positive score on average (rules with other scores are refused)
pub open spec fn scored(rs: Seq<SearchPath>) -> bool { forall|i: int| 0 <= i < rs.len() ==> f_num(#[trigger] avg32(rs[i])) && fgt(avg32(rs[i]), #f0.0) }
pub proof fn lemma_best_max(rs: Seq<SearchPath>, k: int)
    requires scored(rs), 0 <= k <= rs.len()
    ensures f_num(best_of(rs, k).1),
        k == 0 ==> best_of(rs, k).1 == #f0.0,
        k > 0 ==> 0 <= best_of(rs, k).0 < k && best_of(rs, k).1 == avg32(rs[best_of(rs, k).0]) && best_of(rs, k).2 == f_of_int32(rs[best_of(rs, k).0].rules.len() as int),
        forall|i: int| 0 <= i < k ==> !fgt(#[trigger] avg32(rs[i]), best_of(rs, k).1),
    decreases k
{
    axiom_f_lits();
    if k > 0 {
        lemma_best_max(rs, k - 1);
        let a = avg32(rs[k - 1]); let b = best_of(rs, k - 1).1;
        assert(f_num(a) && fgt(a, #f0.0));
        axiom_fgt(a, a, a);
        if fgt(a, b) {
            assert forall|i: int| 0 <= i < k implies !fgt(#[trigger] avg32(rs[i]), a) by { if i < k - 1 { assert(f_num(avg32(rs[i]))); axiom_fgt(avg32(rs[i]), b, a); axiom_fgt(b, a, b); axiom_fgt(b, b, b); } }
        }
    }
}
pub open spec fn m(g: Search, ps: Seq<Seq<Token>>, k: int, i: int) -> SearchPath { addr_of(g, ps[k])[i] }
pub open spec fn is_m(g: Search, ps: Seq<Seq<Token>>, n: int, k: int, i: int) -> bool { 0 <= k < n && 0 <= i < addr_of(g, ps[k]).len() }
pub open spec fn shows(g: Search, ps: Seq<Seq<Token>>, k: int, i: int, b: Best) -> bool {
    let t = reclassed(ps[k], m(g, ps, k, i));
    t.0 && b.score == avg32(m(g, ps, k, i)) && b.nrules == f_of_int32(m(g, ps, k, i).rules.len() as int) && b.tokens == t.1 && b.text == match_text(t.1)
}
pub proof fn C04_the_best_match_is_returned(g: Search, ps: Seq<Seq<Token>>, n: int) -> (w: (int, int))
    requires g_wf(g), has_start(g), all_enum_ok(ps), 0 <= n <= ps.len(), forall|k: int| 0 <= k < ps.len() ==> scored(#[trigger] addr_of(g, ps[k])),
    ensures
        (forall|k: int| 0 <= k < n ==> (#[trigger] addr_of(g, ps[k])).len() == 0) ==> best_n(g, ps, n) == (Best { score: f64to32(#f-1.0), nrules: f64to32(#f-1.0), tokens: Seq::<Token>::empty(), text: Seq::<int>::empty() }),
        (exists|k: int| 0 <= k < n && (#[trigger] addr_of(g, ps[k])).len() > 0) ==> is_m(g, ps, n, w.0, w.1) && shows(g, ps, w.0, w.1, best_n(g, ps, n)),
        forall|k: int, i: int| is_m(g, ps, n, k, i) ==> !fgt(avg32(#[trigger] m(g, ps, k, i)), best_n(g, ps, n).score),
        f_num(best_n(g, ps, n).score),
    decreases n
{
    axiom_f_lits();
    if n > 0 {
        let w = C04_the_best_match_is_returned(g, ps, n - 1);
        let rs = addr_of(g, ps[n - 1]);
        let old = best_n(g, ps, n - 1);
        let e = Seq::<int>::empty();
        let b = best1(g, ps[n - 1], e);
        assert(enum_ok(ps[n - 1]));
        if rs.len() == 0 {
            let none = f64to32(#f-1.0);
            assert(b.score == none);
            assert(!fgt(none, old.score)) by {
                axiom_fgt(none, none, none);
                if exists|k: int| 0 <= k < n - 1 && (#[trigger] addr_of(g, ps[k])).len() > 0 {
                    assert(fgt(avg32(m(g, ps, w.0, w.1)), #f0.0)) by { assert(scored(addr_of(g, ps[w.0]))); }
                    assert(f_num(old.score));
                    axiom_fgt(old.score, #f0.0, none); axiom_fgt(none, old.score, none);
                } else { assert(old.score == none); }
            }
            assert(best_n(g, ps, n) == old);
            assert forall|k: int, i: int| is_m(g, ps, n, k, i) implies !fgt(avg32(#[trigger] m(g, ps, k, i)), best_n(g, ps, n).score) by { if k == n - 1 { assert(false); } assert(is_m(g, ps, n - 1, k, i)); }
            if exists|k: int| 0 <= k < n && (#[trigger] addr_of(g, ps[k])).len() > 0 {
                let k = choose|k: int| 0 <= k < n && (#[trigger] addr_of(g, ps[k])).len() > 0;
                assert(0 <= k < n - 1 && addr_of(g, ps[k]).len() > 0);
            }
            w
        } else {
            assert(scored(addr_of(g, ps[n - 1])));
            lemma_best_max(rs, rs.len() as int);
            let j = best_of(rs, rs.len() as int).0;
            assert(m(g, ps, n - 1, j) == rs[j]);
            lemma_own(g, ps[n - 1], j);
            assert(b.score == avg32(rs[j]));
            let best = best_n(g, ps, n);
            axiom_fgt(b.score, old.score, b.score); axiom_fgt(b.score, b.score, b.score);
            assert forall|k: int, i: int| is_m(g, ps, n, k, i) implies !fgt(avg32(#[trigger] m(g, ps, k, i)), best.score) by {
                let a = avg32(m(g, ps, k, i));
                assert(scored(addr_of(g, ps[k])));
                assert(f_num(avg32(addr_of(g, ps[k])[i])));
                axiom_fgt(old.score, b.score, old.score);
                axiom_fgt(old.score, old.score, old.score);
                if k == n - 1 { assert(!fgt(avg32(rs[i]), b.score)); axiom_fgt(a, b.score, old.score); }
                else { assert(is_m(g, ps, n - 1, k, i)); axiom_fgt(a, old.score, b.score); }
            }
            if fgt(b.score, old.score) { assert(shows(g, ps, n - 1, j, best)); assert(is_m(g, ps, n, n - 1, j)); (n - 1, j) }
            else {
                if forall|k: int| 0 <= k < n - 1 ==> (#[trigger] addr_of(g, ps[k])).len() == 0 {
                    let none = f64to32(#f-1.0);
                    axiom_fgt(b.score, #f0.0, none);
                    assert(false);
                }
                w
            }
        }
    } else { (0, 0) }
}
pub proof fn lemma_own(g: Search, ts: Seq<Token>, j: int)
    requires g_wf(g), has_start(g), enum_ok(ts), 0 <= j < addr_of(g, ts).len()
    ensures reclassed(ts, addr_of(g, ts)[j]).0
{
    broadcast use containers;
    lemma_search_applies(g, #"ADDRESS", ts);
    let r = addr_of(g, ts)[j]; let ins = flat_in(r.rules);
    assert(applies(ts, r));
    let i = choose|i: int| 0 <= i < combos(ts).len() && combos(ts)[i] == flat_in(r.rules);
    lemma_sp_nonneg(ts, 0);
    assert forall|k: int| 0 <= k < ts.len() implies ts[k].inclass_.contains(#[trigger] ins[k]) by { lemma_scale(ts, i, k); assert(combos(ts)[i][k] == set_items(ts[k].inclass_)[digit(ts, i, k)]); }
    lemma_first_bad(ts, ins, 0, ins.len() as int);
}
@@end
@@spec C23
// ---- C23: one record per match, in order -------------------------------------------------------
pub open spec fn count_to(g: Search, ps: Seq<Seq<Token>>, k: int) -> int decreases k when k >= 0 { if k <= 0 { 0 } else { count_to(g, ps, k - 1) + addr_of(g, ps[k - 1]).len() } }
pub open spec fn rec_ok(g: Search, ps: Seq<Seq<Token>>, n: int, k: int, i: int) -> bool {
    0 <= count_to(g, ps, k) + i < records(g, ps, n).len() && records(g, ps, n)[count_to(g, ps, k) + i] == record(ps[k], addr_of(g, ps[k])[i])
}
pub proof fn C23_one_record_per_match(g: Search, ps: Seq<Seq<Token>>, n: int)
    requires 0 <= n <= ps.len()
    ensures records(g, ps, n).len() == count_to(g, ps, n),
        forall|k: int, i: int| 0 <= k < n && 0 <= i < addr_of(g, ps[k]).len() ==> #[trigger] rec_ok(g, ps, n, k, i),
    decreases n
{
    if n > 0 {
        C23_one_record_per_match(g, ps, n - 1);
        let a = records(g, ps, n - 1);
        let b = records1(ps[n - 1], addr_of(g, ps[n - 1]), addr_of(g, ps[n - 1]).len() as int);
        let c = records(g, ps, n);
        assert(c == a + b);
        assert forall|k: int, i: int| 0 <= k < n && 0 <= i < addr_of(g, ps[k]).len() implies #[trigger] rec_ok(g, ps, n, k, i) by {
            let x = count_to(g, ps, k) + i;
            if k < n - 1 { assert(rec_ok(g, ps, n - 1, k, i)); assert(c[x] == a[x]); }
            else { lemma_count(g, ps, k); assert(x == a.len() + i); assert(c[x] == b[i]); assert(b[i] == record(ps[k], addr_of(g, ps[k])[i])); }
        }
    }
}
pub proof fn lemma_count(g: Search, ps: Seq<Seq<Token>>, k: int)
    requires 0 <= k
    ensures count_to(g, ps, k) >= 0
    decreases k
{ if k > 0 { lemma_count(g, ps, k - 1); } }
@@end
