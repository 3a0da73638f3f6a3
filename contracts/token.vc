@@spec
// sizes, prefix and suffix products of the class sets
pub open spec fn n_of(ts: Seq<Token>, k: int) -> int { ts[k].inclass_.len() as int }
pub open spec fn pp(ts: Seq<Token>, k: int) -> int decreases k when k >= 0 { if k <= 0 { 1 } else { pp(ts, k - 1) * n_of(ts, k - 1) } }
pub open spec fn sp(ts: Seq<Token>, k: int) -> int decreases ts.len() - k when k >= 0 {
    if k >= ts.len() { 1 } else { n_of(ts, k) * sp(ts, k + 1) }
}
// the combination counter fits the machine word
pub open spec fn enum_ok(ts: Seq<Token>) -> bool { forall|k: int| 0 <= k <= ts.len() ==> #[trigger] pp(ts, k) < 0x1_0000_0000 }
pub open spec fn digit(ts: Seq<Token>, i: int, j: int) -> int { (i / sp(ts, j + 1)) % n_of(ts, j) }
// the i-th combination in lexicographic order
pub open spec fn combo(ts: Seq<Token>, i: int) -> Seq<int> { Seq::new(ts.len(), |j: int| set_items(ts[j].inclass_)[digit(ts, i, j)]) }
pub open spec fn combos(ts: Seq<Token>) -> Seq<Seq<int>> { Seq::new(sp(ts, 0) as nat, |i: int| combo(ts, i)) }

pub proof fn lemma_pp_nonneg(ts: Seq<Token>, k: int)
    requires 0 <= k <= ts.len()
    ensures pp(ts, k) >= 0
    decreases k
{ if k > 0 { lemma_pp_nonneg(ts, k - 1); assert(pp(ts, k - 1) * n_of(ts, k - 1) >= 0) by (nonlinear_arith) requires pp(ts, k - 1) >= 0, n_of(ts, k - 1) >= 0; } }
pub proof fn lemma_sp_nonneg(ts: Seq<Token>, k: int)
    requires 0 <= k <= ts.len()
    ensures sp(ts, k) >= 0
    decreases ts.len() - k
{ if k < ts.len() { lemma_sp_nonneg(ts, k + 1); assert(n_of(ts, k) * sp(ts, k + 1) >= 0) by (nonlinear_arith) requires sp(ts, k + 1) >= 0, n_of(ts, k) >= 0; } }
pub proof fn lemma_pp_sp(ts: Seq<Token>, k: int)
    requires 0 <= k <= ts.len()
    ensures pp(ts, k) * sp(ts, k) == pp(ts, ts.len() as int)
    decreases ts.len() - k
{
    if k < ts.len() {
        lemma_pp_sp(ts, k + 1);
        let a = pp(ts, k); let n = n_of(ts, k); let s = sp(ts, k + 1);
        assert(a * (n * s) == (a * n) * s) by (nonlinear_arith);
        assert(pp(ts, k + 1) == a * n);
    } else { assert(pp(ts, k) * 1 == pp(ts, k)); }
}
pub proof fn lemma_pos(ts: Seq<Token>, k: int)
    requires 0 <= k < ts.len(), sp(ts, 0) > 0
    ensures n_of(ts, k) > 0, sp(ts, k) > 0, sp(ts, k + 1) > 0, pp(ts, k) > 0, pp(ts, k + 1) > 0, pp(ts, ts.len() as int) > 0
{
    lemma_pp_sp(ts, 0);
    assert(pp(ts, 0) * sp(ts, 0) == sp(ts, 0));
    lemma_pp_sp(ts, k); lemma_pp_sp(ts, k + 1); lemma_pp_nonneg(ts, k); lemma_pp_nonneg(ts, k + 1); lemma_sp_nonneg(ts, k); lemma_sp_nonneg(ts, k + 1);
    assert(pp(ts, k) > 0 && sp(ts, k) > 0) by (nonlinear_arith) requires pp(ts, k) * sp(ts, k) > 0, pp(ts, k) >= 0, sp(ts, k) >= 0;
    assert(pp(ts, k + 1) > 0 && sp(ts, k + 1) > 0) by (nonlinear_arith) requires pp(ts, k + 1) * sp(ts, k + 1) > 0, pp(ts, k + 1) >= 0, sp(ts, k + 1) >= 0;
    if n_of(ts, k) == 0 { assert(sp(ts, k) == 0 * sp(ts, k + 1)); }
}
// the counter arithmetic of the loop: i*num/cnt is i / (product of the later sizes)
pub proof fn lemma_scale(ts: Seq<Token>, i: int, j: int)
    requires 0 <= j < ts.len(), sp(ts, 0) > 0, 0 <= i < sp(ts, 0), enum_ok(ts)
    ensures
        (i * pp(ts, j + 1)) / pp(ts, ts.len() as int) == i / sp(ts, j + 1),
        i * pp(ts, j + 1) < 0x1_0000_0000_0000_0000, 0 <= i * pp(ts, j + 1),
        0 <= digit(ts, i, j) < n_of(ts, j),
{
    lemma_pos(ts, j);
    lemma_pp_sp(ts, j + 1);
    lemma_pp_sp(ts, 0);
    assert(pp(ts, 0) * sp(ts, 0) == sp(ts, 0));
    let p = pp(ts, j + 1); let s = sp(ts, j + 1);
    vstd::arithmetic::div_mod::lemma_div_denominator(i * p, p, s);
    assert(i * p == p * i) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(i, p);
    assert(p < 0x1_0000_0000);
    assert(pp(ts, ts.len() as int) < 0x1_0000_0000);
    assert(0 <= i * p < 0x1_0000_0000_0000_0000) by (nonlinear_arith) requires 0 <= i < 0x1_0000_0000, 0 <= p < 0x1_0000_0000;
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(i, s);
}
@@end

@@spec C01
// ---- every combination exactly once ------------------------------------------------------
pub open spec fn is_choice(ts: Seq<Token>, c: Seq<int>) -> bool { c.len() == ts.len() && forall|j: int| 0 <= j < ts.len() ==> ts[j].inclass_.contains(#[trigger] c[j]) }
pub open spec fn rank(ts: Seq<Token>, c: Seq<int>, k: int) -> int decreases ts.len() - k when k >= 0 {
    if k >= ts.len() { 0 } else { set_idx(ts[k].inclass_, c[k]) * sp(ts, k + 1) + rank(ts, c, k + 1) }
}
pub proof fn lemma_rank_bound(ts: Seq<Token>, c: Seq<int>, k: int)
    requires is_choice(ts, c), 0 <= k <= ts.len()
    ensures 0 <= rank(ts, c, k) < sp(ts, k)
    decreases ts.len() - k
{
    if k < ts.len() {
        lemma_rank_bound(ts, c, k + 1);
        assert(ts[k].inclass_.contains(c[k]));
        axiom_set_idx(ts[k].inclass_, c[k]);
        let d = set_idx(ts[k].inclass_, c[k]); let s = sp(ts, k + 1); let n = n_of(ts, k); let r = rank(ts, c, k + 1);
        assert(0 <= d * s + r < n * s) by (nonlinear_arith) requires 0 <= d < n, 0 <= r < s;
    }
}
pub proof fn lemma_rank_split(ts: Seq<Token>, c: Seq<int>, k: int) -> (a: int)
    requires is_choice(ts, c), 0 <= k <= ts.len()
    ensures rank(ts, c, 0) == a * sp(ts, k) + rank(ts, c, k)
    decreases k
{
    if k == 0 { 0 } else {
        let a = lemma_rank_split(ts, c, k - 1);
        let d = set_idx(ts[k - 1].inclass_, c[k - 1]); let s = sp(ts, k); let n = n_of(ts, k - 1);
        assert(a * (n * s) + d * s == (a * n + d) * s) by (nonlinear_arith);
        a * n + d
    }
}
pub proof fn lemma_rank_digit(ts: Seq<Token>, c: Seq<int>, j: int)
    requires is_choice(ts, c), 0 <= j < ts.len()
    ensures digit(ts, rank(ts, c, 0), j) == set_idx(ts[j].inclass_, c[j])
{
    let a = lemma_rank_split(ts, c, j);
    lemma_rank_bound(ts, c, j + 1);
    lemma_rank_bound(ts, c, j);
    lemma_rank_bound(ts, c, 0);
    lemma_pos(ts, j);
    assert(ts[j].inclass_.contains(c[j]));
    axiom_set_idx(ts[j].inclass_, c[j]);
    let i = rank(ts, c, 0); let d = set_idx(ts[j].inclass_, c[j]); let s = sp(ts, j + 1); let n = n_of(ts, j); let r = rank(ts, c, j + 1);
    assert(i == (a * n + d) * s + r) by (nonlinear_arith) requires i == a * (n * s) + (d * s + r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, s, a * n + d, r);
    assert(a * n + d == n * a + d) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(a, d, n);
    vstd::arithmetic::div_mod::lemma_small_mod(d as nat, n as nat);
}
pub proof fn lemma_digits_determine(ts: Seq<Token>, i: int, k: int, m: int)
    requires 0 <= k <= ts.len(), sp(ts, 0) > 0, 0 <= i, 0 <= m, forall|j: int| 0 <= j < ts.len() ==> digit(ts, i, j) == #[trigger] digit(ts, m, j)
    ensures sp(ts, k) > 0, i % sp(ts, k) == m % sp(ts, k)
    decreases ts.len() - k
{
    if k < ts.len() {
        lemma_pos(ts, k);
        lemma_digits_determine(ts, i, k + 1, m);
        let s = sp(ts, k + 1); let n = n_of(ts, k);
        assert(digit(ts, i, k) == digit(ts, m, k));
        vstd::arithmetic::div_mod::lemma_mod_breakdown(i, s, n);
        vstd::arithmetic::div_mod::lemma_mod_breakdown(m, s, n);
        assert(n * s == s * n) by (nonlinear_arith);
    }
}
pub proof fn C01_every_combination_is_a_choice(ts: Seq<Token>, i: int)
    requires 0 <= i < combos(ts).len(), enum_ok(ts)
    ensures is_choice(ts, combos(ts)[i])
{
    broadcast use containers;
    lemma_sp_nonneg(ts, 0);
    assert forall|j: int| 0 <= j < ts.len() implies ts[j].inclass_.contains(#[trigger] combos(ts)[i][j]) by { lemma_scale(ts, i, j); }
}
pub proof fn C01_every_choice_is_enumerated(ts: Seq<Token>, c: Seq<int>)
    requires is_choice(ts, c)
    ensures combos(ts).contains(c)
{
    lemma_rank_bound(ts, c, 0);
    let i = rank(ts, c, 0);
    assert(combos(ts)[i] =~= c) by {
        assert forall|j: int| 0 <= j < ts.len() implies combos(ts)[i][j] == c[j] by {
            lemma_rank_digit(ts, c, j);
            assert(ts[j].inclass_.contains(c[j]));
            axiom_set_idx(ts[j].inclass_, c[j]);
        }
    }
}
pub proof fn C01_enumerated_once(ts: Seq<Token>, i: int, m: int)
    requires 0 <= i < combos(ts).len(), 0 <= m < combos(ts).len(), combos(ts)[i] == combos(ts)[m], enum_ok(ts)
    ensures i == m
{
    broadcast use containers;
    lemma_sp_nonneg(ts, 0);
    assert forall|j: int| 0 <= j < ts.len() implies digit(ts, i, j) == #[trigger] digit(ts, m, j) by {
        lemma_scale(ts, i, j); lemma_scale(ts, m, j);
        assert(combos(ts)[i][j] == combos(ts)[m][j]);
        let its = set_items(ts[j].inclass_);
        axiom_set_items(ts[j].inclass_);
        let a = digit(ts, i, j); let b = digit(ts, m, j);
        assert(combos(ts)[i][j] == combo(ts, i)[j] && combo(ts, i)[j] == its[a]);
        assert(combos(ts)[m][j] == combo(ts, m)[j] && combo(ts, m)[j] == its[b]);
        assert(its[a] == its[b]);
        if a < b { assert(its[a] < its[b]); } else if b < a { assert(its[b] < its[a]); }
    }
    lemma_digits_determine(ts, i, 0, m);
    vstd::arithmetic::div_mod::lemma_small_mod(i as nat, sp(ts, 0) as nat);
    vstd::arithmetic::div_mod::lemma_small_mod(m as nat, sp(ts, 0) as nat);
}
pub proof fn C01_empty_class_set_has_no_combination(ts: Seq<Token>, k: int)
    requires 0 <= k < ts.len(), ts[k].inclass_.len() == 0
    ensures combos(ts).len() == 0
{ lemma_sp_nonneg(ts, 0); if sp(ts, 0) > 0 { lemma_pos(ts, k); } }
@@end

@@fn Token::isInClass(InClass::Type)
params: this test
ensures $ret == $this.inclass_.contains($test),
@@end

@@fn Token::isInClass(set<InClass::Type>)
params: this test
ensures $ret == exists|x: int| $test.contains(x) && $this.inclass_.contains(x),
@@loop 1
invariant forall|k: int| 0 <= k < $i ==> !$$this.inclass_.contains(#[trigger] set_items($$test)[k]),
@@return
assert forall|x: int| $ret == false && $$test.contains(x) implies !$$this.inclass_.contains(x) by { assert(set_items($$test)[set_idx($$test, x)] == x); }
@@end

@@fn Token::in(int)
params: this pos
requires 0 <= $pos < $this.inclass_.len(),
ensures $ret == set_items($this.inclass_)[$pos],
@@end

@@fn Token::enumerate(vector<Token>)
params: tokens
vars: cnt int; i int; num int#3; one Seq<int>; list Seq<Seq<int>>
requires enum_ok($tokens),
ensures $ret == combos($tokens),
@@loop 1
invariant
    $cnt == pp($$tokens, $i),
@@loopbody 1
lemma_pp_nonneg($$tokens, $i);
assert(pp($$tokens, $i + 1) == pp($$tokens, $i) * n_of($$tokens, $i));
assert(pp($$tokens, $i + 1) < 0x1_0000_0000);
@@afterloop 1
lemma_pp_sp($$tokens, 0); lemma_sp_nonneg($$tokens, 0);
assert(pp($$tokens, 0) == 1);
assert(1 * sp($$tokens, 0) == sp($$tokens, 0));
@@loop 2
invariant
    $list.len() == $i,
    forall|k: int| 0 <= k < $i ==> #[trigger] $list[k] == combo($$tokens, k),
@@loop 3
invariant
    $num == pp($$tokens, $i3),
    $one.len() == $i3,
    forall|k: int| 0 <= k < $i3 ==> #[trigger] $one[k] == set_items($$tokens[k].inclass_)[digit($$tokens, $i2, k)],
@@loopbody 3
lemma_scale($$tokens, $i2, $i3); lemma_pos($$tokens, $i3); lemma_pp_nonneg($$tokens, $i3);
assert(pp($$tokens, $i3 + 1) == pp($$tokens, $i3) * n_of($$tokens, $i3));
assert(pp($$tokens, $i3 + 1) < 0x1_0000_0000);
@@beforeinc 2
assert($one =~= combo($$tokens, $i));
@@return
assert($ret =~= combos($$tokens));
@@end
