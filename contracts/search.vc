@@uses token rule
@@spec
pub open spec fn ref_ok(g: Search, s: SectionPtr) -> bool { (s.mptr_ == -1 || 0 <= s.mptr_ < g.metas_.len()) && (s.rptr_ == -1 || 0 <= s.rptr_ < g.rules_.len()) }
pub open spec fn refs_ok(g: Search, s: Seq<SectionPtr>) -> bool { forall|k: int| 0 <= k < s.len() ==> ref_ok(g, #[trigger] s[k]) }
// a grammar whose references are linked and whose rules are balanced
pub open spec fn g_wf(g: Search) -> bool {
    &&& forall|i: int, j: int| 0 <= i < g.metas_.len() && 0 <= j < g.metas_[i].rules_.len() ==> refs_ok(g, (#[trigger] g.metas_[i].rules_[j]).refs_)
    &&& forall|i: int, j: int| 0 <= i < g.rules_.len() && 0 <= j < g.rules_[i].rules_.len() ==> rule_ok(#[trigger] g.rules_[i].rules_[j])
    &&& forall|s: Str| g.sectionIndex_.dom().contains(s) ==> 0 <= #[trigger] g.sectionIndex_[s]
}
pub open spec fn at_rule(r: Rule, p: SearchPath) -> SearchPath {
    SearchPath { rules: p.rules.push(r), next: p.next, remaining: p.remaining.subrange(r.inClass_.len() as int, p.remaining.len() as int) }
}
pub open spec fn no_path() -> SearchPath { SearchPath { rules: Seq::<Rule>::empty(), next: Seq::<SectionPtr>::empty(), remaining: Seq::<int>::empty() } }
// what the code computes, section by section
pub open spec fn m_rules(rs: Seq<Rule>, k: int, p: SearchPath) -> Seq<SearchPath> decreases k when k >= 0 {
    if k <= 0 { Seq::<SearchPath>::empty() }
    else { m_rules(rs, k - 1, p) + (if is_prefix(rs[k - 1].inClass_, p.remaining) { seq![at_rule(rs[k - 1], p)] } else { Seq::<SearchPath>::empty() }) }
}
pub open spec fn tailp(p: SearchPath) -> SearchPath { SearchPath { next: p.next.remove(0), ..p } }
pub open spec fn expand(p: SearchPath, alt: MetaRule) -> SearchPath { SearchPath { next: alt.refs_ + p.next, ..p } }
pub open spec fn m_sec(g: Search, s: SectionPtr, p: SearchPath, l: int) -> Seq<SearchPath>
    decreases g.recursion_limit_ + 1 - l, 2int, 0int, 0int, 0int
{
    if l > g.recursion_limit_ { Seq::<SearchPath>::empty() }
    else if s.mptr_ != -1 { m_alts(g, g.metas_[s.mptr_].rules_, g.metas_[s.mptr_].rules_.len() as int, p, l) }
    else if s.rptr_ != -1 { m_rules(g.rules_[s.rptr_].rules_, g.rules_[s.rptr_].rules_.len() as int, p) }
    else { Seq::<SearchPath>::empty() }
}
pub open spec fn m_alts(g: Search, alts: Seq<MetaRule>, k: int, p: SearchPath, l: int) -> Seq<SearchPath>
    decreases g.recursion_limit_ + 1 - l, 1int, (if k >= 0 { k } else { 0 }), 0int, 0int
{
    if k <= 0 || l > g.recursion_limit_ { Seq::<SearchPath>::empty() }
    else {
        m_alts(g, alts, k - 1, p, l) + (if (alts[k - 1].refs_ + p.next).len() > 0 { m_next(g, expand(p, alts[k - 1]), l) } else { Seq::<SearchPath>::empty() })
    }
}
pub open spec fn m_next(g: Search, p: SearchPath, l: int) -> Seq<SearchPath>
    decreases g.recursion_limit_ + 1 - l, 0int, p.next.len() as int, 1int, 0int
{
    if l > g.recursion_limit_ || p.next.len() == 0 { Seq::<SearchPath>::empty() }
    else {
        let rs = m_sec(g, p.next[0], tailp(p), l + 1);
        m_cont(g, rs, rs.len() as int, l, p.next.len() as int)
    }
}
pub open spec fn m_cont(g: Search, rs: Seq<SearchPath>, k: int, l: int, b: int) -> Seq<SearchPath>
    decreases g.recursion_limit_ + 1 - l, 0int, (if b >= 0 { b } else { 0 }), 0int, (if k >= 0 { k } else { 0 })
{
    if k <= 0 || l > g.recursion_limit_ { Seq::<SearchPath>::empty() }
    else {
        m_cont(g, rs, k - 1, l, b) + (if rs[k - 1].next.len() > 0 {
            if rs[k - 1].next.len() < b { m_next(g, rs[k - 1], l) } else { Seq::<SearchPath>::empty() }
        } else { seq![rs[k - 1]] })
    }
}
pub open spec fn m_many(g: Search, s: SectionPtr, ps: Seq<SearchPath>, k: int, l: int) -> Seq<SearchPath> decreases k when k >= 0 {
    if k <= 0 { Seq::<SearchPath>::empty() } else { m_many(g, s, ps, k - 1, l) + m_sec(g, s, ps[k - 1], l) }
}
pub open spec fn openings(ts: Seq<Token>) -> Seq<SearchPath> { Seq::new(combos(ts).len(), |i: int| SearchPath { remaining: combos(ts)[i], ..no_path() }) }
pub open spec fn done(rs: Seq<SearchPath>, k: int) -> Seq<SearchPath> decreases k when k >= 0 {
    if k <= 0 { Seq::<SearchPath>::empty() } else { done(rs, k - 1) + (if rs[k - 1].remaining.len() == 0 { seq![rs[k - 1]] } else { Seq::<SearchPath>::empty() }) }
}
pub open spec fn find_sec(g: Search, n: Str) -> Option<SectionPtr> {
    let i = g.sectionIndex_[n];
    if !g.sectionIndex_.dom().contains(n) { None }
    else if i < g.metas_.len() && n == g.metas_[i].name_ { Some(SectionPtr { name_: n, mptr_: i, rptr_: -1 }) }
    else if i < g.rules_.len() && n == g.rules_[i].name_ { Some(SectionPtr { name_: n, mptr_: -1, rptr_: i }) }
    else { None }
}
pub open spec fn limited(g: Search, ts: Seq<Token>) -> Search { Search { recursion_limit_: ts.len() as int + 2, ..g } }
pub open spec fn search_of(g: Search, n: Str, ts: Seq<Token>) -> Seq<SearchPath> {
    let all = m_many(limited(g, ts), find_sec(g, n)->0, openings(ts), openings(ts).len() as int, 0);
    done(all, all.len() as int)
}
pub open spec fn flat_in(rs: Seq<Rule>) -> Seq<int> decreases rs.len() { if rs.len() == 0 { Seq::<int>::empty() } else { flat_in(rs.drop_last()) + rs.last().inClass_ } }
pub open spec fn all_next(rs: Seq<SearchPath>, n: Seq<SectionPtr>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).next == n }
pub open spec fn all_used(rs: Seq<SearchPath>) -> bool { forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).next.len() == 0 }
pub proof fn lemma_used_add(a: Seq<SearchPath>, b: Seq<SearchPath>)
    requires all_used(a), all_used(b)
    ensures all_used(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).next.len() == 0 by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lemma_rules_next(rs: Seq<Rule>, k: int, p: SearchPath)
    requires 0 <= k
    ensures all_next(m_rules(rs, k, p), p.next)
    decreases k
{
    if k > 0 {
        lemma_rules_next(rs, k - 1, p);
        let a = m_rules(rs, k - 1, p);
        let b = if is_prefix(rs[k - 1].inClass_, p.remaining) { seq![at_rule(rs[k - 1], p)] } else { Seq::<SearchPath>::empty() };
        assert(m_rules(rs, k, p) == a + b);
        assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).next == p.next by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
    }
}
pub proof fn lemma_sec_next(g: Search, s: SectionPtr, p: SearchPath, l: int)
    ensures
        s.mptr_ != -1 ==> all_used(m_sec(g, s, p, l)),
        s.mptr_ == -1 ==> all_next(m_sec(g, s, p, l), p.next),
    decreases g.recursion_limit_ + 1 - l, 2int, 0int, 0int, 0int
{
    if l <= g.recursion_limit_ {
        if s.mptr_ != -1 { lemma_alts_next(g, g.metas_[s.mptr_].rules_, g.metas_[s.mptr_].rules_.len() as int, p, l); }
        else if s.rptr_ != -1 { lemma_rules_next(g.rules_[s.rptr_].rules_, g.rules_[s.rptr_].rules_.len() as int, p); }
    }
}
pub proof fn lemma_alts_next(g: Search, alts: Seq<MetaRule>, k: int, p: SearchPath, l: int)
    requires 0 <= k
    ensures all_used(m_alts(g, alts, k, p, l))
    decreases g.recursion_limit_ + 1 - l, 1int, k, 0int, 0int
{
    if k > 0 && l <= g.recursion_limit_ {
        lemma_alts_next(g, alts, k - 1, p, l);
        lemma_next_next(g, expand(p, alts[k - 1]), l);
        let b = if (alts[k - 1].refs_ + p.next).len() > 0 { m_next(g, expand(p, alts[k - 1]), l) } else { Seq::<SearchPath>::empty() };
        lemma_used_add(m_alts(g, alts, k - 1, p, l), b);
    }
}
pub proof fn lemma_next_next(g: Search, p: SearchPath, l: int)
    ensures all_used(m_next(g, p, l))
    decreases g.recursion_limit_ + 1 - l, 0int, p.next.len() as int, 1int, 0int
{
    if l <= g.recursion_limit_ && p.next.len() > 0 {
        let rs = m_sec(g, p.next[0], tailp(p), l + 1);
        lemma_cont_next(g, rs, rs.len() as int, l, p.next.len() as int);
    }
}
pub proof fn lemma_cont_next(g: Search, rs: Seq<SearchPath>, k: int, l: int, b: int)
    requires 0 <= k, 0 <= b
    ensures all_used(m_cont(g, rs, k, l, b))
    decreases g.recursion_limit_ + 1 - l, 0int, b, 0int, k
{
    if k > 0 && l <= g.recursion_limit_ {
        lemma_cont_next(g, rs, k - 1, l, b);
        if 0 < rs[k - 1].next.len() < b { lemma_next_next(g, rs[k - 1], l); }
        let c = if rs[k - 1].next.len() > 0 { if rs[k - 1].next.len() < b { m_next(g, rs[k - 1], l) } else { Seq::<SearchPath>::empty() } } else { seq![rs[k - 1]] };
        lemma_used_add(m_cont(g, rs, k - 1, l, b), c);
    }
}
@@end

@@fn Search::matchRule(Rule,SearchPath)
params: this r path
vars: it int; pos int#3; result SearchPath
ensures
    $ret == if is_prefix($r.inClass_, $path.remaining) { at_rule($r, $path) } else { no_path() },
@@loop 1
invariant
    $it == $i,
    forall|k: int| 0 <= k < $i ==> $$r.inClass_[k] == $$path.remaining[k],
@@loop 2
invariant
    $result.rules == $$path.rules.push($$r), $result.next == $$path.next,
    $$r.inClass_.len() <= $it <= $$path.remaining.len(),
    $result.remaining =~= $$path.remaining.subrange($$r.inClass_.len() as int, $it),
@@return
if is_prefix($$r.inClass_, $$path.remaining) { assert($ret =~= at_rule($$r, $$path)); } else { assert($ret =~= no_path()); }
@@end

@@fn Search::match(SectionPtr,SearchPath,int)
params: this s path level
vars: current SearchPath; results Seq<SearchPath>
opt: rlimit 40
requires g_wf($this), ref_ok($this, $s), refs_ok($this, $path.next), 0 <= $level <= $this.recursion_limit_ + 1,
ensures
    $ret == m_sec($this, $s, $path, $level),
decreases $this.recursion_limit_ + 1 - $level, 2int, 0int, 0int, 0int
@@loop 1
invariant
    $results == m_alts($$this, $$this.metas_[$$s.mptr_].rules_, $i, $$path, $$level),
@@loop 2
invariant
    $current.next =~= $$this.metas_[$$s.mptr_].rules_[$i1].refs_ + $$path.next.subrange(0, $i2),
    $current.rules == $$path.rules, $current.remaining == $$path.remaining,
@@afterloop 2
assert($current =~= expand($$path, $$this.metas_[$$s.mptr_].rules_[$i1]));
assert(refs_ok($$this, $$this.metas_[$$s.mptr_].rules_[$i1].refs_));
assert(refs_ok($$this, $current.next)) by {
    assert forall|k: int| 0 <= k < $current.next.len() implies ref_ok($$this, #[trigger] $current.next[k]) by {
        let n = $$this.metas_[$$s.mptr_].rules_[$i1].refs_.len();
        if k < n { assert($current.next[k] == $$this.metas_[$$s.mptr_].rules_[$i1].refs_[k]); } else { assert($current.next[k] == $$path.next[k - n]); }
    }
}
@@loop 3
invariant
    $results =~= m_alts($$this, $$this.metas_[$$s.mptr_].rules_, $i1, $$path, $$level) + $seq3.subrange(0, $i3),
@@beforeinc 1
assert($results =~= m_alts($$this, $$this.metas_[$$s.mptr_].rules_, $i1 + 1, $$path, $$level));
@@loop 4
invariant
    $results == m_rules($$this.rules_[$$s.rptr_].rules_, $i, $$path),
@@beforeinc 4
assert($results =~= m_rules($$this.rules_[$$s.rptr_].rules_, $i4 + 1, $$path));
@@end

@@fn Search::match(SectionPtr,vector<SearchPath>,int)
params: this s paths level
vars: results Seq<SearchPath>
requires g_wf($this), ref_ok($this, $s), forall|k: int| 0 <= k < $paths.len() ==> refs_ok($this, (#[trigger] $paths[k]).next), 0 <= $level <= $this.recursion_limit_ + 1,
ensures
    $ret == m_many($this, $s, $paths, $paths.len() as int, $level),
decreases $this.recursion_limit_ + 1 - $level, 3int, 0int, 0int, 0int
@@loop 1
invariant
    $results == m_many($$this, $$s, $$paths, $i, $$level),
@@loop 2
invariant
    $results =~= m_many($$this, $$s, $$paths, $i1, $$level) + $seq2.subrange(0, $i2),
@@beforeinc 1
assert($results =~= m_many($$this, $$s, $$paths, $i1 + 1, $$level));
@@end

@@fn Search::matchNext(SearchPath,int)
params: this path level
vars: current SearchPath#2; mr Seq<SearchPath>#2; results Seq<SearchPath>
opt: rlimit 40
requires g_wf($this), refs_ok($this, $path.next), 0 <= $level <= $this.recursion_limit_,
ensures
    $ret == m_next($this, $path, $level),
decreases $this.recursion_limit_ + 1 - $level, 0int, $path.next.len() as int, 1int, 0int
@@entry
let ghost nrs = m_sec($$this, $$path.next[0], tailp($$path), $$level + 1);
lemma_sec_next($$this, $$path.next[0], tailp($$path), $$level + 1);
if $$path.next.len() > 0 {
    assert(ref_ok($$this, $$path.next[0]));
    assert(refs_ok($$this, tailp($$path).next)) by {
        assert forall|k: int| 0 <= k < tailp($$path).next.len() implies ref_ok($$this, #[trigger] tailp($$path).next[k]) by { assert(tailp($$path).next[k] == $$path.next[k + 1]); }
    }
}
@@loop 1
invariant
    $mr == nrs,
    $results == m_cont($$this, nrs, $i, $$level, $$path.next.len() as int),
@@loopbody 1
assert(nrs[$i].next.len() < $$path.next.len());
if nrs[$i].next.len() > 0 { assert(nrs[$i].next == tailp($$path).next); }
@@loop 2
invariant
    $results =~= m_cont($$this, nrs, $i1, $$level, $$path.next.len() as int) + $seq2.subrange(0, $i2),
@@beforeinc 1
assert($results =~= m_cont($$this, nrs, $i1 + 1, $$level, $$path.next.len() as int));
@@end

@@fn Search::stringToSectionPtr(string)
params: this str
requires g_wf($this),
ensures
    $throws == (find_sec($this, $str) is None),
    !$throws ==> $ret == find_sec($this, $str)->0 && $this' == $this,
    $throws ==> $msg == #"Search-Rule-Not-Found:" + $str,
@@end

@@fn Search::search(string,vector<Token>)
params: this name phrase
vars: list Seq<Seq<int>>; patterns Seq<SearchPath>; results Seq<SearchPath>#2; matchs Seq<SearchPath>#3
requires g_wf($this), enum_ok($phrase),
ensures
    $throws == (find_sec($this, $name) is None),
    !$throws ==> $ret == search_of($this, $name, $phrase),
    !$throws ==> $this' == limited($this, $phrase),
@@loop 1
invariant
    $patterns.len() == $i,
    forall|k: int| 0 <= k < $i ==> #[trigger] $patterns[k] == (SearchPath { remaining: combos($$phrase)[k], ..no_path() }),
@@beforeinc 1
assert($patterns.last() =~= (SearchPath { remaining: combos($$phrase)[$i], ..no_path() }));
@@afterloop 1
assert($patterns =~= openings($$phrase));
@@loop 2
invariant
    $results == done($seq2, $i),
@@beforeinc 2
assert($results =~= done($seq2, $i + 1));
@@end
@@fn Search::search(vector<Token>)
params: this phrase
requires g_wf($this), enum_ok($phrase),
ensures
    $throws == (find_sec($this, #"ADDRESS") is None),
    !$throws ==> $ret == search_of($this, #"ADDRESS", $phrase),
    !$throws ==> $this' == limited($this, $phrase),
@@end

@@spec C02 C03
// ---- the reference: leftmost derivations, one per list of choices -------------------------
// run: follow one list of choices (which alternative, which rule) from the stack p.next
pub open spec fn run(g: Search, p: SearchPath, t: Seq<int>, b: int) -> Option<SearchPath> decreases t.len() {
    if p.next.len() == 0 { if t.len() == 0 { Some(p) } else { None } }
    else if t.len() == 0 { None }
    else {
        let h = p.next[0]; let a = t[0]; let rest = t.drop_first();
        if h.mptr_ != -1 {
            if b > 0 && 0 <= a < g.metas_[h.mptr_].rules_.len() { run(g, expand(tailp(p), g.metas_[h.mptr_].rules_[a]), rest, b - 1) } else { None }
        } else if h.rptr_ != -1 {
            if 0 <= a < g.rules_[h.rptr_].rules_.len() && is_prefix(g.rules_[h.rptr_].rules_[a].inClass_, p.remaining) {
                run(g, at_rule(g.rules_[h.rptr_].rules_[a], tailp(p)), rest, b)
            } else { None }
        } else { None }
    }
}
// gen: all of them in order, with at most b expansions; tr: the choice lists that produced them
pub open spec fn gen(g: Search, p: SearchPath, b: int) -> Seq<SearchPath>
    decreases (if b >= 0 { b } else { 0 }), p.next.len() as int, 1int, 0int
{
    if p.next.len() == 0 { seq![p] }
    else {
        let h = p.next[0];
        if h.mptr_ != -1 { if b <= 0 { Seq::<SearchPath>::empty() } else { gen_alts(g, g.metas_[h.mptr_].rules_, g.metas_[h.mptr_].rules_.len() as int, tailp(p), b) } }
        else if h.rptr_ != -1 { gen_rules(g, g.rules_[h.rptr_].rules_, g.rules_[h.rptr_].rules_.len() as int, tailp(p), b) }
        else { Seq::<SearchPath>::empty() }
    }
}
pub open spec fn gen_alts(g: Search, alts: Seq<MetaRule>, k: int, p: SearchPath, b: int) -> Seq<SearchPath>
    decreases (if b >= 0 { b } else { 0 }), p.next.len() + 1, 0int, (if k >= 0 { k } else { 0 })
{ if k <= 0 || b <= 0 { Seq::<SearchPath>::empty() } else { gen_alts(g, alts, k - 1, p, b) + gen(g, expand(p, alts[k - 1]), b - 1) } }
pub open spec fn gen_rules(g: Search, rs: Seq<Rule>, k: int, p: SearchPath, b: int) -> Seq<SearchPath>
    decreases (if b >= 0 { b } else { 0 }), p.next.len() + 1, 0int, (if k >= 0 { k } else { 0 })
{
    if k <= 0 { Seq::<SearchPath>::empty() }
    else { gen_rules(g, rs, k - 1, p, b) + (if is_prefix(rs[k - 1].inClass_, p.remaining) { gen(g, at_rule(rs[k - 1], p), b) } else { Seq::<SearchPath>::empty() }) }
}
pub open spec fn pre(a: int, ts: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(ts.len(), |i: int| seq![a] + ts[i]) }
pub open spec fn tr(g: Search, p: SearchPath, b: int) -> Seq<Seq<int>>
    decreases (if b >= 0 { b } else { 0 }), p.next.len() as int, 1int, 0int
{
    if p.next.len() == 0 { seq![Seq::<int>::empty()] }
    else {
        let h = p.next[0];
        if h.mptr_ != -1 { if b <= 0 { Seq::<Seq<int>>::empty() } else { tr_alts(g, g.metas_[h.mptr_].rules_, g.metas_[h.mptr_].rules_.len() as int, tailp(p), b) } }
        else if h.rptr_ != -1 { tr_rules(g, g.rules_[h.rptr_].rules_, g.rules_[h.rptr_].rules_.len() as int, tailp(p), b) }
        else { Seq::<Seq<int>>::empty() }
    }
}
pub open spec fn tr_alts(g: Search, alts: Seq<MetaRule>, k: int, p: SearchPath, b: int) -> Seq<Seq<int>>
    decreases (if b >= 0 { b } else { 0 }), p.next.len() + 1, 0int, (if k >= 0 { k } else { 0 })
{ if k <= 0 || b <= 0 { Seq::<Seq<int>>::empty() } else { tr_alts(g, alts, k - 1, p, b) + pre(k - 1, tr(g, expand(p, alts[k - 1]), b - 1)) } }
pub open spec fn tr_rules(g: Search, rs: Seq<Rule>, k: int, p: SearchPath, b: int) -> Seq<Seq<int>>
    decreases (if b >= 0 { b } else { 0 }), p.next.len() + 1, 0int, (if k >= 0 { k } else { 0 })
{
    if k <= 0 { Seq::<Seq<int>>::empty() }
    else { tr_rules(g, rs, k - 1, p, b) + (if is_prefix(rs[k - 1].inClass_, p.remaining) { pre(k - 1, tr(g, at_rule(rs[k - 1], p), b)) } else { Seq::<Seq<int>>::empty() }) }
}
pub open spec fn distinct(ts: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < ts.len() && 0 <= j < ts.len() && (#[trigger] ts[i]) == (#[trigger] ts[j]) ==> i == j }
pub open spec fn heads_below(ts: Seq<Seq<int>>, k: int) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).len() > 0 && 0 <= ts[i][0] < k }
pub open spec fn runs_to(g: Search, p: SearchPath, ts: Seq<Seq<int>>, rs: Seq<SearchPath>, b: int) -> bool {
    ts.len() == rs.len() && forall|i: int| 0 <= i < ts.len() ==> run(g, p, #[trigger] ts[i], b) == Some(rs[i])
}
pub proof fn lemma_pre(a: int, ts: Seq<Seq<int>>)
    requires distinct(ts)
    ensures distinct(pre(a, ts))
{
    assert forall|i: int, j: int| 0 <= i < ts.len() && 0 <= j < ts.len() && (#[trigger] pre(a, ts)[i]) == (#[trigger] pre(a, ts)[j]) implies i == j by {
        assert(ts[i] =~= pre(a, ts)[i].drop_first()); assert(ts[j] =~= pre(a, ts)[j].drop_first());
    }
}
pub proof fn lemma_add_block(a: Seq<Seq<int>>, k: int, ts: Seq<Seq<int>>)
    requires distinct(a), heads_below(a, k), distinct(ts), k >= 0
    ensures distinct(a + pre(k, ts)), heads_below(a + pre(k, ts), k + 1)
{
    let c = pre(k, ts); let s = a + c;
    lemma_pre(k, ts);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() > 0 && 0 <= s[i][0] < k + 1 by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == c[i - a.len()]); } }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]) == (#[trigger] s[j]) implies i == j by {
        if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == c[i - a.len()]); assert(s[i][0] == k); }
        if j < a.len() { assert(s[j] == a[j]); } else { assert(s[j] == c[j - a.len()]); assert(s[j][0] == k); }
    }
}
// every listed result is what its choice list produces; no choice list is listed twice
pub proof fn lemma_gen_sound(g: Search, p: SearchPath, b: int)
    ensures runs_to(g, p, tr(g, p, b), gen(g, p, b), b), distinct(tr(g, p, b))
    decreases (if b >= 0 { b } else { 0 }), p.next.len() as int, 1int, 0int
{
    let ts = tr(g, p, b); let rs = gen(g, p, b);
    if p.next.len() == 0 { assert(ts[0].len() == 0); assert(run(g, p, ts[0], b) == Some(p)); }
    else {
        let h = p.next[0];
        if h.mptr_ != -1 {
            if b > 0 {
                let alts = g.metas_[h.mptr_].rules_;
                lemma_alts_sound(g, alts, alts.len() as int, tailp(p), b);
                assert forall|i: int| 0 <= i < ts.len() implies run(g, p, #[trigger] ts[i], b) == Some(rs[i]) by { }
            }
        } else if h.rptr_ != -1 {
            let rr = g.rules_[h.rptr_].rules_;
            lemma_rules_sound(g, rr, rr.len() as int, tailp(p), b);
            assert forall|i: int| 0 <= i < ts.len() implies run(g, p, #[trigger] ts[i], b) == Some(rs[i]) by { }
        }
    }
}
pub proof fn lemma_alts_sound(g: Search, alts: Seq<MetaRule>, k: int, p: SearchPath, b: int)
    requires 0 <= k <= alts.len(), b > 0
    ensures
        distinct(tr_alts(g, alts, k, p, b)), heads_below(tr_alts(g, alts, k, p, b), k), tr_alts(g, alts, k, p, b).len() == gen_alts(g, alts, k, p, b).len(),
        forall|i: int| 0 <= i < tr_alts(g, alts, k, p, b).len() ==>
            run(g, expand(p, alts[tr_alts(g, alts, k, p, b)[i][0]]), (#[trigger] tr_alts(g, alts, k, p, b)[i]).drop_first(), b - 1) == Some(gen_alts(g, alts, k, p, b)[i]),
    decreases b, p.next.len() + 1, 0int, k
{
    if k > 0 {
        lemma_alts_sound(g, alts, k - 1, p, b);
        let q = expand(p, alts[k - 1]);
        lemma_gen_sound(g, q, b - 1);
        let a = tr_alts(g, alts, k - 1, p, b); let c = pre(k - 1, tr(g, q, b - 1));
        let x = gen_alts(g, alts, k - 1, p, b); let y = gen(g, q, b - 1);
        lemma_add_block(a, k - 1, tr(g, q, b - 1));
        assert forall|i: int| 0 <= i < (a + c).len() implies run(g, expand(p, alts[(a + c)[i][0]]), (#[trigger] (a + c)[i]).drop_first(), b - 1) == Some((x + y)[i]) by {
            if i < a.len() { assert((a + c)[i] == a[i]); assert((x + y)[i] == x[i]); }
            else { let j = i - a.len(); assert((a + c)[i] == c[j]); assert(c[j].drop_first() =~= tr(g, q, b - 1)[j]); assert((x + y)[i] == y[j]); }
        }
    }
}
pub proof fn lemma_rules_sound(g: Search, rr: Seq<Rule>, k: int, p: SearchPath, b: int)
    requires 0 <= k <= rr.len()
    ensures
        distinct(tr_rules(g, rr, k, p, b)), heads_below(tr_rules(g, rr, k, p, b), k), tr_rules(g, rr, k, p, b).len() == gen_rules(g, rr, k, p, b).len(),
        forall|i: int| 0 <= i < tr_rules(g, rr, k, p, b).len() ==>
            is_prefix(rr[tr_rules(g, rr, k, p, b)[i][0]].inClass_, p.remaining) &&
            run(g, at_rule(rr[tr_rules(g, rr, k, p, b)[i][0]], p), (#[trigger] tr_rules(g, rr, k, p, b)[i]).drop_first(), b) == Some(gen_rules(g, rr, k, p, b)[i]),
    decreases (if b >= 0 { b } else { 0 }), p.next.len() + 1, 0int, k
{
    if k > 0 {
        lemma_rules_sound(g, rr, k - 1, p, b);
        let a = tr_rules(g, rr, k - 1, p, b); let x = gen_rules(g, rr, k - 1, p, b);
        if is_prefix(rr[k - 1].inClass_, p.remaining) {
            let q = at_rule(rr[k - 1], p);
            lemma_gen_sound(g, q, b);
            let c = pre(k - 1, tr(g, q, b)); let y = gen(g, q, b);
            lemma_add_block(a, k - 1, tr(g, q, b));
            assert forall|i: int| 0 <= i < (a + c).len() implies
                is_prefix(rr[(a + c)[i][0]].inClass_, p.remaining) && run(g, at_rule(rr[(a + c)[i][0]], p), (#[trigger] (a + c)[i]).drop_first(), b) == Some((x + y)[i]) by {
                if i < a.len() { assert((a + c)[i] == a[i]); assert((x + y)[i] == x[i]); }
                else { let j = i - a.len(); assert((a + c)[i] == c[j]); assert(c[j].drop_first() =~= tr(g, q, b)[j]); assert((x + y)[i] == y[j]); }
            }
        } else { assert(tr_rules(g, rr, k, p, b) =~= a); assert(gen_rules(g, rr, k, p, b) =~= x); }
    }
}
// every choice list that runs to the end is listed
pub proof fn lemma_gen_complete(g: Search, p: SearchPath, b: int, t: Seq<int>)
    requires run(g, p, t, b) is Some
    ensures tr(g, p, b).contains(t)
    decreases t.len(), 1int, 0int
{
    if p.next.len() == 0 { assert(t =~= Seq::<int>::empty()); assert(tr(g, p, b)[0] == t); }
    else {
        let h = p.next[0]; let a = t[0]; let rest = t.drop_first();
        assert(t =~= seq![a] + rest);
        if h.mptr_ != -1 {
            let alts = g.metas_[h.mptr_].rules_;
            lemma_gen_complete(g, expand(tailp(p), alts[a]), b - 1, rest);
            lemma_alts_contains(g, alts, alts.len() as int, tailp(p), b, a, rest);
        } else {
            let rr = g.rules_[h.rptr_].rules_;
            lemma_gen_complete(g, at_rule(rr[a], tailp(p)), b, rest);
            lemma_rules_contains(g, rr, rr.len() as int, tailp(p), b, a, rest);
        }
    }
}
pub proof fn lemma_alts_contains(g: Search, alts: Seq<MetaRule>, k: int, p: SearchPath, b: int, a: int, rest: Seq<int>)
    requires 0 <= a < k <= alts.len(), b > 0, tr(g, expand(p, alts[a]), b - 1).contains(rest)
    ensures tr_alts(g, alts, k, p, b).contains(seq![a] + rest)
    decreases k
{
    let x = tr_alts(g, alts, k - 1, p, b); let c = pre(k - 1, tr(g, expand(p, alts[k - 1]), b - 1));
    if a == k - 1 {
        let j = choose|j: int| 0 <= j < tr(g, expand(p, alts[a]), b - 1).len() && #[trigger] tr(g, expand(p, alts[a]), b - 1)[j] == rest;
        assert((x + c)[x.len() + j] == seq![a] + rest);
    } else {
        lemma_alts_contains(g, alts, k - 1, p, b, a, rest);
        let j = choose|j: int| 0 <= j < x.len() && x[j] == seq![a] + rest;
        assert((x + c)[j] == seq![a] + rest);
    }
}
pub proof fn lemma_rules_contains(g: Search, rr: Seq<Rule>, k: int, p: SearchPath, b: int, a: int, rest: Seq<int>)
    requires 0 <= a < k <= rr.len(), is_prefix(rr[a].inClass_, p.remaining), tr(g, at_rule(rr[a], p), b).contains(rest)
    ensures tr_rules(g, rr, k, p, b).contains(seq![a] + rest)
    decreases k
{
    let x = tr_rules(g, rr, k - 1, p, b);
    if a == k - 1 {
        let c = pre(k - 1, tr(g, at_rule(rr[k - 1], p), b));
        let j = choose|j: int| 0 <= j < tr(g, at_rule(rr[a], p), b).len() && #[trigger] tr(g, at_rule(rr[a], p), b)[j] == rest;
        assert((x + c)[x.len() + j] == seq![a] + rest);
    } else {
        lemma_rules_contains(g, rr, k - 1, p, b, a, rest);
        let j = choose|j: int| 0 <= j < x.len() && x[j] == seq![a] + rest;
        assert(tr_rules(g, rr, k, p, b)[j] == seq![a] + rest);
    }
}
// ---- the search computes exactly that list ----------------------------------------------
pub open spec fn g_full(g: Search) -> bool { forall|i: int, j: int| 0 <= i < g.metas_.len() && 0 <= j < g.metas_[i].rules_.len() ==> (#[trigger] g.metas_[i].rules_[j]).refs_.len() > 0 }
pub proof fn lemma_cont_id(g: Search, rs: Seq<SearchPath>, k: int, l: int, b: int)
    requires all_used(rs), 0 <= k <= rs.len(), l <= g.recursion_limit_
    ensures m_cont(g, rs, k, l, b) == rs.subrange(0, k)
    decreases k
{ if k > 0 { lemma_cont_id(g, rs, k - 1, l, b); assert(rs[k - 1].next.len() == 0); } assert(m_cont(g, rs, k, l, b) =~= rs.subrange(0, k)); }
pub proof fn lemma_cont_prefix(g: Search, rs: Seq<SearchPath>, qs: Seq<SearchPath>, k: int, l: int, b: int)
    requires 0 <= k <= rs.len(), k <= qs.len(), forall|i: int| 0 <= i < k ==> rs[i] == qs[i], l <= g.recursion_limit_
    ensures m_cont(g, rs, k, l, b) == m_cont(g, qs, k, l, b)
    decreases k
{ if k > 0 { lemma_cont_prefix(g, rs, qs, k - 1, l, b); } }
pub proof fn lemma_next_is_gen(g: Search, p: SearchPath, l: int)
    requires g_wf(g), g_full(g), refs_ok(g, p.next), p.next.len() > 0, 0 <= l < g.recursion_limit_
    ensures m_next(g, p, l) == gen(g, p, g.recursion_limit_ - l - 1)
    decreases g.recursion_limit_ - l, 0int, p.next.len() as int, 1int, 0int
{
    let h = p.next[0]; let t = tailp(p); let b = g.recursion_limit_ - l - 1; let n = p.next.len() as int;
    assert(ref_ok(g, h));
    assert(refs_ok(g, t.next)) by { assert forall|k: int| 0 <= k < t.next.len() implies ref_ok(g, #[trigger] t.next[k]) by { assert(t.next[k] == p.next[k + 1]); } }
    let rs = m_sec(g, h, t, l + 1);
    lemma_sec_next(g, h, t, l + 1);
    if h.mptr_ != -1 {
        let alts = g.metas_[h.mptr_].rules_;
        lemma_alts_is_gen(g, h.mptr_, alts.len() as int, t, l + 1);
        lemma_cont_id(g, rs, rs.len() as int, l, n);
        assert(rs.subrange(0, rs.len() as int) =~= rs);
    } else if h.rptr_ != -1 {
        let rr = g.rules_[h.rptr_].rules_;
        lemma_rules_is_gen(g, rr, rr.len() as int, t, l, n);
    } else { assert(m_next(g, p, l) =~= Seq::<SearchPath>::empty()); }
}
pub proof fn lemma_alts_is_gen(g: Search, m: int, k: int, p: SearchPath, l: int)
    requires g_wf(g), g_full(g), refs_ok(g, p.next), 0 <= m < g.metas_.len(), 0 <= k <= g.metas_[m].rules_.len(), 0 <= l <= g.recursion_limit_
    ensures m_alts(g, g.metas_[m].rules_, k, p, l) == (if l < g.recursion_limit_ { gen_alts(g, g.metas_[m].rules_, k, p, g.recursion_limit_ - l) } else { Seq::<SearchPath>::empty() })
    decreases g.recursion_limit_ - l, 1int, k, 0int, 0int
{
    let alts = g.metas_[m].rules_;
    if k > 0 {
        lemma_alts_is_gen(g, m, k - 1, p, l);
        let a = g.metas_[m].rules_[k - 1];
        let q = expand(p, a);
        assert(refs_ok(g, a.refs_));
        assert(q.next.len() > 0);
        assert(refs_ok(g, q.next)) by {
            assert forall|i: int| 0 <= i < q.next.len() implies ref_ok(g, #[trigger] q.next[i]) by { if i < a.refs_.len() { assert(q.next[i] == a.refs_[i]); } else { assert(q.next[i] == p.next[i - a.refs_.len()]); } }
        }
        if l < g.recursion_limit_ { lemma_next_is_gen(g, q, l); }
        else {
            assert(m_sec(g, q.next[0], tailp(q), l + 1).len() == 0);
            assert(m_next(g, q, l) =~= Seq::<SearchPath>::empty());
            assert(m_alts(g, alts, k, p, l) =~= Seq::<SearchPath>::empty());
        }
    }
}
pub proof fn lemma_rules_is_gen(g: Search, rr: Seq<Rule>, k: int, p: SearchPath, l: int, n: int)
    requires g_wf(g), g_full(g), refs_ok(g, p.next), 0 <= k <= rr.len(), 0 <= l < g.recursion_limit_, n == p.next.len() + 1
    ensures m_cont(g, m_rules(rr, k, p), m_rules(rr, k, p).len() as int, l, n) == gen_rules(g, rr, k, p, g.recursion_limit_ - l - 1)
    decreases g.recursion_limit_ - l, 0int, p.next.len() + 1, 0int, k
{
    if k > 0 {
        lemma_rules_is_gen(g, rr, k - 1, p, l, n);
        let a = m_rules(rr, k - 1, p); let b = g.recursion_limit_ - l - 1;
        if is_prefix(rr[k - 1].inClass_, p.remaining) {
            let x = at_rule(rr[k - 1], p);
            let c = m_rules(rr, k, p);
            assert(c =~= a.push(x));
            lemma_cont_prefix(g, a, c, a.len() as int, l, n);
            if x.next.len() > 0 { lemma_next_is_gen(g, x, l); }
            assert(c[c.len() - 1] == x);
            let f = gen(g, x, b);
            assert(m_cont(g, c, c.len() as int, l, n) == m_cont(g, a, a.len() as int, l, n) + f);
            assert(gen_rules(g, rr, k, p, b) == gen_rules(g, rr, k - 1, p, b) + f);
        } else {
            assert(m_rules(rr, k, p) =~= a);
            assert(gen_rules(g, rr, k, p, b) =~= gen_rules(g, rr, k - 1, p, b));
        }
    }
}
pub open spec fn entry(s: SectionPtr, c: Seq<int>) -> SearchPath { SearchPath { rules: Seq::<Rule>::empty(), next: seq![s], remaining: c } }
pub proof fn lemma_start_is_gen(g: Search, s: SectionPtr, c: Seq<int>)
    requires g_wf(g), g_full(g), ref_ok(g, s), g.recursion_limit_ >= 2
    ensures m_sec(g, s, SearchPath { remaining: c, ..no_path() }, 0) == gen(g, entry(s, c), g.recursion_limit_)
{
    let p = SearchPath { remaining: c, ..no_path() };
    assert(tailp(entry(s, c)) =~= p);
    if s.mptr_ != -1 { lemma_alts_is_gen(g, s.mptr_, g.metas_[s.mptr_].rules_.len() as int, p, 0); }
    else if s.rptr_ != -1 {
        let rr = g.rules_[s.rptr_].rules_;
        lemma_one_rule(g, rr, rr.len() as int, p, g.recursion_limit_);
    }
}
pub proof fn lemma_one_rule(g: Search, rr: Seq<Rule>, k: int, p: SearchPath, b: int)
    requires p.next.len() == 0, 0 <= k <= rr.len()
    ensures m_rules(rr, k, p) == gen_rules(g, rr, k, p, b)
    decreases k
{
    if k > 0 {
        lemma_one_rule(g, rr, k - 1, p, b);
        if is_prefix(rr[k - 1].inClass_, p.remaining) { let x = at_rule(rr[k - 1], p); assert(gen(g, x, b) == seq![x]); assert(gen_rules(g, rr, k, p, b) == gen_rules(g, rr, k - 1, p, b) + seq![x]); }
    }
}
pub proof fn lemma_run_consumes(g: Search, p: SearchPath, t: Seq<int>, b: int)
    requires run(g, p, t, b) is Some
    ensures flat_in(run(g, p, t, b)->0.rules) + run(g, p, t, b)->0.remaining == flat_in(p.rules) + p.remaining
    decreases t.len()
{
    if p.next.len() > 0 {
        let h = p.next[0]; let a = t[0]; let rest = t.drop_first();
        if h.mptr_ != -1 { lemma_run_consumes(g, expand(tailp(p), g.metas_[h.mptr_].rules_[a]), rest, b - 1); }
        else {
            let r = g.rules_[h.rptr_].rules_[a];
            let q = at_rule(r, tailp(p));
            lemma_run_consumes(g, q, rest, b);
            assert(q.rules.drop_last() =~= p.rules);
            assert(r.inClass_ + q.remaining =~= p.remaining);
            assert(flat_in(q.rules) + q.remaining =~= flat_in(p.rules) + p.remaining);
        }
    }
}
pub proof fn lemma_done(rs: Seq<SearchPath>, k: int, r: SearchPath)
    requires 0 <= k <= rs.len()
    ensures done(rs, k).contains(r) <==> exists|i: int| 0 <= i < k && #[trigger] rs[i] == r && r.remaining.len() == 0
    decreases k
{
    if k > 0 {
        lemma_done(rs, k - 1, r);
        let a = done(rs, k - 1);
        if rs[k - 1].remaining.len() == 0 {
            assert(done(rs, k) =~= a.push(rs[k - 1]));
            assert(a.push(rs[k - 1])[a.len() as int] == rs[k - 1]);
            if a.contains(r) { let i = choose|i: int| 0 <= i < a.len() && a[i] == r; assert(a.push(rs[k - 1])[i] == r); }
        } else { assert(done(rs, k) =~= a); }
    }
}
pub proof fn lemma_many(g: Search, s: SectionPtr, ps: Seq<SearchPath>, k: int, r: SearchPath)
    requires 0 <= k <= ps.len()
    ensures m_many(g, s, ps, k, 0).contains(r) <==> exists|i: int| 0 <= i < k && (#[trigger] m_sec(g, s, ps[i], 0)).contains(r)
    decreases k
{
    if k > 0 {
        lemma_many(g, s, ps, k - 1, r);
        let a = m_many(g, s, ps, k - 1, 0); let c = m_sec(g, s, ps[k - 1], 0);
        if a.contains(r) { let i = choose|i: int| 0 <= i < a.len() && a[i] == r; assert((a + c)[i] == r); }
        if c.contains(r) { let i = choose|i: int| 0 <= i < c.len() && c[i] == r; assert((a + c)[a.len() + i] == r); }
        if (a + c).contains(r) {
            let i = choose|i: int| 0 <= i < (a + c).len() && (a + c)[i] == r;
            if i < a.len() { assert(a[i] == r); } else { assert(c[i - a.len()] == r); }
        }
    }
}
@@end

@@spec C02
// ---- C02: every result of a search is a derivation of the input --------------------------
pub proof fn C02_results_are_derivations(g: Search, n: Str, ts: Seq<Token>, r: SearchPath) -> (res: (int, Seq<int>))
    requires g_wf(g), g_full(g), find_sec(g, n) is Some, enum_ok(ts), search_of(g, n, ts).contains(r)
    ensures
        0 <= res.0 < combos(ts).len(),
        run(limited(g, ts), entry(find_sec(g, n)->0, combos(ts)[res.0]), res.1, ts.len() as int + 2) == Some(r),
        r.remaining.len() == 0,
        flat_in(r.rules) == combos(ts)[res.0],
{
    let s = find_sec(g, n)->0; let gg = limited(g, ts); let st = openings(ts);
    let all = m_many(gg, s, st, st.len() as int, 0);
    lemma_done(all, all.len() as int, r);
    let i = choose|i: int| 0 <= i < all.len() && #[trigger] all[i] == r && r.remaining.len() == 0;
    assert(all.contains(r));
    lemma_many(gg, s, st, st.len() as int, r);
    let c = choose|c: int| 0 <= c < st.len() && (#[trigger] m_sec(gg, s, st[c], 0)).contains(r);
    lemma_limited(g, ts);
    assert(ref_ok(gg, s));
    lemma_start_is_gen(gg, s, combos(ts)[c]);
    let e = entry(s, combos(ts)[c]);
    lemma_gen_sound(gg, e, gg.recursion_limit_);
    let j = choose|j: int| 0 <= j < gen(gg, e, gg.recursion_limit_).len() && #[trigger] gen(gg, e, gg.recursion_limit_)[j] == r;
    let t = tr(gg, e, gg.recursion_limit_)[j];
    lemma_run_consumes(gg, e, t, gg.recursion_limit_);
    assert(flat_in(r.rules) + r.remaining =~= flat_in(r.rules));
    assert(flat_in(e.rules) + e.remaining =~= e.remaining);
    (c, t)
}
pub proof fn lemma_limited(g: Search, ts: Seq<Token>)
    requires g_wf(g), g_full(g)
    ensures g_wf(limited(g, ts)), g_full(limited(g, ts))
{ let gg = limited(g, ts); assert(gg.metas_ == g.metas_ && gg.rules_ == g.rules_ && gg.sectionIndex_ == g.sectionIndex_);
  assert forall|i: int, j: int| 0 <= i < gg.metas_.len() && 0 <= j < gg.metas_[i].rules_.len() implies refs_ok(gg, (#[trigger] gg.metas_[i].rules_[j]).refs_) by {
    assert(refs_ok(g, g.metas_[i].rules_[j].refs_));
    assert forall|k: int| 0 <= k < gg.metas_[i].rules_[j].refs_.len() implies ref_ok(gg, #[trigger] gg.metas_[i].rules_[j].refs_[k]) by { assert(ref_ok(g, g.metas_[i].rules_[j].refs_[k])); }
  }
}
@@end

@@spec C03
// ---- C03: every derivation with at most n + 2 expansions is found, once --------------------
pub proof fn C03_every_short_derivation_is_found(g: Search, n: Str, ts: Seq<Token>, c: int, t: Seq<int>, r: SearchPath)
    requires
        g_wf(g), g_full(g), find_sec(g, n) is Some, 0 <= c < combos(ts).len(),
        run(limited(g, ts), entry(find_sec(g, n)->0, combos(ts)[c]), t, ts.len() as int + 2) == Some(r), r.remaining.len() == 0,
    ensures search_of(g, n, ts).contains(r)
{
    let s = find_sec(g, n)->0; let gg = limited(g, ts); let st = openings(ts);
    let e = entry(s, combos(ts)[c]); let b = gg.recursion_limit_;
    assert forall|i: int, j: int| 0 <= i < gg.metas_.len() && 0 <= j < gg.metas_[i].rules_.len() implies refs_ok(gg, (#[trigger] gg.metas_[i].rules_[j]).refs_) by {
        assert(refs_ok(g, g.metas_[i].rules_[j].refs_));
        assert forall|k: int| 0 <= k < gg.metas_[i].rules_[j].refs_.len() implies ref_ok(gg, #[trigger] gg.metas_[i].rules_[j].refs_[k]) by { assert(ref_ok(g, g.metas_[i].rules_[j].refs_[k])); }
    }
    lemma_start_is_gen(gg, s, combos(ts)[c]);
    lemma_gen_complete(gg, e, b, t);
    lemma_gen_sound(gg, e, b);
    let j = choose|j: int| 0 <= j < tr(gg, e, b).len() && #[trigger] tr(gg, e, b)[j] == t;
    assert(gen(gg, e, b)[j] == r);
    assert(st[c] == (SearchPath { remaining: combos(ts)[c], ..no_path() }));
    assert(m_sec(gg, s, st[c], 0).contains(r));
    lemma_many(gg, s, st, st.len() as int, r);
    let all = m_many(gg, s, st, st.len() as int, 0);
    assert(all.contains(r));
    let i = choose|i: int| 0 <= i < all.len() && all[i] == r;
    lemma_done(all, all.len() as int, r);
}
// the results for one combination correspond one to one to the choice lists, in order
pub proof fn C03_each_derivation_once(g: Search, s: SectionPtr, c: Seq<int>)
    requires g_wf(g), g_full(g), ref_ok(g, s), g.recursion_limit_ >= 2
    ensures
        runs_to(g, entry(s, c), tr(g, entry(s, c), g.recursion_limit_), m_sec(g, s, SearchPath { remaining: c, ..no_path() }, 0), g.recursion_limit_),
        distinct(tr(g, entry(s, c), g.recursion_limit_)),
{
    lemma_start_is_gen(g, s, c);
    lemma_gen_sound(g, entry(s, c), g.recursion_limit_);
}
@@end
