@@uses ruleread md5
@@spec
// ---- lines of a text -------------------------------------------------------------------------
pub open spec fn lines_of(s: Str) -> Seq<Str> decreases s.len() via lines_shrink {
    if s.len() == 0 { Seq::<Str>::empty() }
    else {
        let k = upto(s, 10, 0);
        if k < s.len() { seq![s.subrange(0, k)] + lines_of(s.subrange(k + 1, s.len() as int)) } else { seq![s] }
    }
}
#[via_fn]
proof fn lines_shrink(s: Str) { lemma_upto(s, 10, 0); }
pub open spec fn lines_left(st: Stream) -> Seq<Str> { if st.fail || st.eof { Seq::<Str>::empty() } else { lines_of(st.rest) } }
pub open spec fn tail_of(ls: Seq<Str>) -> Seq<Str> { ls.subrange(1, ls.len() as int) }
pub proof fn lemma_line(st: Stream, old: Str)
    ensures ({
        let n = line_read(st, old, 10);
        if lines_left(st).len() == 0 { n.0.fail } else { !n.0.fail && n.1 == lines_left(st)[0] && lines_left(n.0) == tail_of(lines_left(st)) }
    })
{
    if !st.fail && !st.eof && st.rest.len() > 0 {
        let s = st.rest; let k = upto(s, 10, 0);
        lemma_upto(s, 10, 0);
        if k < s.len() { assert(tail_of(lines_of(s)) =~= lines_of(s.subrange(k + 1, s.len() as int))); }
        else { assert(tail_of(lines_of(s)) =~= Seq::<Str>::empty()); }
    }
}
pub open spec fn unmarked(l: Str) -> Str { if l.len() >= 3 && l[0] == 0 - 17 && l[1] == 0 - 69 && l[2] == 0 - 65 { l.subrange(3, l.len() as int) } else { l } }
pub open spec fn first_unmarked(ls: Seq<Str>) -> Seq<Str> { if ls.len() == 0 { ls } else { seq![unmarked(ls[0])] + tail_of(ls) } }
// ---- kinds of lines, as the expressions of the reader tell them apart ---------------------------
pub uninterp spec fn skip_line(l: Str) -> bool;
pub uninterp spec fn head_line(l: Str) -> bool;
pub uninterp spec fn head_name(l: Str) -> Str;
pub uninterp spec fn ref_line(l: Str) -> bool;
pub uninterp spec fn next_ref(s: Str) -> Option<(int, int)>;
pub axiom fn axiom_lines(l: Str)
    ensures
        re_match(re_make(#"^\\s*#.*|^\\s*$", false), l) <==> skip_line(l),
        re_match(re_make(#"^\\s*\\[(.+)\\]\\s*$", false), l) <==> head_line(l),
        head_line(l) ==> ({ let g = re_match_groups(re_make(#"^\\s*\\[(.+)\\]\\s*$", false), l); g.len() == 2 && 0 <= g[1].0 < g[1].1 <= l.len() && head_name(l) == l.subrange(g[1].0, g[1].1) }),
        re_match(re_make(#"^(?:\\s*@(?:[\\w_])+)+\\s*$", false), l) <==> ref_line(l);
pub axiom fn axiom_ref(s: Str)
    ensures
        re_search(re_make(#"@([\\w_]+)", false), s) <==> next_ref(s) is Some,
        next_ref(s) is Some ==> ({ let g = re_search_groups(re_make(#"@([\\w_]+)", false), s); let r = next_ref(s)->0; g.len() == 2 && g[1] == r && g[0] == (r.0 - 1, r.1) && 1 <= r.0 < r.1 <= s.len() });
// ---- references of a line ----------------------------------------------------------------------
pub open spec fn from(s: Str, i: int) -> Str { s.subrange(i, s.len() as int) }
pub open spec fn ref_names(s: Str, i: int) -> Seq<Str> decreases s.len() - i when 0 <= i <= s.len() via refs_shrink {
    match next_ref(from(s, i)) { None => Seq::<Str>::empty(), Some(r) => seq![s.subrange(i + r.0, i + r.1)] + ref_names(s, i + r.1) }
}
#[via_fn]
proof fn refs_shrink(s: Str, i: int) { axiom_ref(from(s, i)); }
pub open spec fn fresh(n: Str) -> SectionPtr { SectionPtr { name_: n, mptr_: -1, rptr_: -1 } }
pub open spec fn fresh_all(ns: Seq<Str>) -> Seq<SectionPtr> { Seq::new(ns.len(), |k: int| fresh(ns[k])) }
pub open spec fn refs_of(l: Str) -> MetaRule { MetaRule { refs_: fresh_all(ref_names(l, 0)) } }
@@end
@@fn MetaRule::MetaRule(string)
params: line
vars: start int; end int#2; re_meta Regex; what SMatch
ensures $ret == refs_of($line),
@@entry
axiom_ref(from($$line, 0));
@@loop 1
invariant
    0 <= $start <= $$line.len(), $line == $$line, $end == $$line.len(),
    next_ref(from($$line, $start)) is Some ==> $what.groups == shift_groups(re_search_groups($re_meta, from($$line, $start)), $start),
    $this.refs_ + fresh_all(ref_names($$line, $start)) =~= fresh_all(ref_names($$line, 0)),
    $re_meta == re_make(#"@([\\w_]+)", false),
    re_search($re_meta, from($$line, $start)) <==> next_ref(from($$line, $start)) is Some,
decreases $$line.len() - $start
@@loopbody 1
let ghost s0 = $start;
let ghost r0 = next_ref(from($$line, $start))->0;
axiom_ref(from($$line, $start));
axiom_ref(from($$line, $start + r0.1));
@@end
@@spec
// ---- sections: their positions by name ----------------------------------------------------------
pub open spec fn is_meta(g: Grammar, n: Str, i: int) -> bool { 0 <= i < g.metas_.len() && g.metas_[i].name_ == n }
pub open spec fn is_rules(g: Grammar, n: Str, i: int) -> bool { 0 <= i < g.rules_.len() && g.rules_[i].name_ == n }
pub open spec fn indexed(g: Grammar) -> bool {
    &&& forall|i: int| 0 <= i < g.metas_.len() ==> g.sectionIndex_.dom().contains(#[trigger] g.metas_[i].name_) && g.sectionIndex_[g.metas_[i].name_] == i
    &&& forall|i: int| 0 <= i < g.rules_.len() ==> g.sectionIndex_.dom().contains(#[trigger] g.rules_[i].name_) && g.sectionIndex_[g.rules_[i].name_] == i
    &&& forall|s: Str| #[trigger] g.sectionIndex_.dom().contains(s) ==> is_meta(g, s, g.sectionIndex_[s]) || is_rules(g, s, g.sectionIndex_[s])
    &&& forall|i: int, j: int| 0 <= i < g.metas_.len() && 0 <= j < g.rules_.len() ==> #[trigger] g.metas_[i].name_ != #[trigger] g.rules_[j].name_
}
pub open spec fn fresh_refs(s: Seq<SectionPtr>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == fresh(s[k].name_) }
pub open spec fn fresh_rules(s: Seq<MetaRule>) -> bool { forall|j: int| 0 <= j < s.len() ==> fresh_refs((#[trigger] s[j]).refs_) }
pub open spec fn unlinked(g: Grammar) -> bool { forall|i: int| 0 <= i < g.metas_.len() ==> fresh_rules((#[trigger] g.metas_[i]).rules_) }
// the section a name stands for
pub open spec fn link(g: Grammar, n: Str) -> SectionPtr {
    if !g.sectionIndex_.dom().contains(n) { fresh(n) }
    else if is_meta(g, n, g.sectionIndex_[n]) { SectionPtr { name_: n, mptr_: g.sectionIndex_[n], rptr_: -1 } }
    else { SectionPtr { name_: n, mptr_: -1, rptr_: g.sectionIndex_[n] } }
}
pub open spec fn link_refs(g: Grammar, s: Seq<SectionPtr>, n: int) -> Seq<SectionPtr> { Seq::new(s.len(), |k: int| if k < n { link(g, s[k].name_) } else { s[k] }) }
pub open spec fn link_rule(g: Grammar, r: MetaRule) -> MetaRule { MetaRule { refs_: link_refs(g, r.refs_, r.refs_.len() as int) } }
pub open spec fn link_rules(g: Grammar, s: Seq<MetaRule>, n: int) -> Seq<MetaRule> { Seq::new(s.len(), |j: int| if j < n { link_rule(g, s[j]) } else { s[j] }) }
pub open spec fn link_meta(g: Grammar, m: MetaSection) -> MetaSection { MetaSection { rules_: link_rules(g, m.rules_, m.rules_.len() as int), ..m } }
pub open spec fn link_metas(g: Grammar, n: int) -> Seq<MetaSection> { Seq::new(g.metas_.len(), |i: int| if i < n { link_meta(g, g.metas_[i]) } else { g.metas_[i] }) }
pub open spec fn at_meta(g: Grammar, i: int, j: int) -> Seq<MetaSection> { link_metas(g, i).update(i, MetaSection { rules_: link_rules(g, g.metas_[i].rules_, j), ..g.metas_[i] }) }
pub open spec fn at_ref(g: Grammar, i: int, j: int, k: int) -> Seq<MetaSection> {
    link_metas(g, i).update(i, MetaSection { rules_: link_rules(g, g.metas_[i].rules_, j).update(j, MetaRule { refs_: link_refs(g, g.metas_[i].rules_[j].refs_, k) }), ..g.metas_[i] })
}
// ---- names referred to --------------------------------------------------------------------------
pub open spec fn in_refs(s: Seq<SectionPtr>, n: int) -> Set<Str> decreases n { if n <= 0 { Set::<Str>::empty() } else { in_refs(s, n - 1).insert(s[n - 1].name_) } }
pub open spec fn in_rules(s: Seq<MetaRule>, n: int) -> Set<Str> decreases n { if n <= 0 { Set::<Str>::empty() } else { in_rules(s, n - 1).union(in_refs(s[n - 1].refs_, s[n - 1].refs_.len() as int)) } }
pub open spec fn in_metas(s: Seq<MetaSection>, n: int) -> Set<Str> decreases n { if n <= 0 { Set::<Str>::empty() } else { in_metas(s, n - 1).union(in_rules(s[n - 1].rules_, s[n - 1].rules_.len() as int)) } }
pub open spec fn referred(g: Grammar) -> Set<Str> { in_metas(g.metas_, g.metas_.len() as int) }
pub open spec fn named_in(g: Grammar, s: Set<Str>) -> bool { s.subset_of(g.sectionIndex_.dom()) }
pub open spec fn used(g: Grammar, n: Str) -> bool { referred(g).contains(n) || n == #"ADDRESS" }
pub open spec fn metas_used(g: Grammar, n: int) -> bool { forall|i: int| 0 <= i < n ==> used(g, #[trigger] g.metas_[i].name_) }
pub open spec fn rules_used(g: Grammar, n: int) -> bool { forall|i: int| 0 <= i < n ==> used(g, #[trigger] g.rules_[i].name_) }
pub open spec fn valid_all(s: Seq<Rule>, n: int) -> bool { forall|k: int| 0 <= k < n ==> valid(#[trigger] s[k]) }
pub open spec fn rules_valid(g: Grammar, n: int) -> bool { forall|i: int| 0 <= i < n ==> valid_all((#[trigger] g.rules_[i]).rules_, g.rules_[i].rules_.len() as int) }
pub open spec fn rooted(g: Grammar) -> bool { named_in(g, referred(g)) && g.sectionIndex_.dom().contains(#"ADDRESS") }
pub open spec fn complete(g: Grammar) -> bool { rooted(g) && rules_valid(g, g.rules_.len() as int) }
pub open spec fn all_used_in(g: Grammar) -> bool { metas_used(g, g.metas_.len() as int) && rules_used(g, g.rules_.len() as int) }
pub open spec fn status_if(fine: bool, quiet: bool) -> int { if !fine { -1 } else if quiet { 0 } else { 1 } }
pub open spec fn sections_upto(s: Seq<RuleSection>, n: int) -> Set<Str> decreases n { if n <= 0 { Set::<Str>::empty() } else { sections_upto(s, n - 1).insert(s[n - 1].name_) } }
pub proof fn lemma_sections_upto(s: Seq<RuleSection>, n: int, x: Str)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).name_ != x
    ensures !sections_upto(s, n).contains(x)
    decreases n
{ if n > 0 { lemma_sections_upto(s, n - 1, x); } }
// everything but the links, the texts and the status stays
pub open spec fn same_sections(a: Grammar, b: Grammar) -> bool { a.rules_ == b.rules_ && a.sectionIndex_ == b.sectionIndex_ && a.md5_ == b.md5_ }
pub open spec fn noted(g: Grammar, status: int) -> bool { g.status_ == status && (g.issues_.len() == 0 <==> status == 0) }
@@end
@@fn Grammar::updatePointers()
params: this
opt: throws
requires indexed($this), unlinked($this), $this.checked_.len() == 0,
ensures
    !$throws,
    $this'.metas_ == link_metas($this, $this.metas_.len() as int),
    same_sections($this', $this),
    noted($this', status_if(complete($this), all_used_in($this))),
@@entry
assert(link_metas($$this, 0) =~= $$this.metas_);
assert($$this.checked_ =~= Set::<Str>::empty());
lits();
@@loop 1
invariant
    0 <= $i1 <= $$this.metas_.len(),
    $this.metas_ == link_metas($$this, $i1), same_sections($this, $$this), $this.checked_ == $$this.checked_,
    $this.references_.dom() =~= in_metas($$this.metas_, $i1),
    noted($this, status_if(named_in($$this, in_metas($$this.metas_, $i1)), true)),
decreases $$this.metas_.len() - $i1
@@loopbody 1
assert(at_meta($$this, $i1, 0) =~= link_metas($$this, $i1)) by { assert(link_rules($$this, $$this.metas_[$i1].rules_, 0) =~= $$this.metas_[$i1].rules_); }
@@loop 2
invariant
    0 <= $i1 < $$this.metas_.len(), 0 <= $i2 <= $$this.metas_[$i1].rules_.len(),
    $this.metas_ == at_meta($$this, $i1, $i2), same_sections($this, $$this), $this.checked_ == $$this.checked_,
    $this.references_.dom() =~= in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2)),
    noted($this, status_if(named_in($$this, in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2))), true)),
decreases $$this.metas_[$i1].rules_.len() - $i2
@@loopbody 2
assert(at_ref($$this, $i1, $i2, 0) =~= at_meta($$this, $i1, $i2)) by { assert(link_refs($$this, $$this.metas_[$i1].rules_[$i2].refs_, 0) =~= $$this.metas_[$i1].rules_[$i2].refs_); assert(at_ref($$this, $i1, $i2, 0)[$i1].rules_ =~= at_meta($$this, $i1, $i2)[$i1].rules_); }
@@loop 3
invariant
    0 <= $i1 < $$this.metas_.len(), 0 <= $i2 < $$this.metas_[$i1].rules_.len(), 0 <= $i3 <= $$this.metas_[$i1].rules_[$i2].refs_.len(),
    $this.metas_ == at_ref($$this, $i1, $i2, $i3), same_sections($this, $$this), $this.checked_ == $$this.checked_,
    $this.references_.dom() =~= in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2)).union(in_refs($$this.metas_[$i1].rules_[$i2].refs_, $i3)),
    noted($this, status_if(named_in($$this, in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2)).union(in_refs($$this.metas_[$i1].rules_[$i2].refs_, $i3))), true)),
decreases $$this.metas_[$i1].rules_[$i2].refs_.len() - $i3
@@loopbody 3
let n3 = $$this.metas_[$i1].rules_[$i2].refs_[$i3].name_;
let before3 = in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2)).union(in_refs($$this.metas_[$i1].rules_[$i2].refs_, $i3));
let after3 = in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2)).union(in_refs($$this.metas_[$i1].rules_[$i2].refs_, $i3 + 1));
assert(after3 =~= before3.insert(n3));
assert(named_in($$this, after3) <==> named_in($$this, before3) && $$this.sectionIndex_.dom().contains(n3));
assert(fresh_rules($$this.metas_[$i1].rules_));
assert(fresh_refs($$this.metas_[$i1].rules_[$i2].refs_));
assert($$this.metas_[$i1].rules_[$i2].refs_[$i3] == fresh(n3));
@@beforeinc 3
let a3 = $this.metas_[$i1].rules_[$i2].refs_; let b3 = at_ref($$this, $i1, $i2, $i3 + 1);
assert(a3 =~= b3[$i1].rules_[$i2].refs_);
assert($this.metas_[$i1].rules_ =~= b3[$i1].rules_);
assert($this.metas_ =~= b3);
@@afterloop 3
let a3 = $this.metas_; let b3 = at_meta($$this, $i1, $i2 + 1);
assert(link_rules($$this, $$this.metas_[$i1].rules_, $i2 + 1) =~= link_rules($$this, $$this.metas_[$i1].rules_, $i2).update($i2, link_rule($$this, $$this.metas_[$i1].rules_[$i2])));
assert(a3[$i1].rules_ =~= b3[$i1].rules_);
assert(a3 =~= b3);
assert(in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2)).union(in_refs($$this.metas_[$i1].rules_[$i2].refs_, $$this.metas_[$i1].rules_[$i2].refs_.len() as int)) =~= in_metas($$this.metas_, $i1).union(in_rules($$this.metas_[$i1].rules_, $i2 + 1)));
@@afterloop 2
assert($this.metas_ =~= link_metas($$this, $i1 + 1));
@@before 4
let ghost status4 = $this.status_;
assert(named_in($$this, referred($$this)) <==> named_in($$this, $this.references_.dom()));
@@loop 4
invariant
    0 <= $i4 <= $$this.metas_.len(),
    $this.metas_ == link_metas($$this, $$this.metas_.len() as int), same_sections($this, $$this), $this.checked_ == $$this.checked_,
    $this.references_.dom() =~= referred($$this),
    noted($this, status_if(rooted($$this), metas_used($$this, $i4))),
decreases $$this.metas_.len() - $i4
@@loop 5
invariant
    0 <= $i5 <= $$this.rules_.len(),
    $this.metas_ == link_metas($$this, $$this.metas_.len() as int), same_sections($this, $$this), $this.checked_ =~= sections_upto($$this.rules_, $i5),
    $this.references_.dom() =~= referred($$this),
    noted($this, status_if(rooted($$this) && rules_valid($$this, $i5), metas_used($$this, $$this.metas_.len() as int) && rules_used($$this, $i5))),
decreases $$this.rules_.len() - $i5
@@loopbody 5
lemma_sections_upto($$this.rules_, $i5, $$this.rules_[$i5].name_);
@@loop 6
invariant
    0 <= $i5 < $$this.rules_.len(), 0 <= $i6 <= $$this.rules_[$i5].rules_.len(),
    $this.metas_ == link_metas($$this, $$this.metas_.len() as int), same_sections($this, $$this), $this.checked_ =~= sections_upto($$this.rules_, $i5),
    $this.references_.dom() =~= referred($$this),
    noted($this, status_if(rooted($$this) && rules_valid($$this, $i5) && valid_all($$this.rules_[$i5].rules_, $i6), metas_used($$this, $$this.metas_.len() as int) && rules_used($$this, $i5 + 1))),
@@end
@@spec
// ---- reading section by section ---------------------------------------------------------------------
pub ghost struct Part { pub metas: Seq<MetaSection>, pub rules: Seq<RuleSection>, pub index: Map<Str, int>, pub name: Str, pub kind: int, pub refs: Seq<MetaRule>, pub lines: Seq<Rule> }
pub open spec fn no_part() -> Part { Part { metas: Seq::<MetaSection>::empty(), rules: Seq::<RuleSection>::empty(), index: Map::<Str, int>::empty(), name: Seq::<int>::empty(), kind: 2, refs: Seq::<MetaRule>::empty(), lines: Seq::<Rule>::empty() } }
// the section read so far, put away under its name
pub open spec fn put_away(p: Part) -> Part {
    if p.kind == 0 { Part { metas: p.metas.push(MetaSection { name_: p.name, rules_: p.refs }), index: p.index.insert(p.name, p.metas.len() as int), kind: 2, refs: Seq::<MetaRule>::empty(), lines: Seq::<Rule>::empty(), ..p } }
    else if p.kind == 1 { Part { rules: p.rules.push(RuleSection { name_: p.name, rules_: p.lines }), index: p.index.insert(p.name, p.rules.len() as int), kind: 2, refs: Seq::<MetaRule>::empty(), lines: Seq::<Rule>::empty(), ..p } }
    else { p }
}
pub open spec fn has_at(l: Str) -> bool { l.contains(64) }
pub open spec fn after_line(p: Part, l: Str) -> Option<Part> {
    if skip_line(l) { Some(p) }
    else if head_line(l) {
        if put_away(p).index.dom().contains(head_name(l)) { None } else { Some(Part { name: head_name(l), ..put_away(p) }) }
    }
    else if p.name.len() == 0 { None }
    else if has_at(l) { if p.kind == 1 || !ref_line(l) { None } else { Some(Part { kind: 0, refs: p.refs.push(refs_of(l)), ..p }) } }
    else if p.kind == 0 || !valid(rule_of(l)) { None }
    else { Some(Part { kind: 1, lines: p.lines.push(rule_of(l)), ..p }) }
}
pub open spec fn after_lines(p: Option<Part>, ls: Seq<Str>) -> Option<Part> decreases ls.len() {
    if p is None || ls.len() == 0 { p } else { after_lines(after_line(p->0, ls[0]), tail_of(ls)) }
}
pub open spec fn read_part(ls: Seq<Str>) -> Option<Part> {
    match after_lines(Some(no_part()), first_unmarked(ls)) { None => None, Some(p) => Some(put_away(p)) }
}
pub open spec fn all_text(ls: Seq<Str>) -> Str decreases ls.len() { if ls.len() == 0 { Seq::<int>::empty() } else { ls[0] + all_text(tail_of(ls)) } }
pub open spec fn as_grammar(p: Part) -> Grammar {
    Grammar { metas_: p.metas, rules_: p.rules, sectionIndex_: p.index, md5_: Seq::<int>::empty(), issues_: Seq::<int>::empty(), references_: Map::<Str, int>::empty(), checked_: Set::<Str>::empty(), status_: 0 }
}
pub open spec fn holds(g: Grammar, p: Part) -> bool { g.metas_ == p.metas && g.rules_ == p.rules && g.sectionIndex_ == p.index }
pub open spec fn sound(p: Part) -> bool {
    &&& indexed(as_grammar(p)) && unlinked(as_grammar(p)) && rules_valid(as_grammar(p), p.rules.len() as int)
    &&& 0 <= p.kind <= 2
    &&& fresh_rules(p.refs) && valid_all(p.lines, p.lines.len() as int)
    &&& p.kind == 2 ==> p.refs.len() == 0 && p.lines.len() == 0
}
// a section being read has a name that no section put away has
pub open spec fn ready(p: Part) -> bool { sound(p) && (p.name.len() > 0 ==> !p.index.dom().contains(p.name)) && (p.kind != 2 ==> p.name.len() > 0) }
pub proof fn lemma_put_away(p: Part)
    requires ready(p)
    ensures sound(put_away(p)), put_away(p).kind == 2, put_away(p).name == p.name,
        p.kind != 2 ==> put_away(p).index.dom().contains(p.name)
{
    let g = as_grammar(p); let h = as_grammar(put_away(p));
    if p.kind != 2 {
        assert forall|i: int| 0 <= i < h.metas_.len() implies h.sectionIndex_.dom().contains(#[trigger] h.metas_[i].name_) && h.sectionIndex_[h.metas_[i].name_] == i && fresh_rules(h.metas_[i].rules_) by { if i < g.metas_.len() { assert(h.metas_[i] == g.metas_[i]); } }
        assert forall|i: int| 0 <= i < h.rules_.len() implies h.sectionIndex_.dom().contains(#[trigger] h.rules_[i].name_) && h.sectionIndex_[h.rules_[i].name_] == i && valid_all(h.rules_[i].rules_, h.rules_[i].rules_.len() as int) by { if i < g.rules_.len() { assert(h.rules_[i] == g.rules_[i]); } }
        assert forall|s: Str| #[trigger] h.sectionIndex_.dom().contains(s) implies is_meta(h, s, h.sectionIndex_[s]) || is_rules(h, s, h.sectionIndex_[s]) by {
            if s != p.name { assert(g.sectionIndex_.dom().contains(s)); let i = g.sectionIndex_[s]; if is_meta(g, s, i) { assert(h.metas_[i] == g.metas_[i]); } else { assert(h.rules_[i] == g.rules_[i]); } }
        }
        assert forall|i: int, j: int| 0 <= i < h.metas_.len() && 0 <= j < h.rules_.len() implies #[trigger] h.metas_[i].name_ != #[trigger] h.rules_[j].name_ by {
            if i < g.metas_.len() { assert(h.metas_[i] == g.metas_[i]); assert(g.sectionIndex_.dom().contains(g.metas_[i].name_)); }
            if j < g.rules_.len() { assert(h.rules_[j] == g.rules_[j]); assert(g.sectionIndex_.dom().contains(g.rules_[j].name_)); }
        }
    }
}
pub proof fn lemma_after_line(p: Part, l: Str)
    requires ready(p)
    ensures after_line(p, l) is Some ==> ready(after_line(p, l)->0)
{
    axiom_lines(l);
    lemma_put_away(p);
    match after_line(p, l) {
        None => {},
        Some(q) => {
            let g = as_grammar(put_away(p)); let h = as_grammar(q);
            if !skip_line(l) && head_line(l) { assert(h == g); }
            else if !skip_line(l) {
                assert(h == as_grammar(p));
                if has_at(l) { assert(forall|j: int| 0 <= j < p.refs.len() ==> q.refs[j] == p.refs[j]); assert(fresh_refs(refs_of(l).refs_)); }
                else { assert(forall|j: int| 0 <= j < p.lines.len() ==> q.lines[j] == p.lines[j]); }
            }
        }
    }
}
pub proof fn lemma_after_lines(p: Part, ls: Seq<Str>)
    requires ready(p)
    ensures after_lines(Some(p), ls) is Some ==> ready(after_lines(Some(p), ls)->0)
    decreases ls.len()
{
    if ls.len() > 0 {
        lemma_after_line(p, ls[0]);
        match after_line(p, ls[0]) { Some(q) => { lemma_after_lines(q, tail_of(ls)); assert(after_lines(Some(p), ls) == after_lines(Some(q), tail_of(ls))); }, None => { assert(after_lines(None::<Part>, tail_of(ls)) is None); assert(after_lines(Some(p), ls) is None); } }
    }
}
pub proof fn lemma_find_at(l: Str, i: int)
    requires 0 <= i <= l.len() < npos()
    ensures find_from(l, seq![64int], i) != npos() <==> l.subrange(i, l.len() as int).contains(64)
    decreases l.len() - i
{
    let t = l.subrange(i, l.len() as int);
    if i < l.len() {
        lemma_find_at(l, i + 1);
        let u = l.subrange(i + 1, l.len() as int);
        assert(l.subrange(i, i + 1)[0] == l[i]);
        if l[i] == 64 { assert(t[0] == 64); assert(l.subrange(i, i + 1) =~= seq![64int]); }
        if u.contains(64) { let k = choose|k: int| 0 <= k < u.len() && u[k] == 64; assert(t[k + 1] == 64); }
        if t.contains(64) { let k = choose|k: int| 0 <= k < t.len() && t[k] == 64; if k > 0 { assert(u[k - 1] == 64); } }
    }
}
pub open spec fn none_yet() -> Str { Seq::<int>::empty() }
pub open spec fn brief(ls: Seq<Str>) -> bool { forall|k: int| 0 <= k < ls.len() ==> (#[trigger] ls[k]).len() < npos() }
pub proof fn lemma_brief(s: Str)
    requires s.len() < npos()
    ensures brief(lines_of(s))
    decreases s.len()
{
    if s.len() > 0 {
        let k = upto(s, 10, 0);
        lemma_upto(s, 10, 0);
        if k < s.len() {
            let t = s.subrange(k + 1, s.len() as int);
            lemma_brief(t);
            assert forall|j: int| 0 <= j < lines_of(s).len() implies (#[trigger] lines_of(s)[j]).len() < npos() by { if j > 0 { assert(lines_of(s)[j] == lines_of(t)[j - 1]); } }
        }
    }
}
pub open spec fn part(g: Grammar, name: Str, kind: int, refs: Seq<MetaRule>, lines: Seq<Rule>) -> Part { Part { metas: g.metas_, rules: g.rules_, index: g.sectionIndex_, name, kind, refs, lines } }
pub proof fn lemma_same_part(g: Grammar, p: Part)
    requires holds(g, p)
    ensures indexed(g) <==> indexed(as_grammar(p)), unlinked(g) <==> unlinked(as_grammar(p)), complete(g) <==> complete(as_grammar(p)), all_used_in(g) <==> all_used_in(as_grammar(p)),
        link_metas(g, g.metas_.len() as int) == link_metas(as_grammar(p), p.metas.len() as int)
{
    let h = as_grammar(p);
    assert forall|n: Str| #[trigger] link(g, n) == link(h, n) by {}
    assert forall|i: int| 0 <= i < g.metas_.len() implies link_meta(g, #[trigger] g.metas_[i]) == link_meta(h, h.metas_[i]) by {
        let m = g.metas_[i];
        assert forall|j: int| 0 <= j < m.rules_.len() implies link_rule(g, #[trigger] m.rules_[j]) == link_rule(h, m.rules_[j]) by { assert(link_rule(g, m.rules_[j]).refs_ =~= link_rule(h, m.rules_[j]).refs_); }
        assert(link_meta(g, m).rules_ =~= link_meta(h, m).rules_);
    }
    assert(link_metas(g, g.metas_.len() as int) =~= link_metas(h, p.metas.len() as int));
    assert(referred(g) == referred(h));
    assert forall|n: Str| #[trigger] used(g, n) == used(h, n) by {}
}
// what a text loads to
pub open spec fn grammar_of(ls: Seq<Str>) -> Option<Part> { match read_part(ls) { None => None, Some(p) => if complete(as_grammar(p)) { Some(p) } else { None } } }
@@end
@@fn Grammar::initialize(stream&)
params: this is
vars: gotSection Str#2; grammar_in Str; line Str#3; line_cnt int#2; mrules Seq<MetaRule>; ruleType int; rules Seq<Rule>
opt: throws; hide ready indexed unlinked rules_valid complete all_used_in link_metas rule_of valid refs_of all_text first_unmarked
requires $is.rest.len() < npos(), $this.metas_.len() == 0, $this.rules_.len() == 0, $this.sectionIndex_ == Map::<Str, int>::empty(), $this.checked_.len() == 0,
ensures
    $throws <==> grammar_of(lines_left($is)) is None,
    !$throws ==> ({
        let p = grammar_of(lines_left($is))->0;
        &&& $this'.metas_ == link_metas(as_grammar(p), p.metas.len() as int) && $this'.rules_ == p.rules && $this'.sectionIndex_ == p.index
        &&& noted($this', status_if(true, all_used_in(as_grammar(p))))
        &&& $this'.md5_ == md5_of(all_text(lines_left($is)))
    }),
@@entry
let ghost all = lines_left($$is);
let ghost whole = after_lines(Some(no_part()), first_unmarked(all));
reveal(ready); reveal(indexed); reveal(unlinked); reveal(rules_valid); reveal(first_unmarked); reveal(all_text);
lemma_brief($$is.rest);
lemma_line($$is, none_yet());
assert(part($$this, none_yet(), 2, Seq::<MetaRule>::empty(), Seq::<Rule>::empty()) == no_part()) by { assert($$this.metas_ =~= Seq::<MetaSection>::empty()); assert($$this.rules_ =~= Seq::<RuleSection>::empty()); }
if all.len() > 0 { assert(all =~= seq![all[0]] + tail_of(all)); }
assert(none_yet() + all_text(all) =~= all_text(all));
@@loop 1
invariant
    ready(part($this, $gotSection, $ruleType, $mrules, $rules)),
    $this.checked_ == $$this.checked_,
    $line_cnt >= 0,
    brief(lines_left($is)), !$is.fail ==> $line.len() < npos(),
    !$is.fail ==> whole == after_lines(Some(part($this, $gotSection, $ruleType, $mrules, $rules)), seq![if $line_cnt == 0 { unmarked($line) } else { $line }] + lines_left($is)),
    $is.fail ==> whole == Some(part($this, $gotSection, $ruleType, $mrules, $rules)),
    all_text(all) == $grammar_in + (if $is.fail { none_yet() } else { $line + all_text(lines_left($is)) }),
decreases lines_left($is).len() + (if $is.fail { 0int } else { 1int })
@@loopbody 1
let ghost p1 = part($this, $gotSection, $ruleType, $mrules, $rules);
let ghost l1 = if $line_cnt == 0 { unmarked($line) } else { $line };
let ghost q1 = after_line(p1, l1);
reveal(all_text); reveal(ready);
axiom_lines(l1);
lemma_find_at(l1, 0);
assert(l1.subrange(0, l1.len() as int) =~= l1);
lemma_put_away(p1);
lemma_after_line(p1, l1);
lemma_line($is, l1);
assert(tail_of(seq![l1] + lines_left($is)) =~= lines_left($is));
assert((seq![l1] + lines_left($is))[0] == l1);
assert(whole == after_lines(q1, lines_left($is)));
assert(q1 is None ==> whole is None);
assert(lines_left($is).len() == 0 ==> whole == q1);
if lines_left($is).len() > 0 { assert(lines_left($is) =~= seq![lines_left($is)[0]] + tail_of(lines_left($is))); }
assert($grammar_in + ($line + all_text(lines_left($is))) =~= ($grammar_in + $line) + all_text(lines_left($is)));
assert(p1.kind == 2 ==> p1.refs =~= Seq::<MetaRule>::empty() && p1.lines =~= Seq::<Rule>::empty());
assert(p1.refs.len() == 0 ==> p1.refs =~= Seq::<MetaRule>::empty());
@@loopend 1
assert(q1 is Some);
assert($this.sectionIndex_ =~= q1->0.index);
assert(part($this, $gotSection, $ruleType, $mrules, $rules) == q1->0);
@@afterloop 1
let ghost p2 = part($this, $gotSection, $ruleType, $mrules, $rules);
let ghost p3 = put_away(p2);
let ghost g3 = Grammar { metas_: p3.metas, rules_: p3.rules, sectionIndex_: p3.index, ..$this };
reveal(ready);
lemma_put_away(p2);
assert(read_part(all) == Some(p3));
lemma_same_part(g3, p3);
assert($this.checked_ =~= Set::<Str>::empty());
assert forall|m: Map<Str, int>, k: Str, v: int| #[trigger] m.insert(k, 0).insert(k, v) == m.insert(k, v) by { assert(m.insert(k, 0).insert(k, v) =~= m.insert(k, v)); }
@@end
@@spec C12
pub proof fn lemma_lines_add(p: Option<Part>, a: Seq<Str>, b: Seq<Str>)
    ensures after_lines(p, a + b) == after_lines(after_lines(p, a), b)
    decreases a.len()
{
    if p is Some && a.len() > 0 {
        lemma_lines_add(after_line(p->0, a[0]), tail_of(a), b);
        assert(tail_of(a + b) =~= tail_of(a) + b);
    } else if a.len() == 0 { assert(a + b =~= b); }
}
pub proof fn lemma_no_lines(ls: Seq<Str>) ensures after_lines(None::<Part>, ls) is None { }
pub proof fn lemma_first_add(a: Seq<Str>, b: Seq<Str>)
    requires a.len() > 0
    ensures first_unmarked(a + b) == first_unmarked(a) + b
{ assert(first_unmarked(a + b) =~= first_unmarked(a) + b); }
pub proof fn lemma_one_line(p: Part, l: Str)
    ensures after_lines(Some(p), seq![l]) == after_line(p, l)
{
    let t = tail_of(seq![l]);
    assert(seq![l][0] == l);
    assert(t.len() == 0);
    assert(after_lines(Some(p), seq![l]) == after_lines(after_line(p, l), t));
}
// a comment or blank line changes nothing
pub proof fn C12_comments_and_blank_lines_are_skipped(a: Seq<Str>, l: Str, b: Seq<Str>)
    requires skip_line(l), a.len() > 0
    ensures read_part(a + seq![l] + b) == read_part(a + b), grammar_of(a + seq![l] + b) == grammar_of(a + b)
{
    let n = Some(no_part()); let m = first_unmarked(a);
    lemma_first_add(a, seq![l] + b); lemma_first_add(a, b);
    assert(a + seq![l] + b =~= a + (seq![l] + b));
    lemma_lines_add(n, m, seq![l] + b);
    lemma_lines_add(n, m, b);
    lemma_lines_add(after_lines(n, m), seq![l], b);
    if after_lines(n, m) is Some { lemma_one_line(after_lines(n, m)->0, l); } else { lemma_no_lines(seq![l]); }
}
pub proof fn C12_a_leading_comment_or_blank_line_is_skipped(l: Str, b: Seq<Str>)
    requires skip_line(l), unmarked(l) == l, first_unmarked(b) == b
    ensures grammar_of(seq![l] + b) == grammar_of(b)
{
    assert(first_unmarked(seq![l] + b) =~= seq![l] + b);
    assert(tail_of(seq![l] + b) =~= b);
}
pub open spec fn mark() -> Str { seq![0 - 17, 0 - 69, 0 - 65] }
pub proof fn C12_a_byte_order_mark_is_skipped(l: Str, b: Seq<Str>)
    requires unmarked(l) == l
    ensures grammar_of(seq![mark() + l] + b) == grammar_of(seq![l] + b)
{
    assert((mark() + l).subrange(3, (mark() + l).len() as int) =~= l);
    assert(first_unmarked(seq![mark() + l] + b) =~= first_unmarked(seq![l] + b));
}
// what is refused: a line of no section, a repeated section name, a section of both kinds, a malformed reference line, an invalid rule
pub open spec fn refused_at(p: Part, l: Str) -> bool {
    !skip_line(l) && if head_line(l) { (p.kind != 2 && p.name == head_name(l)) || p.index.dom().contains(head_name(l)) }
    else { p.name.len() == 0 || if has_at(l) { p.kind == 1 || !ref_line(l) } else { p.kind == 0 || !valid(rule_of(l)) } }
}
pub proof fn C12_a_bad_line_is_refused(a: Seq<Str>, l: Str, b: Seq<Str>)
    requires a.len() > 0, after_lines(Some(no_part()), first_unmarked(a)) is Some ==> refused_at(after_lines(Some(no_part()), first_unmarked(a))->0, l)
    ensures grammar_of(a + seq![l] + b) is None
{
    let n = Some(no_part()); let m = first_unmarked(a);
    lemma_first_add(a, seq![l] + b);
    assert(a + seq![l] + b =~= a + (seq![l] + b));
    lemma_lines_add(n, m, seq![l] + b);
    lemma_lines_add(after_lines(n, m), seq![l], b);
    lemma_no_part();
    lemma_no_lines(b); lemma_no_lines(seq![l]); lemma_no_lines(seq![l] + b);
    if after_lines(n, m) is Some {
        let p = after_lines(n, m)->0;
        lemma_after_lines(no_part(), m);
        lemma_put_away(p);
        assert(tail_of(seq![l]) =~= Seq::<Str>::empty());
        assert(after_line(p, l) is None);
        assert(seq![l][0] == l);
        assert(after_lines(after_lines(n, m), seq![l]) == after_lines(after_line(p, l), tail_of(seq![l])));
    }
}
pub proof fn C12_a_line_before_the_first_section_is_refused(l: Str, b: Seq<Str>)
    requires unmarked(l) == l, !skip_line(l), !head_line(l)
    ensures grammar_of(seq![l] + b) is None
{
    assert(first_unmarked(seq![l] + b) =~= seq![l] + b);
    assert(tail_of(seq![l] + b) =~= b);
    assert((seq![l] + b)[0] == l);
    assert(after_line(no_part(), l) is None);
    lemma_no_lines(b);
}
@@end
@@spec C12 C24
pub proof fn lemma_no_part() ensures ready(no_part()) {}
// a name referred to that no section has, or no section ADDRESS
pub proof fn lemma_in_refs(s: Seq<SectionPtr>, n: int, k: int)
    requires 0 <= k < n <= s.len()
    ensures in_refs(s, n).contains(s[k].name_)
    decreases n
{ if k < n - 1 { lemma_in_refs(s, n - 1, k); } }
pub proof fn lemma_in_rules(s: Seq<MetaRule>, n: int, j: int, k: int)
    requires 0 <= j < n <= s.len(), 0 <= k < s[j].refs_.len()
    ensures in_rules(s, n).contains(s[j].refs_[k].name_)
    decreases n
{ if j < n - 1 { lemma_in_rules(s, n - 1, j, k); } else { lemma_in_refs(s[j].refs_, s[j].refs_.len() as int, k); } }
pub proof fn lemma_in_metas(s: Seq<MetaSection>, n: int, i: int, j: int, k: int)
    requires 0 <= i < n <= s.len(), 0 <= j < s[i].rules_.len(), 0 <= k < s[i].rules_[j].refs_.len()
    ensures in_metas(s, n).contains(s[i].rules_[j].refs_[k].name_)
    decreases n
{ if i < n - 1 { lemma_in_metas(s, n - 1, i, j, k); } else { lemma_in_rules(s[i].rules_, s[i].rules_.len() as int, j, k); } }
pub proof fn C12_a_missing_section_is_refused(ls: Seq<Str>, i: int, j: int, k: int)
    requires read_part(ls) is Some ==> ({ let p = read_part(ls)->0; 0 <= i < p.metas.len() && 0 <= j < p.metas[i].rules_.len() && 0 <= k < p.metas[i].rules_[j].refs_.len() && !p.index.dom().contains(p.metas[i].rules_[j].refs_[k].name_) })
    ensures grammar_of(ls) is None
{ if read_part(ls) is Some { let p = read_part(ls)->0; lemma_in_metas(p.metas, p.metas.len() as int, i, j, k); } }
pub proof fn C12_a_grammar_needs_a_start_section(ls: Seq<Str>)
    requires read_part(ls) is Some ==> !read_part(ls)->0.index.dom().contains(#"ADDRESS")
    ensures grammar_of(ls) is None
{}
// a grammar that loads: every name stands for the one section of that name, every reference leads to the section it names, every rule is valid
pub proof fn C12_no_loose_ends(ls: Seq<Str>)
    requires grammar_of(ls) is Some
    ensures ({
        let p = grammar_of(ls)->0; let g = as_grammar(p); let m = link_metas(g, p.metas.len() as int);
        &&& indexed(g)
        &&& g.sectionIndex_.dom().contains(#"ADDRESS")
        &&& m.len() == p.metas.len()
        &&& forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).name_ == p.metas[i].name_ && m[i].rules_.len() == p.metas[i].rules_.len()
        &&& forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].rules_.len() ==> (#[trigger] m[i].rules_[j]).refs_.len() == p.metas[i].rules_[j].refs_.len()
        &&& forall|i: int, j: int, k: int| 0 <= i < m.len() && 0 <= j < m[i].rules_.len() && 0 <= k < m[i].rules_[j].refs_.len() ==> {
            let r = #[trigger] m[i].rules_[j].refs_[k];
            r.name_ == p.metas[i].rules_[j].refs_[k].name_ && ((r.rptr_ == -1 && is_meta(g, r.name_, r.mptr_)) || (r.mptr_ == -1 && is_rules(g, r.name_, r.rptr_))) }
        &&& forall|i: int, j: int| 0 <= i < p.rules.len() && 0 <= j < p.rules[i].rules_.len() ==> valid(#[trigger] p.rules[i].rules_[j])
    })
{
    let p = grammar_of(ls)->0; let g = as_grammar(p); let m = link_metas(g, p.metas.len() as int);
    lemma_no_part();
    lemma_after_lines(no_part(), first_unmarked(ls));
    let q = after_lines(Some(no_part()), first_unmarked(ls))->0;
    lemma_put_away(q);
    assert forall|i: int, j: int, k: int| 0 <= i < m.len() && 0 <= j < m[i].rules_.len() && 0 <= k < m[i].rules_[j].refs_.len() implies ({
            let r = #[trigger] m[i].rules_[j].refs_[k];
            r.name_ == p.metas[i].rules_[j].refs_[k].name_ && ((r.rptr_ == -1 && is_meta(g, r.name_, r.mptr_)) || (r.mptr_ == -1 && is_rules(g, r.name_, r.rptr_))) }) by {
        lemma_in_metas(p.metas, p.metas.len() as int, i, j, k);
        let n = p.metas[i].rules_[j].refs_[k].name_;
        assert(g.sectionIndex_.dom().contains(n));
        assert(m[i].rules_[j].refs_[k] == link(g, n));
    }
    assert forall|i: int, j: int| 0 <= i < p.rules.len() && 0 <= j < p.rules[i].rules_.len() implies valid(#[trigger] p.rules[i].rules_[j]) by { assert(valid_all(p.rules[i].rules_, p.rules[i].rules_.len() as int)); }
}
// a section nobody refers to is no reason to refuse, and the only one to warn
@@end
@@spec C12
pub proof fn C12_an_unused_section_is_only_a_warning(g: Grammar, p: Part)
    requires noted(g, status_if(true, all_used_in(as_grammar(p))))
    ensures g.status_ == if all_used_in(as_grammar(p)) { 0int } else { 1int }, g.issues_.len() == 0 <==> all_used_in(as_grammar(p))
{}
// ---- sections as written -----------------------------------------------------------------------------
pub ghost struct Sec { pub head: Str, pub refs: bool, pub lines: Seq<Str> }
pub open spec fn sec_name(s: Sec) -> Str { head_name(s.head) }
pub open spec fn good_sec(s: Sec) -> bool {
    &&& head_line(s.head) && !skip_line(s.head) && s.lines.len() > 0
    &&& forall|k: int| 0 <= k < s.lines.len() ==> { let l = #[trigger] s.lines[k]; !skip_line(l) && !head_line(l) && has_at(l) == s.refs && if s.refs { ref_line(l) } else { valid(rule_of(l)) } }
}
pub open spec fn refs_all(ls: Seq<Str>) -> Seq<MetaRule> { Seq::new(ls.len(), |k: int| refs_of(ls[k])) }
pub open spec fn rules_all(ls: Seq<Str>) -> Seq<Rule> { Seq::new(ls.len(), |k: int| rule_of(ls[k])) }
pub open spec fn kept_sec(p: Part, s: Sec) -> bool {
    p.index.dom().contains(sec_name(s)) && ({ let i = p.index[sec_name(s)];
        if s.refs { 0 <= i < p.metas.len() && p.metas[i] == (MetaSection { name_: sec_name(s), rules_: refs_all(s.lines) }) }
        else { 0 <= i < p.rules.len() && p.rules[i] == (RuleSection { name_: sec_name(s), rules_: rules_all(s.lines) }) } })
}
pub open spec fn written(ss: Seq<Sec>, n: int) -> Seq<Str> decreases n { if n <= 0 { Seq::<Str>::empty() } else { written(ss, n - 1) + (seq![ss[n - 1].head] + ss[n - 1].lines) } }
pub open spec fn apart(ss: Seq<Sec>) -> bool { forall|i: int, j: int| 0 <= i < j < ss.len() ==> sec_name(#[trigger] ss[i]) != sec_name(#[trigger] ss[j]) }
pub proof fn lemma_sec_lines(p: Part, s: Sec, n: int)
    requires good_sec(s), 0 <= n <= s.lines.len(), p.kind == 2, p.name == sec_name(s), p.name.len() > 0, p.refs.len() == 0, p.lines.len() == 0
    ensures after_lines(Some(p), s.lines.subrange(0, n)) == Some(if n == 0 { p } else if s.refs { Part { kind: 0, refs: refs_all(s.lines.subrange(0, n)), ..p } } else { Part { kind: 1, lines: rules_all(s.lines.subrange(0, n)), ..p } })
    decreases n
{
    let ls = s.lines.subrange(0, n);
    if n > 0 {
        lemma_sec_lines(p, s, n - 1);
        let a = s.lines.subrange(0, n - 1); let l = s.lines[n - 1];
        assert(ls =~= a + seq![l]);
        lemma_lines_add(Some(p), a, seq![l]);
        let q = after_lines(Some(p), a)->0;
        lemma_one_line(q, l);
        if s.refs { assert(refs_all(ls) =~= (if n == 1 { p.refs } else { refs_all(a) }).push(refs_of(l))); } else { assert(rules_all(ls) =~= (if n == 1 { p.lines } else { rules_all(a) }).push(rule_of(l))); }
    } else { assert(ls =~= Seq::<Str>::empty()); }
}
// the sections of a text are kept, each under its name with its lines in order
pub proof fn lemma_written(ss: Seq<Sec>, n: int)
    requires 0 <= n <= ss.len(), apart(ss), forall|i: int| 0 <= i < ss.len() ==> good_sec(#[trigger] ss[i])
    ensures ({
        let r = after_lines(Some(no_part()), written(ss, n));
        &&& r is Some
        &&& forall|i: int| 0 <= i < n ==> kept_sec(put_away(r->0), #[trigger] ss[i])
        &&& forall|x: Str| #[trigger] put_away(r->0).index.dom().contains(x) ==> exists|i: int| 0 <= i < n && sec_name(#[trigger] ss[i]) == x
    })
    decreases n
{
    if n > 0 {
        lemma_written(ss, n - 1);
        let n1 = Some(no_part());
        let s = ss[n - 1];
        let p = after_lines(n1, written(ss, n - 1))->0;
        assert(good_sec(s));
        axiom_lines(s.head);
        lemma_lines_add(n1, written(ss, n - 1), seq![s.head] + s.lines);
        lemma_lines_add(Some(p), seq![s.head], s.lines);
        lemma_one_line(p, s.head);
        if put_away(p).index.dom().contains(sec_name(s)) { let i = choose|i: int| 0 <= i < n - 1 && sec_name(#[trigger] ss[i]) == sec_name(s); assert(sec_name(ss[i]) != sec_name(ss[n - 1])); }
        let q = Part { name: sec_name(s), ..put_away(p) };
        assert(after_line(p, s.head) == Some(q));
        lemma_no_part();
        lemma_after_lines(no_part(), written(ss, n - 1));
        lemma_put_away(p);
        lemma_sec_lines(q, s, s.lines.len() as int);
        assert(s.lines.subrange(0, s.lines.len() as int) =~= s.lines);
        let r = after_lines(Some(q), s.lines)->0;
        assert(after_lines(n1, written(ss, n)) == Some(r));
        let t = put_away(r);
        assert forall|i: int| 0 <= i < n implies kept_sec(t, #[trigger] ss[i]) by {
            if i < n - 1 { assert(kept_sec(put_away(p), ss[i])); assert(sec_name(ss[i]) != sec_name(ss[n - 1])); }
        }
        assert forall|x: Str| #[trigger] t.index.dom().contains(x) implies exists|i: int| 0 <= i < n && sec_name(#[trigger] ss[i]) == x by {
            if x == sec_name(s) { assert(sec_name(ss[n - 1]) == x); }
            else { assert(put_away(p).index.dom().contains(x)); let i = choose|i: int| 0 <= i < n - 1 && sec_name(#[trigger] ss[i]) == x; assert(sec_name(ss[i]) == x); }
        }
    }
}
pub proof fn C12_sections_are_kept_as_written(ss: Seq<Sec>)
    requires apart(ss), forall|i: int| 0 <= i < ss.len() ==> good_sec(#[trigger] ss[i]), ss.len() > 0 ==> unmarked(ss[0].head) == ss[0].head
    ensures read_part(written(ss, ss.len() as int)) is Some, forall|i: int| 0 <= i < ss.len() ==> kept_sec(read_part(written(ss, ss.len() as int))->0, #[trigger] ss[i])
{
    let n = ss.len() as int;
    lemma_written(ss, n);
    lemma_written_first(ss, n);
    let ls = written(ss, n);
    if n > 0 { assert(first_unmarked(ls) =~= ls); }
}
pub proof fn lemma_written_first(ss: Seq<Sec>, n: int)
    requires 0 <= n <= ss.len()
    ensures n > 0 ==> written(ss, n).len() > 0 && written(ss, n)[0] == ss[0].head, n == 0 ==> written(ss, n).len() == 0
    decreases n
{ if n > 0 { lemma_written_first(ss, n - 1); } }
// the lines of a text written line by line are those lines
pub open spec fn no_nl(l: Str) -> bool { forall|k: int| 0 <= k < l.len() ==> l[k] != 10 }
pub open spec fn joined_lines(ls: Seq<Str>) -> Str decreases ls.len() { if ls.len() == 0 { none_yet() } else { ls[0] + #"\n" + joined_lines(tail_of(ls)) } }
pub proof fn lemma_upto_is(s: Str, i: int, n: int)
    requires 0 <= i <= n < s.len(), s[n] == 10, forall|k: int| i <= k < n ==> s[k] != 10
    ensures upto(s, 10, i) == n
    decreases n - i
{ if i < n { lemma_upto_is(s, i + 1, n); } }
pub proof fn C12_a_text_is_its_lines(ls: Seq<Str>)
    requires forall|k: int| 0 <= k < ls.len() ==> no_nl(#[trigger] ls[k])
    ensures lines_of(joined_lines(ls)) == ls
    decreases ls.len()
{
    lits(); reveal(#"\n");
    if ls.len() > 0 {
        let t = tail_of(ls); let l = ls[0]; let s = joined_lines(ls); let n = l.len() as int;
        assert forall|k: int| 0 <= k < t.len() implies no_nl(#[trigger] t[k]) by { assert(t[k] == ls[k + 1]); }
        C12_a_text_is_its_lines(t);
        assert(no_nl(l));
        assert(forall|k: int| 0 <= k < n ==> s[k] == l[k]);
        assert(s[n] == 10);
        lemma_upto_is(s, 0, n);
        assert(s.subrange(0, n) =~= l);
        assert(s.subrange(n + 1, s.len() as int) =~= joined_lines(t));
        assert(ls =~= seq![l] + t);
    } else { assert(lines_of(joined_lines(ls)) =~= ls); }
}
// the last line counts with or without a newline after it
pub proof fn C12_the_last_line_needs_no_newline(ls: Seq<Str>, l: Str)
    requires forall|k: int| 0 <= k < ls.len() ==> no_nl(#[trigger] ls[k]), no_nl(l), l.len() > 0
    ensures lines_of(joined_lines(ls) + l) == ls.push(l)
    decreases ls.len()
{
    lits(); reveal(#"\n");
    if ls.len() > 0 {
        let t = tail_of(ls); let a = ls[0]; let s = joined_lines(ls) + l; let n = a.len() as int;
        assert forall|k: int| 0 <= k < t.len() implies no_nl(#[trigger] t[k]) by { assert(t[k] == ls[k + 1]); }
        C12_the_last_line_needs_no_newline(t, l);
        assert(no_nl(a));
        assert(forall|k: int| 0 <= k < n ==> s[k] == a[k]);
        assert(s[n] == 10);
        lemma_upto_is(s, 0, n);
        assert(s.subrange(0, n) =~= a);
        assert(s.subrange(n + 1, s.len() as int) =~= joined_lines(t) + l);
        assert(ls.push(l) =~= seq![a] + t.push(l));
    } else {
        assert(joined_lines(ls) + l =~= l);
        lemma_upto(l, 10, 0);
        assert(lines_of(l) =~= ls.push(l));
    }
}
@@end
