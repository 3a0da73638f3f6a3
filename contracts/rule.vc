@@spec
pub open spec fn is_prefix(a: Seq<int>, b: Seq<int>) -> bool { a.len() <= b.len() && forall|k: int| 0 <= k < a.len() ==> a[k] == b[k] }
pub open spec fn rule_ok(r: Rule) -> bool { r.inClass_.len() == r.outClass_.len() }
@@end

@@fn Rule::match(vector<InClass::Type>)
params: this pat
ensures
    $ret == is_prefix($this.inClass_, $pat),
@@loop 1
invariant
    forall|k: int| 0 <= k < $i ==> $$this.inClass_[k] == $$pat[k],
@@end

@@fn Rule::concat(Rule)
params: this r
ensures
    $ret.inClass_ == $this.inClass_ + $r.inClass_,
    $ret.outClass_ == $this.outClass_ + $r.outClass_,
    $ret.score_ == f64to32(fdiv64(f32to64(fadd32($this.score_, $r.score_)), #f2.0)),
@@end

@@fn Rule::in(int)
params: this pos
requires $pos >= 0,
ensures
    $ret == if $pos < $this.inClass_.len() { $this.inClass_[$pos] } else { #InClass::BADTOKEN },
@@end
@@fn Rule::out(int)
params: this pos
requires $pos >= 0,
ensures
    $ret == if $pos < $this.outClass_.len() { $this.outClass_[$pos] } else { #OutClass::BADTOKEN },
@@end
@@fn Rule::isValid()
params: this
ensures
    $ret == ($this.inClass_.len() == $this.outClass_.len() && fgt($this.score_, #f0)),
@@end
