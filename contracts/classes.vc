@@spec
// the documented classes: name and code
pub open spec fn in_name(t: int) -> Str {
    if t == (0int - 1) { #"STOP" } else
    if t == 0int { #"NUMBER" } else
    if t == 1int { #"WORD" } else
    if t == 2int { #"TYPE" } else
    if t == 3int { #"QUALIF" } else
    if t == 6int { #"ROAD" } else
    if t == 7int { #"STOPWORD" } else
    if t == 8int { #"RR" } else
    if t == 9int { #"DASH" } else
    if t == 10int { #"CITY" } else
    if t == 11int { #"PROV" } else
    if t == 12int { #"NATION" } else
    if t == 13int { #"AMPERS" } else
    if t == 14int { #"BOXH" } else
    if t == 15int { #"ORD" } else
    if t == 16int { #"UNITH" } else
    if t == 17int { #"UNITT" } else
    if t == 18int { #"SINGLE" } else
    if t == 19int { #"BUILDH" } else
    if t == 20int { #"MILE" } else
    if t == 21int { #"DOUBLE" } else
    if t == 22int { #"DIRECT" } else
    if t == 23int { #"MIXED" } else
    if t == 24int { #"BUILDT" } else
    if t == 25int { #"FRACT" } else
    if t == 26int { #"PCT" } else
    if t == 27int { #"PCH" } else
    if t == 28int { #"QUINT" } else
    if t == 29int { #"QUAD" } else
    if t == 30int { #"PUNCT" } else
    if t == 31int { #"SPACE" } else
    if t == 32int { #"PLACEN" } else
    if t == 33int { #"EMDASH" } else
    if t == 34int { #"SLASH" } else
    if t == 35int { #"ATSIGN" } else
    if t == 36int { #"COMMA" } else
    { #"BADTOKEN" }
}
pub open spec fn in_code(s: Str) -> int {
    if s == #"STOP" { (0int - 1) } else
    if s == #"NUMBER" { 0int } else
    if s == #"WORD" { 1int } else
    if s == #"TYPE" { 2int } else
    if s == #"QUALIF" { 3int } else
    if s == #"ROAD" { 6int } else
    if s == #"STOPWORD" { 7int } else
    if s == #"RR" { 8int } else
    if s == #"DASH" { 9int } else
    if s == #"CITY" { 10int } else
    if s == #"PROV" { 11int } else
    if s == #"NATION" { 12int } else
    if s == #"AMPERS" { 13int } else
    if s == #"BOXH" { 14int } else
    if s == #"ORD" { 15int } else
    if s == #"UNITH" { 16int } else
    if s == #"UNITT" { 17int } else
    if s == #"SINGLE" { 18int } else
    if s == #"BUILDH" { 19int } else
    if s == #"MILE" { 20int } else
    if s == #"DOUBLE" { 21int } else
    if s == #"DIRECT" { 22int } else
    if s == #"MIXED" { 23int } else
    if s == #"BUILDT" { 24int } else
    if s == #"FRACT" { 25int } else
    if s == #"PCT" { 26int } else
    if s == #"PCH" { 27int } else
    if s == #"QUINT" { 28int } else
    if s == #"QUAD" { 29int } else
    if s == #"PUNCT" { 30int } else
    if s == #"SPACE" { 31int } else
    if s == #"PLACEN" { 32int } else
    if s == #"EMDASH" { 33int } else
    if s == #"SLASH" { 34int } else
    if s == #"ATSIGN" { 35int } else
    if s == #"COMMA" { 36int } else
    { 99int }
}
pub open spec fn in_valid(t: int) -> bool { t == (0int - 1) || t == 0int || t == 1int || t == 2int || t == 3int || t == 6int || t == 7int || t == 8int || t == 9int || t == 10int || t == 11int || t == 12int || t == 13int || t == 14int || t == 15int || t == 16int || t == 17int || t == 18int || t == 19int || t == 20int || t == 21int || t == 22int || t == 23int || t == 24int || t == 25int || t == 26int || t == 27int || t == 28int || t == 29int || t == 30int || t == 31int || t == 32int || t == 33int || t == 34int || t == 35int || t == 36int || t == 99int }
pub open spec fn out_name(t: int) -> Str {
    if t == (0int - 1) { #"STOP" } else
    if t == 0int { #"BLDNG" } else
    if t == 1int { #"HOUSE" } else
    if t == 2int { #"PREDIR" } else
    if t == 3int { #"QUALIF" } else
    if t == 4int { #"PRETYP" } else
    if t == 5int { #"STREET" } else
    if t == 6int { #"SUFTYP" } else
    if t == 7int { #"SUFDIR" } else
    if t == 8int { #"RR" } else
    if t == 9int { #"EXTRA" } else
    if t == 10int { #"CITY" } else
    if t == 11int { #"PROV" } else
    if t == 12int { #"NATION" } else
    if t == 13int { #"POSTAL" } else
    if t == 14int { #"BOXH" } else
    if t == 15int { #"BOXT" } else
    if t == 16int { #"UNITH" } else
    if t == 17int { #"UNITT" } else
    if t == 98int { #"IGNORE" } else
    if t == 99int { #"BADTOKEN" } else
    { #"" }
}
pub open spec fn out_code(s: Str) -> int {
    if s == #"STOP" { (0int - 1) } else
    if s == #"BLDNG" { 0int } else
    if s == #"HOUSE" { 1int } else
    if s == #"PREDIR" { 2int } else
    if s == #"QUALIF" { 3int } else
    if s == #"PRETYP" { 4int } else
    if s == #"STREET" { 5int } else
    if s == #"SUFTYP" { 6int } else
    if s == #"SUFDIR" { 7int } else
    if s == #"RR" { 8int } else
    if s == #"EXTRA" { 9int } else
    if s == #"CITY" { 10int } else
    if s == #"PROV" { 11int } else
    if s == #"NATION" { 12int } else
    if s == #"POSTAL" { 13int } else
    if s == #"BOXH" { 14int } else
    if s == #"BOXT" { 15int } else
    if s == #"UNITH" { 16int } else
    if s == #"UNITT" { 17int } else
    if s == #"IGNORE" { 98int } else
    { 99int }
}
pub open spec fn out_valid(t: int) -> bool { t == (0int - 1) || t == 0int || t == 1int || t == 2int || t == 3int || t == 4int || t == 5int || t == 6int || t == 7int || t == 8int || t == 9int || t == 10int || t == 11int || t == 12int || t == 13int || t == 14int || t == 15int || t == 16int || t == 17int || t == 98int || t == 99int }
pub open spec fn att_name(t: int) -> Str {
    if t == 0int { #"DET_PRE" } else
    if t == 1int { #"DET_SUF" } else
    if t == 2int { #"ATT_PRE" } else
    if t == 3int { #"ATT_SUF" } else
    { #"" }
}
pub open spec fn att_valid(t: int) -> bool { 0 <= t <= 3 }
@@end
@@spec
pub open spec fn blank1() -> Str { #" " }
// a list item without the blanks around it; an item of blanks only is kept
pub open spec fn trimb(s: Str) -> Str {
    let a = str_find_first_not_of(s, blank1());
    let b = str_find_last_not_of(s, blank1());
    if a == npos() { s } else { str_sub(s, a, b - a + 1) }
}
pub open spec fn one_code(w: Str) -> Set<int> { let t = trimb(w); if t.len() > 0 { set![in_code(t)] } else { Set::<int>::empty() } }
pub open spec fn codes_of(s: Str) -> Set<int> decreases s.len() {
    let k = upto(s, 44, 0);
    if 0 <= k < s.len() { one_code(s.subrange(0, k)).union(codes_of(s.subrange(k + 1, s.len() as int))) } else { one_code(s) }
}
pub open spec fn att_code(w: Str) -> Set<int> {
    let t = trimb(w);
    if t == #"DET_PRE" { set![0int] } else if t == #"DET_SUF" { set![1int] } else if t == #"ATT_PRE" { set![2int] } else if t == #"ATT_SUF" { set![3int] } else { Set::<int>::empty() }
}
pub open spec fn atts_of(s: Str) -> Set<int> decreases s.len() {
    let k = upto(s, 44, 0);
    if 0 <= k < s.len() { att_code(s.subrange(0, k)).union(atts_of(s.subrange(k + 1, s.len() as int))) } else { att_code(s) }
}
pub open spec fn names_upto(s: Set<int>, k: int) -> Str decreases k when k >= 0 {
    if k <= 0 { Seq::<int>::empty() } else if k == 1 { in_name(set_items(s)[0]) } else { names_upto(s, k - 1) + #"," + in_name(set_items(s)[k - 1]) }
}
pub open spec fn in_names(s: Set<int>) -> Str { names_upto(s, s.len() as int) }
pub open spec fn atts_upto(s: Set<int>, k: int) -> Str decreases k when k >= 0 {
    if k <= 0 { Seq::<int>::empty() } else if k == 1 { att_name(set_items(s)[0]) } else { atts_upto(s, k - 1) + #"," + att_name(set_items(s)[k - 1]) }
}
pub open spec fn att_names(s: Set<int>) -> Str { atts_upto(s, s.len() as int) }
pub proof fn lemma_trim_bounds(s: Str)
    requires s.len() < npos()
    ensures
        str_find_first_not_of(s, blank1()) == npos() <==> str_find_last_not_of(s, blank1()) == npos(),
        str_find_first_not_of(s, blank1()) != npos() ==> 0 <= str_find_first_not_of(s, blank1()) <= str_find_last_not_of(s, blank1()) < s.len(),
{
    lemma_first_in(s, blank1(), 0, false); lemma_last_in(s, blank1(), s.len() - 1, false);
}
// what the trimming expression computes
pub open spec fn trim_code(s: Str) -> Str {
    let a0 = str_find_first_not_of(s, blank1()); let b0 = str_find_last_not_of(s, blank1());
    let a = if a0 == npos() { 0 } else { a0 }; let b = if b0 == npos() { s.len() as int } else { b0 };
    str_sub(s, a, uadd(usub(b, a), 1))
}
pub proof fn lemma_trim_code(s: Str)
    requires s.len() < npos() - 1
    ensures
        trim_code(s) == trimb(s),
        str_find_first_not_of(s, blank1()) == npos() || str_find_first_not_of(s, blank1()) <= s.len(),
{ lemma_trim_bounds(s); assert(trim_code(s) =~= trimb(s)); }
@@end

@@fn InClass::asString(InClass::Type)
params: t
ensures $ret == in_name($t),
@@end
@@fn InClass::asOneType(string)
params: s
ensures $ret == in_code($s),
@@end
@@fn InClass::asType(int)
params: i
ensures $ret == if in_valid($i) { $i } else { 99 },
@@end
@@fn InClass::asType(string)
params: s
vars: acc Set<int>; buffer Stream
requires $s.len() < npos() - 1,
ensures $ret == codes_of($s),
@@loop 1
invariant_except_break
    !$buffer.eof, !$buffer.fail, $buffer.rest.len() <= $$s.len(),
    codes_of($$s) =~= $acc.union(codes_of($buffer.rest)),
ensures
    codes_of($$s) =~= $acc,
decreases $buffer.rest.len()
@@loopbody 1
let ghost rest0 = $buffer.rest;
lemma_upto(rest0, 44, 0);
let w0 = if upto(rest0, 44, 0) < rest0.len() { rest0.subrange(0, upto(rest0, 44, 0)) } else { rest0 };
lemma_trim_code(w0);
@@return
assert(codes_of($$s) =~= $acc);
@@end
@@fn InClass::asString(set<InClass::Type>)
params: t
vars: str Str
ensures $ret == in_names($t),
@@loop 1
invariant
    0 <= $i <= $$t.len(),
    $str == names_upto($$t, $i),
@@end
@@fn InClass::asAttachType(string)
params: s
vars: buffer Stream; type Set<int>
requires $s.len() < npos() - 1,
ensures $ret == atts_of($s),
@@loop 1
invariant_except_break
    !$buffer.eof, !$buffer.fail, $buffer.rest.len() <= $$s.len(),
    atts_of($$s) =~= $type.union(atts_of($buffer.rest)),
ensures
    atts_of($$s) =~= $type,
decreases $buffer.rest.len()
@@loopbody 1
let ghost rest0 = $buffer.rest;
lemma_upto(rest0, 44, 0);
let w0 = if upto(rest0, 44, 0) < rest0.len() { rest0.subrange(0, upto(rest0, 44, 0)) } else { rest0 };
lemma_trim_code(w0);
@@return
assert(atts_of($$s) =~= $type);
@@end
@@fn InClass::asString(InClass::AttachType)
params: t
ensures $ret == att_name($t),
@@end
@@fn InClass::asString(set<InClass::AttachType>)
params: t
vars: str Str
ensures $ret == att_names($t),
@@loop 1
invariant
    0 <= $i <= $$t.len(),
    $str == atts_upto($$t, $i),
@@end
@@fn OutClass::asString(OutClass::Type)
params: t
ensures $ret == out_name($t),
@@end
@@fn OutClass::asType(string)
params: s
ensures $ret == out_code($s),
@@end
@@fn OutClass::asType(int)
params: i
ensures $ret == if out_valid($i) { $i } else { 99 },
@@end

@@spec C13
pub open spec fn clean(s: Str) -> bool { s.len() > 0 && s.len() < 100 && forall|k: int| 0 <= k < s.len() ==> s[k] > 44 }
pub proof fn C13_in_names_round_trip(t: int)
    requires in_valid(t)
    ensures in_code(in_name(t)) == t
{ lits(); }
pub proof fn C13_unknown_name_is_BADTOKEN(s: Str)
    requires forall|t: int| in_valid(t) ==> s != #[trigger] in_name(t)
    ensures in_code(s) == 99
{ lits(); assert(in_valid(0int - 1) && s != in_name(0int - 1)); assert(in_valid(0int) && s != in_name(0int)); assert(in_valid(1int) && s != in_name(1int)); assert(in_valid(2int) && s != in_name(2int)); assert(in_valid(3int) && s != in_name(3int)); assert(in_valid(6int) && s != in_name(6int)); assert(in_valid(7int) && s != in_name(7int)); assert(in_valid(8int) && s != in_name(8int)); assert(in_valid(9int) && s != in_name(9int)); assert(in_valid(10int) && s != in_name(10int)); assert(in_valid(11int) && s != in_name(11int)); assert(in_valid(12int) && s != in_name(12int)); assert(in_valid(13int) && s != in_name(13int)); assert(in_valid(14int) && s != in_name(14int)); assert(in_valid(15int) && s != in_name(15int)); assert(in_valid(16int) && s != in_name(16int)); assert(in_valid(17int) && s != in_name(17int)); assert(in_valid(18int) && s != in_name(18int)); assert(in_valid(19int) && s != in_name(19int)); assert(in_valid(20int) && s != in_name(20int)); assert(in_valid(21int) && s != in_name(21int)); assert(in_valid(22int) && s != in_name(22int)); assert(in_valid(23int) && s != in_name(23int)); assert(in_valid(24int) && s != in_name(24int)); assert(in_valid(25int) && s != in_name(25int)); assert(in_valid(26int) && s != in_name(26int)); assert(in_valid(27int) && s != in_name(27int)); assert(in_valid(28int) && s != in_name(28int)); assert(in_valid(29int) && s != in_name(29int)); assert(in_valid(30int) && s != in_name(30int)); assert(in_valid(31int) && s != in_name(31int)); assert(in_valid(32int) && s != in_name(32int)); assert(in_valid(33int) && s != in_name(33int)); assert(in_valid(34int) && s != in_name(34int)); assert(in_valid(35int) && s != in_name(35int)); assert(in_valid(36int) && s != in_name(36int)); assert(in_valid(99int) && s != in_name(99int)); }
pub proof fn C13_out_names_round_trip(t: int)
    requires out_valid(t)
    ensures out_code(out_name(t)) == t
{ lits(); }
pub proof fn C13_unknown_out_name_is_BADTOKEN(s: Str)
    requires forall|t: int| out_valid(t) ==> s != #[trigger] out_name(t)
    ensures out_code(s) == 99
{ lits(); assert(out_valid(0int - 1) && s != out_name(0int - 1)); assert(out_valid(0int) && s != out_name(0int)); assert(out_valid(1int) && s != out_name(1int)); assert(out_valid(2int) && s != out_name(2int)); assert(out_valid(3int) && s != out_name(3int)); assert(out_valid(4int) && s != out_name(4int)); assert(out_valid(5int) && s != out_name(5int)); assert(out_valid(6int) && s != out_name(6int)); assert(out_valid(7int) && s != out_name(7int)); assert(out_valid(8int) && s != out_name(8int)); assert(out_valid(9int) && s != out_name(9int)); assert(out_valid(10int) && s != out_name(10int)); assert(out_valid(11int) && s != out_name(11int)); assert(out_valid(12int) && s != out_name(12int)); assert(out_valid(13int) && s != out_name(13int)); assert(out_valid(14int) && s != out_name(14int)); assert(out_valid(15int) && s != out_name(15int)); assert(out_valid(16int) && s != out_name(16int)); assert(out_valid(17int) && s != out_name(17int)); assert(out_valid(98int) && s != out_name(98int)); assert(out_valid(99int) && s != out_name(99int)); }
pub proof fn lemma_clean_in(t: int)
    ensures clean(in_name(t)), in_name(t) != #" "
{ reveal(lit_s_STOP); reveal(lit_s_NUMBER); reveal(lit_s_WORD); reveal(lit_s_TYPE); reveal(lit_s_QUALIF); reveal(lit_s_ROAD); reveal(lit_s_STOPWORD); reveal(lit_s_RR); reveal(lit_s_DASH); reveal(lit_s_CITY); reveal(lit_s_PROV); reveal(lit_s_NATION); reveal(lit_s_AMPERS); reveal(lit_s_BOXH); reveal(lit_s_ORD); reveal(lit_s_UNITH); reveal(lit_s_UNITT); reveal(lit_s_SINGLE); reveal(lit_s_BUILDH); reveal(lit_s_MILE); reveal(lit_s_DOUBLE); reveal(lit_s_DIRECT); reveal(lit_s_MIXED); reveal(lit_s_BUILDT); reveal(lit_s_FRACT); reveal(lit_s_PCT); reveal(lit_s_PCH); reveal(lit_s_QUINT); reveal(lit_s_QUAD); reveal(lit_s_PUNCT); reveal(lit_s_SPACE); reveal(lit_s_PLACEN); reveal(lit_s_EMDASH); reveal(lit_s_SLASH); reveal(lit_s_ATSIGN); reveal(lit_s_COMMA); reveal(lit_s_BADTOKEN); lits(); }
pub proof fn lemma_clean_att(t: int)
    requires att_valid(t)
    ensures clean(att_name(t))
{ reveal(lit_s_DET_PRE); reveal(lit_s_DET_SUF); reveal(lit_s_ATT_PRE); reveal(lit_s_ATT_SUF); }
pub proof fn lemma_trim_clean(s: Str)
    requires clean(s)
    ensures trimb(s) == s
{
    lits();
    lemma_first_in(s, blank1(), 0, false); lemma_last_in(s, blank1(), s.len() - 1, false);
    assert(blank1() =~= seq![32int]);
    assert(!blank1().contains(s[0])); assert(!blank1().contains(s[s.len() - 1]));
    assert(trimb(s) =~= s);
}
pub proof fn lemma_upto_app(a: Str, c: Str, i: int)
    requires 0 <= i <= a.len(), forall|k: int| 0 <= k < a.len() ==> a[k] != 44, c.len() == 0 || c[0] == 44
    ensures upto(a + c, 44, i) == a.len()
    decreases a.len() - i
{ if i < a.len() { assert((a + c)[i] == a[i]); lemma_upto_app(a, c, i + 1); } else if c.len() > 0 { assert((a + c)[i] == 44); } }
// names joined by commas, first part first
pub open spec fn join_from(ns: Seq<Str>, k: int) -> Str decreases ns.len() - k when k >= 0 {
    if k >= ns.len() { Seq::<int>::empty() } else if k + 1 == ns.len() { ns[k] } else { ns[k] + #"," + join_from(ns, k + 1) }
}
pub open spec fn join_upto(ns: Seq<Str>, k: int) -> Str decreases k when k >= 0 {
    if k <= 0 { Seq::<int>::empty() } else if k == 1 { ns[0] } else { join_upto(ns, k - 1) + #"," + ns[k - 1] }
}
pub proof fn lemma_join(ns: Seq<Str>, k: int)
    requires 1 <= k <= ns.len()
    ensures join_upto(ns, ns.len() as int) == if k == ns.len() { join_upto(ns, k) } else { join_upto(ns, k) + #"," + join_from(ns, k) }
    decreases ns.len() - k
{
    if k < ns.len() {
        lemma_join(ns, k + 1);
        let x = join_upto(ns, k); let c = #","; 
        if k + 1 < ns.len() { assert((x + c + ns[k]) + c + join_from(ns, k + 1) =~= x + c + (ns[k] + c + join_from(ns, k + 1))); }
    }
}
pub proof fn lemma_join_all(ns: Seq<Str>)
    ensures join_upto(ns, ns.len() as int) == join_from(ns, 0)
{ if ns.len() > 0 { lemma_join(ns, 1); } }
pub open spec fn set_from(cs: Seq<int>, k: int) -> Set<int> decreases cs.len() - k when k >= 0 { if k >= cs.len() { Set::<int>::empty() } else { set![cs[k]].union(set_from(cs, k + 1)) } }
pub proof fn lemma_set_from(cs: Seq<int>, k: int, x: int)
    requires 0 <= k <= cs.len()
    ensures set_from(cs, k).contains(x) <==> exists|i: int| k <= i < cs.len() && #[trigger] cs[i] == x
    decreases cs.len() - k
{ if k < cs.len() { lemma_set_from(cs, k + 1, x); } }
pub proof fn lemma_codes_join(cs: Seq<int>, k: int)
    requires 0 <= k < cs.len(), forall|i: int| 0 <= i < cs.len() ==> in_valid(#[trigger] cs[i])
    ensures codes_of(join_from(cs.map_values(|t: int| in_name(t)), k)) == set_from(cs, k)
    decreases cs.len() - k
{
    lits();
    let ns = cs.map_values(|t: int| in_name(t));
    let n = ns[k];
    lemma_clean_in(cs[k]); lemma_trim_clean(n); C13_in_names_round_trip(cs[k]);
    if k + 1 < cs.len() {
        lemma_codes_join(cs, k + 1);
        let rest = join_from(ns, k + 1);
        let c = #"," + rest;
        let s = n + #"," + rest;
        assert(s =~= n + c);
        lemma_upto_app(n, c, 0int);
        assert(s.subrange(0, n.len() as int) =~= n);
        assert(s.subrange(n.len() as int + 1, s.len() as int) =~= rest);
    } else {
        let e = Seq::<int>::empty();
        assert(n + e =~= n);
        lemma_upto_app(n, e, 0int);
        assert(set_from(cs, k + 1) =~= Set::<int>::empty());
        assert(set_from(cs, k) =~= set![cs[k]]);
    }
}
pub proof fn lemma_names_join(s: Set<int>, k: int)
    requires 0 <= k <= s.len()
    ensures names_upto(s, k) == join_upto(set_items(s).map_values(|t: int| in_name(t)), k)
    decreases k
{ broadcast use containers; if k > 0 { lemma_names_join(s, k - 1); } }
pub proof fn C13_class_sets_round_trip(s: Set<int>)
    requires s.len() > 0, forall|t: int| #[trigger] s.contains(t) ==> in_valid(t)
    ensures codes_of(in_names(s)) == s
{
    broadcast use containers;
    let cs = set_items(s);
    assert forall|i: int| 0 <= i < cs.len() implies in_valid(#[trigger] cs[i]) by { assert(s.contains(cs[i])); }
    lemma_names_join(s, s.len() as int);
    lemma_join_all(cs.map_values(|t: int| in_name(t)));
    lemma_codes_join(cs, 0);
    assert forall|x: int| set_from(cs, 0).contains(x) <==> s.contains(x) by {
        lemma_set_from(cs, 0, x);
        if s.contains(x) { assert(cs[set_idx(s, x)] == x); }
    }
    assert(set_from(cs, 0) =~= s);
}
pub proof fn C13_empty_class_set(s: Set<int>)
    requires s.len() == 0
    ensures in_names(s) == Seq::<int>::empty(), codes_of(in_names(s)) == Set::<int>::empty()
{ }
pub open spec fn att_codes_of(w: Str) -> Set<int> { att_code(w) }
pub proof fn lemma_atts_join(cs: Seq<int>, k: int)
    requires 0 <= k < cs.len(), forall|i: int| 0 <= i < cs.len() ==> att_valid(#[trigger] cs[i])
    ensures atts_of(join_from(cs.map_values(|t: int| att_name(t)), k)) == set_from(cs, k)
    decreases cs.len() - k
{
    lits();
    let ns = cs.map_values(|t: int| att_name(t));
    let n = ns[k];
    lemma_clean_att(cs[k]); lemma_trim_clean(n);
    assert(att_code(n) == set![cs[k]]);
    if k + 1 < cs.len() {
        lemma_atts_join(cs, k + 1);
        let rest = join_from(ns, k + 1);
        let c = #"," + rest;
        let s = n + #"," + rest;
        assert(s =~= n + c);
        lemma_upto_app(n, c, 0int);
        assert(s.subrange(0, n.len() as int) =~= n);
        assert(s.subrange(n.len() as int + 1, s.len() as int) =~= rest);
    } else {
        let e = Seq::<int>::empty();
        assert(n + e =~= n);
        lemma_upto_app(n, e, 0int);
        assert(set_from(cs, k + 1) =~= Set::<int>::empty());
        assert(set_from(cs, k) =~= set![cs[k]]);
    }
}
pub proof fn lemma_att_names_join(s: Set<int>, k: int)
    requires 0 <= k <= s.len()
    ensures atts_upto(s, k) == join_upto(set_items(s).map_values(|t: int| att_name(t)), k)
    decreases k
{ broadcast use containers; if k > 0 { lemma_att_names_join(s, k - 1); } }
pub proof fn C13_attachment_sets_round_trip(s: Set<int>)
    requires s.len() > 0, forall|t: int| #[trigger] s.contains(t) ==> att_valid(t)
    ensures atts_of(att_names(s)) == s
{
    broadcast use containers;
    let cs = set_items(s);
    assert forall|i: int| 0 <= i < cs.len() implies att_valid(#[trigger] cs[i]) by { assert(s.contains(cs[i])); }
    lemma_att_names_join(s, s.len() as int);
    lemma_join_all(cs.map_values(|t: int| att_name(t)));
    lemma_atts_join(cs, 0);
    assert forall|x: int| set_from(cs, 0).contains(x) <==> s.contains(x) by {
        lemma_set_from(cs, 0, x);
        if s.contains(x) { assert(cs[set_idx(s, x)] == x); }
    }
    assert(set_from(cs, 0) =~= s);
}
@@end
