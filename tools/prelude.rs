// ---- C++ values as mathematical values -------------------------------------------------
pub type Str = Seq<int>;                    // bytes of a std::string, as signed chars
pub type CStr = Option<Str>;                // a char* that may be null
#[verifier::ext_equal]
pub struct F { pub bits: int }              // a float or double: its representation
pub struct Regex { pub src: Str, pub icase: bool }
pub struct SMatch { pub groups: Seq<(int, int)> }
pub struct Stream { pub rest: Str, pub eof: bool, pub fail: bool }
pub struct StrIt { pub base: Str, pub pos: int }
pub ghost enum Exc<T> { Val { val: T }, Threw { msg: Str, kind: int } }

#[verifier::external_body]
pub fn truth(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }

#[verifier::external_body]
pub fn any_bool() -> (r: Ghost<bool>) { unimplemented!() }

// std::sort: the comparison has to be a strict weak order on the elements
pub open spec fn weak_order<A>(s: Seq<A>, c: spec_fn(A, A) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !#[trigger] c(s[i], s[i])
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] c(s[i], s[j]) ==> !c(s[j], s[i])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[j]) && #[trigger] c(s[j], s[k]) ==> c(s[i], s[k])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[k]) ==> #[trigger] c(s[i], s[j]) || c(s[j], s[k])
}
pub open spec fn in_order<A>(s: Seq<A>, c: spec_fn(A, A) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !#[trigger] c(s[j], s[i]) }
#[verifier::external_body]
pub fn std_sort<A>(s: Ghost<Seq<A>>, c: Ghost<spec_fn(A, A) -> bool>) -> (r: Ghost<Seq<A>>)
    requires weak_order(s@, c@),
    ensures r@.to_multiset() == s@.to_multiset(), r@.len() == s@.len(), in_order(r@, c@),
{ unimplemented!() }

// boost archives: what opening and reading gives, and what is left when they give up, are uninterpreted functions; what is saved
// is a sequence of items; the contract files say (as axioms) which items load back, and how an object is loaded by its own member
pub struct Item { pub x: u8 }
pub ghost struct Archive { pub loading: bool, pub items: Seq<Item> }
pub uninterp spec fn archive_opened(s: Stream) -> (Exc<Archive>, Stream);
pub uninterp spec fn archive_got<A>(a: Archive, x: A) -> (Exc<bool>, Archive, A);
pub uninterp spec fn item<A>(x: A) -> Item;
pub uninterp spec fn object<A>(version: int, members: Seq<Item>, x: A) -> Item;
pub uninterp spec fn archive_head() -> Str;
pub uninterp spec fn item_text(i: Item) -> Str;
pub open spec fn archive_new() -> Archive { Archive { loading: false, items: Seq::empty() } }
pub open spec fn archive_put(a: Archive, i: Item) -> Archive { Archive { items: a.items.push(i), ..a } }
pub open spec fn archive_io<A>(a: Archive, x: A) -> (Exc<bool>, Archive, A) { if a.loading { archive_got(a, x) } else { (Exc::Val { val: true }, archive_put(a, item(x)), x) } }
#[verifier::external_body]
pub fn archive_open(s: Ghost<Stream>) -> (r: Ghost<(Exc<Archive>, Stream)>) ensures r@ == archive_opened(s@), r@.0 is Val ==> r@.0->val.loading { unimplemented!() }
#[verifier::external_body]
pub fn archive_read<A>(a: Ghost<Archive>, x: Ghost<A>) -> (r: Ghost<(Exc<bool>, Archive, A)>) ensures r@ == archive_got(a@, x@), r@.1.loading == a@.loading { unimplemented!() }
#[verifier::external_body]
pub fn archive_amp<A>(a: Ghost<Archive>, x: Ghost<A>) -> (r: Ghost<(Exc<bool>, Archive, A)>) ensures r@ == archive_io(a@, x@) { unimplemented!() }

pub open spec fn npos() -> int { 0xffff_ffff_ffff_ffff }
pub open spec fn uadd(a: int, b: int) -> int { (a + b) % 0x1_0000_0000_0000_0000 }
pub open spec fn usub(a: int, b: int) -> int { (a - b) % 0x1_0000_0000_0000_0000 }
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn pow2i(n: int) -> int decreases n when n >= 0 { if n <= 0 { 1 } else { 2 * pow2i(n - 1) } }

// machine words
pub open spec fn w32(a: int) -> u32 { (a % 0x1_0000_0000) as u32 }
pub open spec fn sgn32(a: u32) -> int { if a >= 0x8000_0000u32 { a as int - 0x1_0000_0000 } else { a as int } }
pub open spec fn bandu(a: int, b: int) -> int { (w32(a) & w32(b)) as int }
pub open spec fn boru(a: int, b: int) -> int { (w32(a) | w32(b)) as int }
pub open spec fn bands(a: int, b: int) -> int { sgn32(w32(a) & w32(b)) }
pub open spec fn bors(a: int, b: int) -> int { sgn32(w32(a) | w32(b)) }
pub open spec fn to_uchar(a: int) -> int { a % 256 }
pub open spec fn to_schar(a: int) -> int { let r = a % 256; if r >= 128 { r - 256 } else { r } }
pub open spec fn wrap32(a: int) -> int { a % 0x1_0000_0000 }
pub open spec fn wrap64(a: int) -> int { a % 0x1_0000_0000_0000_0000 }

// floating point: uninterpreted
pub uninterp spec fn fadd32(a: F, b: F) -> F;
pub uninterp spec fn fadd64(a: F, b: F) -> F;
pub uninterp spec fn fsub32(a: F, b: F) -> F;
pub uninterp spec fn fsub64(a: F, b: F) -> F;
pub uninterp spec fn fmul32(a: F, b: F) -> F;
pub uninterp spec fn fmul64(a: F, b: F) -> F;
pub uninterp spec fn fdiv32(a: F, b: F) -> F;
pub uninterp spec fn fdiv64(a: F, b: F) -> F;
pub uninterp spec fn fgt(a: F, b: F) -> bool;
pub uninterp spec fn fge(a: F, b: F) -> bool;
pub uninterp spec fn feq(a: F, b: F) -> bool;
pub uninterp spec fn f_of_int32(a: int) -> F;
pub uninterp spec fn f_of_int64(a: int) -> F;
pub uninterp spec fn f32to64(a: F) -> F;
pub uninterp spec fn f64to32(a: F) -> F;
pub uninterp spec fn atof_val(s: Str) -> F;

// ---- containers --------------------------------------------------------------------------
pub uninterp spec fn set_items(s: Set<int>) -> Seq<int>;        // ascending
pub uninterp spec fn set_idx(s: Set<int>, x: int) -> int;
pub open spec fn set_pos(s: Set<int>, x: int) -> int { if s.contains(x) { set_idx(s, x) } else { s.len() as int } }
#[verifier::external_body]
pub broadcast proof fn axiom_set_items(s: Set<int>)
    ensures
        (#[trigger] set_items(s)).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> s.contains(#[trigger] set_items(s)[i]),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] set_items(s)[i]) < (#[trigger] set_items(s)[j]),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_set_idx(s: Set<int>, x: int)
    ensures
        s.contains(x) ==> 0 <= (#[trigger] set_idx(s, x)) < s.len() && set_items(s)[set_idx(s, x)] == x,
{}
pub uninterp spec fn strset_items(s: Set<Str>) -> Seq<Str>;
pub uninterp spec fn strset_idx(s: Set<Str>, x: Str) -> int;
pub open spec fn strset_pos(s: Set<Str>, x: Str) -> int { if s.contains(x) { strset_idx(s, x) } else { s.len() as int } }
#[verifier::external_body]
pub broadcast proof fn axiom_strset_items(s: Set<Str>)
    ensures
        (#[trigger] strset_items(s)).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> s.contains(#[trigger] strset_items(s)[i]),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] strset_items(s)[i]) != (#[trigger] strset_items(s)[j]),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_strset_idx(s: Set<Str>, x: Str)
    ensures
        s.contains(x) ==> 0 <= (#[trigger] strset_idx(s, x)) < s.len() && strset_items(s)[strset_idx(s, x)] == x,
{}
pub uninterp spec fn map_keys<K, V>(m: Map<K, V>) -> Seq<K>;
pub uninterp spec fn map_idx<K, V>(m: Map<K, V>, k: K) -> int;
pub open spec fn map_pos<K, V>(m: Map<K, V>, k: K) -> int { if m.dom().contains(k) { map_idx(m, k) } else { map_keys(m).len() as int } }
#[verifier::external_body]
pub broadcast proof fn axiom_map_keys<K, V>(m: Map<K, V>)
    ensures
        (#[trigger] map_keys(m)).len() == m.dom().len(),
        forall|i: int| 0 <= i < map_keys(m).len() ==> m.dom().contains(#[trigger] map_keys(m)[i]),
        forall|i: int, j: int| 0 <= i < j < map_keys(m).len() ==> (#[trigger] map_keys(m)[i]) != (#[trigger] map_keys(m)[j]),
{}
#[verifier::external_body]
pub broadcast proof fn axiom_map_idx<K, V>(m: Map<K, V>, k: K)
    ensures
        m.dom().contains(k) ==> 0 <= (#[trigger] map_idx(m, k)) < map_keys(m).len() && map_keys(m)[map_idx(m, k)] == k,
{}
pub broadcast group containers { axiom_set_items, axiom_set_idx, axiom_strset_items, axiom_strset_idx, axiom_map_keys, axiom_map_idx, axiom_str_cmp }

pub open spec fn seq_rep<A>(n: int, a: A) -> Seq<A> { Seq::new(n as nat, |i: int| a) }
pub open spec fn seq_insert<A>(s: Seq<A>, p: int, t: Seq<A>) -> Seq<A> { s.subrange(0, p) + t + s.subrange(p, s.len() as int) }
pub open spec fn seq_resize<A>(s: Seq<A>, n: int, d: A) -> Seq<A> {
    if n <= s.len() { s.subrange(0, n) } else { s + seq_rep(n - s.len(), d) }
}

// ---- strings -----------------------------------------------------------------------------
pub open spec fn str_at(s: Str, i: int) -> int { if 0 <= i < s.len() { s[i] } else { 0 } }
pub open spec fn str_sub(s: Str, p: int, n: int) -> Str { s.subrange(p, min(p + n, s.len() as int)) }
pub open spec fn str_rep(n: int, c: int) -> Str { seq_rep(n, c) }
pub open spec fn str_resize(s: Str, n: int) -> Str { seq_resize(s, n, 0) }
pub open spec fn str_erase(s: Str, p: int, n: int) -> Str { s.subrange(0, p) + s.subrange(min(p + n, s.len() as int), s.len() as int) }
pub open spec fn first_in(s: Str, set: Str, i: int, want: bool) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { npos() } else if set.contains(s[i]) == want { i } else { first_in(s, set, i + 1, want) }
}
pub open spec fn last_in(s: Str, set: Str, i: int, want: bool) -> int
    decreases i + 1
{
    if i < 0 || i >= s.len() { npos() } else if set.contains(s[i]) == want { i } else { last_in(s, set, i - 1, want) }
}
pub open spec fn str_find_first_of(s: Str, set: Str) -> int { first_in(s, set, 0, true) }
pub open spec fn str_find_first_not_of(s: Str, set: Str) -> int { first_in(s, set, 0, false) }
pub open spec fn str_find_last_not_of(s: Str, set: Str) -> int { last_in(s, set, s.len() - 1, false) }
pub open spec fn find_from(s: Str, t: Str, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i > s.len() || i + t.len() > s.len() { npos() } else if s.subrange(i, i + t.len() as int) == t { i } else if i >= s.len() { npos() } else { find_from(s, t, i + 1) }
}
pub open spec fn str_find(s: Str, t: Str) -> int { find_from(s, t, 0) }
pub proof fn lemma_first_in(s: Str, set: Str, i: int, want: bool)
    requires 0 <= i, s.len() < npos()
    ensures ({
        let r = first_in(s, set, i, want);
        &&& r == npos() || (i <= r < s.len() && set.contains(s[r]) == want)
        &&& forall|k: int| i <= k < s.len() && (r == npos() || k < r) ==> set.contains(#[trigger] s[k]) != want
    })
    decreases s.len() - i
{
    if i < s.len() && set.contains(s[i]) != want { lemma_first_in(s, set, i + 1, want); }
    assert forall|k: int| i <= k < s.len() && (first_in(s, set, i, want) == npos() || k < first_in(s, set, i, want))
        implies set.contains(#[trigger] s[k]) != want by { if k > i { assert(i + 1 <= k); } }
}
pub proof fn lemma_last_in(s: Str, set: Str, i: int, want: bool)
    requires -1 <= i < s.len(), s.len() < npos()
    ensures ({
        let r = last_in(s, set, i, want);
        &&& r == npos() || (0 <= r <= i && set.contains(s[r]) == want)
        &&& forall|k: int| 0 <= k <= i && (r == npos() || k > r) ==> set.contains(#[trigger] s[k]) != want
    })
    decreases i + 1
{
    if 0 <= i && set.contains(s[i]) != want { lemma_last_in(s, set, i - 1, want); }
    assert forall|k: int| 0 <= k <= i && (last_in(s, set, i, want) == npos() || k > last_in(s, set, i, want))
        implies set.contains(#[trigger] s[k]) != want by { if k < i { assert(k <= i - 1); } }
}
pub uninterp spec fn str_lt(a: Str, b: Str) -> bool;
pub uninterp spec fn str_cmp(a: Str, b: Str) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_str_cmp(a: Str, b: Str) ensures (#[trigger] str_cmp(a, b) == 0) <==> (a == b) {}
pub uninterp spec fn int_to_str(n: int) -> Str;
pub uninterp spec fn float_to_str(x: F) -> Str;
// boost::trim_if(is_any_of(set))
pub open spec fn trim_l(s: Str, set: Str) -> Str decreases s.len() {
    if s.len() > 0 && set.contains(s[0]) { trim_l(s.subrange(1, s.len() as int), set) } else { s }
}
pub open spec fn trim_r(s: Str, set: Str) -> Str decreases s.len() {
    if s.len() > 0 && set.contains(s.last()) { trim_r(s.drop_last(), set) } else { s }
}
pub open spec fn str_trim(s: Str, set: Str) -> Str { trim_l(trim_r(s, set), set) }
// boost::algorithm::join
pub open spec fn str_join(l: Seq<Str>, sep: Str) -> Str decreases l.len() {
    if l.len() == 0 { Seq::<int>::empty() } else if l.len() == 1 { l[0] } else { str_join(l.drop_last(), sep) + sep + l.last() }
}
// boost::split(is_any_of(set)); with compression adjacent separators count once
pub open spec fn split_from(s: Str, set: Str, compress: bool, start: int, i: int) -> Seq<Str>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { seq![s.subrange(start, s.len() as int)] }
    else if set.contains(s[i]) {
        let k = if compress { skip_in(s, set, i) } else { i + 1 };
        if k <= i || k > s.len() { seq![] } else { seq![s.subrange(start, i)] + split_from(s, set, compress, k, k) }
    } else { split_from(s, set, compress, start, i + 1) }
}
pub open spec fn skip_in(s: Str, set: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || !set.contains(s[i]) { i } else { skip_in(s, set, i + 1) }
}
pub open spec fn str_split(s: Str, set: Str, compress: bool) -> Seq<Str> { split_from(s, set, compress, 0, 0) }

// ---- streams -----------------------------------------------------------------------------
pub open spec fn stream_of(s: Str) -> Stream { Stream { rest: s, eof: false, fail: false } }
pub open spec fn is_ws(c: int) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn upto(s: Str, d: int, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || s[i] == d { i } else { upto(s, d, i + 1) }
}
pub open spec fn ws_end(s: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || !is_ws(s[i]) { i } else { ws_end(s, i + 1) }
}
pub open spec fn word_end(s: Str, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || is_ws(s[i]) { i } else { word_end(s, i + 1) }
}
pub proof fn lemma_upto(s: Str, d: int, i: int)
    requires 0 <= i <= s.len()
    ensures i <= upto(s, d, i) <= s.len(), upto(s, d, i) < s.len() ==> s[upto(s, d, i)] == d,
        forall|k: int| i <= k < upto(s, d, i) ==> s[k] != d
    decreases s.len() - i
{ if i < s.len() && s[i] != d { lemma_upto(s, d, i + 1); } }
pub proof fn lemma_ws_end(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures i <= ws_end(s, i) <= s.len(), ws_end(s, i) < s.len() ==> !is_ws(s[ws_end(s, i)]),
    decreases s.len() - i
{ if i < s.len() && is_ws(s[i]) { lemma_ws_end(s, i + 1); } }
pub proof fn lemma_word_end(s: Str, i: int)
    requires 0 <= i <= s.len()
    ensures i <= word_end(s, i) <= s.len(), word_end(s, i) < s.len() ==> is_ws(s[word_end(s, i)]),
    decreases s.len() - i
{ if i < s.len() && !is_ws(s[i]) { lemma_word_end(s, i + 1); } }
// std::getline: a failed sentry leaves the string alone (libstdc++)
pub open spec fn line_read(st: Stream, old: Str, d: int) -> (Stream, Str) {
    if st.fail || st.eof { (Stream { fail: true, ..st }, old) }
    else {
        let k = upto(st.rest, d, 0);
        if k < st.rest.len() { (Stream { rest: st.rest.subrange(k + 1, st.rest.len() as int), ..st }, st.rest.subrange(0, k)) }
        else { (Stream { rest: Seq::<int>::empty(), eof: true, fail: st.rest.len() == 0 }, st.rest) }
    }
}
// operator>>(istream&, string&)
pub open spec fn word_read(st: Stream, old: Str) -> (Stream, Str) {
    if st.fail || st.eof { (Stream { fail: true, ..st }, old) }
    else {
        let a = ws_end(st.rest, 0);
        if a >= st.rest.len() { (Stream { rest: Seq::<int>::empty(), eof: true, fail: true }, old) }
        else {
            let b = word_end(st.rest, a);
            (Stream { rest: st.rest.subrange(b, st.rest.len() as int), eof: b >= st.rest.len(), fail: false }, st.rest.subrange(a, b))
        }
    }
}

// ---- regular expressions: uninterpreted ----------------------------------------------------
pub open spec fn re_make(s: Str, icase: bool) -> Regex { Regex { src: s, icase: icase } }
// an expression under match flags: 0 stands for the default
pub uninterp spec fn match_flag(name: int) -> int;
pub uninterp spec fn flag_or(a: int, b: int) -> int;
pub uninterp spec fn re_flagged(r: Regex, flags: int) -> Regex;
pub open spec fn re_with(r: Regex, flags: int) -> Regex { if flags == 0 { r } else { re_flagged(r, flags) } }
pub uninterp spec fn re_match(r: Regex, s: Str) -> bool;
pub uninterp spec fn re_match_groups(r: Regex, s: Str) -> Seq<(int, int)>;
pub uninterp spec fn re_search(r: Regex, s: Str) -> bool;
pub uninterp spec fn re_search_groups(r: Regex, s: Str) -> Seq<(int, int)>;
pub uninterp spec fn re_replace(r: Regex, s: Str, fmt: Str) -> Str;
pub open spec fn shift_groups(g: Seq<(int, int)>, k: int) -> Seq<(int, int)> { Seq::new(g.len(), |i: int| (g[i].0 + k, g[i].1 + k)) }
pub open spec fn submatch_text(base: Str, g: (int, int)) -> Str { base.subrange(g.0, g.1) }
