@@uses utf8
@@spec
// ---- text as code points -----------------------------------------------------------------
pub open spec fn utf8_head(s: Str) -> bool {
    room(s, 0) && cp_ok(dec_at(s, 0)) && enc(dec_at(s, 0)) == s.subrange(0, seq_len(s[0]))
}
pub open spec fn rest(s: Str) -> Str { s.subrange(seq_len(s[0]), s.len() as int) }
pub open spec fn utf8(s: Str) -> bool decreases s.len() { s.len() == 0 || (utf8_head(s) && utf8(rest(s))) }
pub open spec fn cps(s: Str) -> Seq<int> decreases s.len() {
    if s.len() == 0 || !room(s, 0) { Seq::<int>::empty() } else { seq![dec_at(s, 0)] + cps(rest(s)) }
}
pub open spec fn tail(w: Seq<int>) -> Seq<int> { w.subrange(1, w.len() as int) }
pub proof fn lemma_cps(s: Str)
    requires utf8(s), s.len() > 0
    ensures room(s, 0), cps(s).len() > 0, cps(s)[0] == dec_at(s, 0), tail(cps(s)) == cps(rest(s)), utf8(rest(s)), cp_ok(dec_at(s, 0)), enc(dec_at(s, 0)) + rest(s) == s, rest(s).len() < s.len()
{
    assert(tail(cps(s)) =~= cps(rest(s)));
    assert(enc(dec_at(s, 0)) + rest(s) =~= s);
}
pub proof fn lemma_cps_empty(s: Str)
    requires utf8(s)
    ensures (s.len() == 0) == (cps(s).len() == 0)
{}

// ---- the set of words of a tree ---------------------------------------------------------------
pub open spec fn kid(t: TrieUtf8, c: int) -> bool { t._children.dom().contains(c) && t._children[c] is Some }
pub open spec fn kid_of(t: TrieUtf8, c: int) -> TrieUtf8 { t._children[c]->0 }
pub open spec fn inw(t: TrieUtf8, w: Seq<int>) -> bool decreases w.len() {
    if w.len() == 0 { t._isEnd } else { kid(t, w[0]) && inw(kid_of(t, w[0]), tail(w)) }
}
pub open spec fn any_word(t: TrieUtf8) -> bool { t._isEnd || t._children.dom().len() > 0 }
pub open spec fn wf(t: TrieUtf8) -> bool decreases t {
    forall|c: int| #[trigger] t._children.dom().contains(c) ==> cp_ok(c) && t._children[c] is Some && any_word(t._children[c]->0) && wf(t._children[c]->0)
}
pub open spec fn begins(t: TrieUtf8, p: Seq<int>) -> bool decreases p.len() {
    p.len() == 0 || (kid(t, p[0]) && begins(kid_of(t, p[0]), tail(p)))
}
pub open spec fn listed(t: TrieUtf8, pre: Str, s: Str) -> bool { exists|w: Seq<int>| #[trigger] inw(t, w) && s == pre + enc_all(w) }
pub open spec fn starts(w: Seq<int>, p: Seq<int>) -> bool { p.len() <= w.len() && w.subrange(0, p.len() as int) == p }
pub open spec fn listed_from(t: TrieUtf8, p: Seq<int>, pre: Str, s: Str) -> bool { exists|w: Seq<int>| #[trigger] inw(t, w) && starts(w, p) && s == pre + enc_all(w) }
pub open spec fn listed_kid(t: TrieUtf8, n: int, pre: Str, s: Str) -> bool {
    exists|k: int| 0 <= k < n && #[trigger] listed(kid_of(t, map_keys(t._children)[k]), pre + enc(map_keys(t._children)[k]), s)
}
pub proof fn lemma_kid(t: TrieUtf8, k: int)
    requires wf(t), 0 <= k < map_keys(t._children).len()
    ensures ({ let c = map_keys(t._children)[k]; kid(t, c) && cp_ok(c) && wf(kid_of(t, c)) && any_word(kid_of(t, c)) })
{
    broadcast use containers;
    assert(t._children.dom().contains(map_keys(t._children)[k]));
}
pub proof fn lemma_key_of(t: TrieUtf8, c: int)
    requires kid(t, c)
    ensures ({ let k = map_idx(t._children, c); 0 <= k < map_keys(t._children).len() && map_keys(t._children)[k] == c })
{ broadcast use containers; }
pub proof fn lemma_push_front(pre: Str, c: int, w: Seq<int>)
    requires w.len() > 0, w[0] == c
    ensures pre + enc_all(w) == (pre + enc(c)) + enc_all(tail(w))
{ assert(pre + enc_all(w) =~= (pre + enc(c)) + enc_all(tail(w))); }
pub open spec fn cons(c: int, w: Seq<int>) -> Seq<int> { seq![c] + w }
pub proof fn lemma_cons(c: int, w: Seq<int>)
    ensures cons(c, w).len() > 0, cons(c, w)[0] == c, tail(cons(c, w)) == w
{ assert(tail(cons(c, w)) =~= w); }
pub proof fn lemma_listed(t: TrieUtf8, pre: Str, s: Str)
    requires wf(t)
    ensures listed(t, pre, s) <==> (t._isEnd && s == pre) || listed_kid(t, map_keys(t._children).len() as int, pre, s)
{
    let n = map_keys(t._children).len() as int;
    assert(pre + enc_all(Seq::<int>::empty()) =~= pre);
    if listed(t, pre, s) {
        let w = choose|w: Seq<int>| #[trigger] inw(t, w) && s == pre + enc_all(w);
        if w.len() > 0 {
            lemma_key_of(t, w[0]); lemma_push_front(pre, w[0], w);
            let k = map_idx(t._children, w[0]);
            assert(inw(kid_of(t, w[0]), tail(w)));
            assert(listed(kid_of(t, map_keys(t._children)[k]), pre + enc(map_keys(t._children)[k]), s));
        } else { assert(w =~= Seq::<int>::empty()); }
    }
    if t._isEnd && s == pre { assert(inw(t, Seq::<int>::empty())); assert(listed(t, pre, s)); }
    if listed_kid(t, n, pre, s) {
        let k = choose|k: int| 0 <= k < n && #[trigger] listed(kid_of(t, map_keys(t._children)[k]), pre + enc(map_keys(t._children)[k]), s);
        let c = map_keys(t._children)[k];
        lemma_kid(t, k);
        let w = choose|w: Seq<int>| #[trigger] inw(kid_of(t, c), w) && s == (pre + enc(c)) + enc_all(w);
        let x = cons(c, w);
        lemma_cons(c, w); lemma_push_front(pre, c, x);
        assert(inw(t, x));
    }
}
pub proof fn lemma_listed_kid_step(t: TrieUtf8, n: int, pre: Str, s: Str)
    requires 0 <= n
    ensures listed_kid(t, n + 1, pre, s) <==> listed_kid(t, n, pre, s) || listed(kid_of(t, map_keys(t._children)[n]), pre + enc(map_keys(t._children)[n]), s)
{
    let c = map_keys(t._children)[n];
    if listed_kid(t, n + 1, pre, s) {
        let k = choose|k: int| 0 <= k < n + 1 && #[trigger] listed(kid_of(t, map_keys(t._children)[k]), pre + enc(map_keys(t._children)[k]), s);
        if k < n { assert(listed_kid(t, n, pre, s)); }
    }
    if listed(kid_of(t, c), pre + enc(c), s) { assert(listed_kid(t, n + 1, pre, s)); }
    if listed_kid(t, n, pre, s) {
        let k = choose|k: int| 0 <= k < n && #[trigger] listed(kid_of(t, map_keys(t._children)[k]), pre + enc(map_keys(t._children)[k]), s);
        assert(0 <= k < n + 1);
    }
}
pub proof fn lemma_listed_from(t: TrieUtf8, p: Seq<int>, pre: Str, s: Str)
    requires wf(t)
    ensures
        p.len() == 0 ==> (listed_from(t, p, pre, s) <==> listed(t, pre, s)),
        p.len() > 0 ==> (listed_from(t, p, pre, s) <==> kid(t, p[0]) && listed_from(kid_of(t, p[0]), tail(p), pre + enc(p[0]), s)),
{
    if p.len() == 0 {
        if listed(t, pre, s) {
            let w = choose|w: Seq<int>| #[trigger] inw(t, w) && s == pre + enc_all(w);
            assert(w.subrange(0, 0) =~= p); assert(inw(t, w) && starts(w, p));
        }
    } else {
        if listed_from(t, p, pre, s) {
            let w = choose|w: Seq<int>| #[trigger] inw(t, w) && starts(w, p) && s == pre + enc_all(w);
            assert(w.subrange(0, p.len() as int)[0] == w[0]);
            lemma_push_front(pre, p[0], w);
            assert(tail(w).subrange(0, tail(p).len() as int) =~= tail(p)) by {
                assert forall|i: int| 0 <= i < tail(p).len() implies tail(w)[i] == tail(p)[i] by { assert(w.subrange(0, p.len() as int)[i + 1] == w[i + 1]); }
            }
            assert(inw(kid_of(t, p[0]), tail(w)) && starts(tail(w), tail(p)));
        }
        if kid(t, p[0]) && listed_from(kid_of(t, p[0]), tail(p), pre + enc(p[0]), s) {
            let w = choose|w: Seq<int>| #[trigger] inw(kid_of(t, p[0]), w) && starts(w, tail(p)) && s == (pre + enc(p[0])) + enc_all(w);
            let x = cons(p[0], w);
            lemma_cons(p[0], w); lemma_push_front(pre, p[0], x);
            assert(x.subrange(0, p.len() as int) =~= p) by {
                assert forall|i: int| 0 <= i < p.len() implies x[i] == p[i] by { if i > 0 { assert(w.subrange(0, tail(p).len() as int)[i - 1] == w[i - 1]); assert(tail(p)[i - 1] == p[i]); } }
            }
            assert(inw(t, x) && starts(x, p));
        }
    }
}

// ---- regular expressions: what they are, how they are written, what they match ------------------------
pub ghost enum Re { Empty, Lit { c: int }, Class { cs: Seq<int> }, Then { c: int, r: Box<Re> }, Group { l: Seq<Re> }, Opt { a: Box<Re> } }
pub open spec fn matches(r: Re, w: Seq<int>) -> bool decreases r {
    match r {
        Re::Empty => w.len() == 0,
        Re::Lit { c } => w == seq![c],
        Re::Class { cs } => w.len() == 1 && cs.contains(w[0]),
        Re::Then { c, r } => w.len() > 0 && w[0] == c && matches(*r, tail(w)),
        Re::Group { l } => exists|i: int| 0 <= i < l.len() && matches(#[trigger] l[i], w),
        Re::Opt { a } => w.len() == 0 || matches(*a, w),
    }
}
// the characters an expression does not take literally: - . + * ^ $ ( ) [ ] { } \ | ? (and ~)
pub open spec fn meta(b: int) -> bool {
    b == 45 || b == 46 || b == 43 || b == 42 || b == 94 || b == 36 || b == 40 || b == 41 || b == 91 || b == 93 || b == 123 || b == 125 || b == 92 || b == 124 || b == 63 || b == 126
}
pub open spec fn quote(s: Str) -> Str decreases s.len() {
    if s.len() == 0 { s } else if meta(s.last()) { quote(s.drop_last()) + seq![92int, s.last()] } else { quote(s.drop_last()).push(s.last()) }
}
pub open spec fn written(r: Re) -> Str decreases r {
    match r {
        Re::Empty => Seq::<int>::empty(),
        Re::Lit { c } => quote(enc(c)),
        Re::Class { cs } => seq![91int] + str_join(quoted(cs), Seq::<int>::empty()) + seq![93int],
        Re::Then { c, r } => quote(enc(c)) + written(*r),
        Re::Group { l } => seq![40int, 63, 58] + str_join(all_written(l), seq![124int]) + seq![41int],
        Re::Opt { a } => written(*a) + seq![63int],
    }
}
pub open spec fn quoted(cs: Seq<int>) -> Seq<Str> { Seq::new(cs.len(), |i: int| quote(enc(cs[i]))) }
pub open spec fn all_written(l: Seq<Re>) -> Seq<Str> decreases l { Seq::new(l.len(), |i: int| if 0 <= i < l.len() { written(l[i]) } else { Seq::<int>::empty() }) }
// one reading only: `?` follows a character, a class or a group
pub open spec fn one(r: Re) -> bool { r is Lit || r is Class || r is Group }
pub open spec fn clear(r: Re) -> bool decreases r {
    match r {
        Re::Empty => true,
        Re::Lit { c } => cp_ok(c),
        Re::Class { cs } => cs.len() > 0 && cps_ok(cs),
        Re::Then { c, r } => cp_ok(c) && clear(*r),
        Re::Group { l } => l.len() > 0 && forall|i: int| 0 <= i < l.len() ==> clear(#[trigger] l[i]),
        Re::Opt { a } => one(*a) && clear(*a),
    }
}
// an empty tree is written as an expression for the empty text
pub open spec fn lang(t: TrieUtf8, w: Seq<int>) -> bool { if any_word(t) { inw(t, w) } else { w.len() == 0 } }
pub open spec fn denotes(r: Re, s: Str, t: TrieUtf8) -> bool { clear(r) && written(r) == s && forall|w: Seq<int>| #[trigger] matches(r, w) <==> lang(t, w) }
pub open spec fn expr_for(s: Str, t: TrieUtf8) -> bool { exists|r: Re| denotes(r, s, t) }
pub proof fn lemma_quote_len(s: Str)
    ensures quote(s).len() >= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_quote_len(s.drop_last()); } }
pub proof fn lemma_meta(b: int)
    ensures #"-.+*^~$()[]{}\\|?".contains(b) <==> meta(b)
{
    lits(); reveal(lit_x_2d2e2b2a5e7e2428295b5d7b7d5c7c3f);
    let s = #"-.+*^~$()[]{}\\|?";
    assert(s =~= seq![45int, 46, 43, 42, 94, 126, 36, 40, 41, 91, 93, 123, 125, 92, 124, 63]);
    if meta(b) {
        if b == 45 { assert(s[0] == b); } else if b == 46 { assert(s[1] == b); } else if b == 43 { assert(s[2] == b); } else if b == 42 { assert(s[3] == b); }
        else if b == 94 { assert(s[4] == b); } else if b == 126 { assert(s[5] == b); } else if b == 36 { assert(s[6] == b); } else if b == 40 { assert(s[7] == b); }
        else if b == 41 { assert(s[8] == b); } else if b == 91 { assert(s[9] == b); } else if b == 93 { assert(s[10] == b); } else if b == 123 { assert(s[11] == b); }
        else if b == 125 { assert(s[12] == b); } else if b == 92 { assert(s[13] == b); } else if b == 124 { assert(s[14] == b); } else { assert(s[15] == b); }
    }
    if s.contains(b) { let i = choose|i: int| 0 <= i < s.len() && s[i] == b; assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || i == 15); }
}
pub proof fn lemma_next_meta(s: Str, i: int)
    requires 0 <= i, s.len() < npos()
    ensures ({
        let r = first_in(s, #"-.+*^~$()[]{}\\|?", i, true);
        &&& r == npos() || (i <= r < s.len() && meta(s[r]))
        &&& forall|k: int| i <= k < s.len() && (r == npos() || k < r) ==> !meta(#[trigger] s[k])
    })
{
    lemma_first_in(s, #"-.+*^~$()[]{}\\|?", i, true);
    assert forall|k: int| 0 <= k < s.len() implies (#"-.+*^~$()[]{}\\|?".contains(#[trigger] s[k]) <==> meta(s[k])) by { lemma_meta(s[k]); }
}
pub proof fn lemma_quote_plain(s: Str, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> !meta(#[trigger] s[k])
    ensures quote(s.subrange(0, b)) == quote(s.subrange(0, a)) + s.subrange(a, b)
    decreases b - a
{
    if a < b {
        lemma_quote_plain(s, a, b - 1);
        assert(s.subrange(0, b).drop_last() =~= s.subrange(0, b - 1));
        assert(s.subrange(0, b).last() == s[b - 1]);
        assert(s.subrange(a, b) =~= s.subrange(a, b - 1).push(s[b - 1]));
        assert(quote(s.subrange(0, b)) =~= quote(s.subrange(0, a)) + s.subrange(a, b));
    } else { assert(quote(s.subrange(0, b)) =~= quote(s.subrange(0, a)) + s.subrange(a, b)); }
}
pub proof fn lemma_blank_expr(r: Re)
    requires clear(r), written(r).len() == 0
    ensures forall|w: Seq<int>| #[trigger] matches(r, w) <==> w.len() == 0
    decreases r
{
    match r {
        Re::Lit { c } => { lemma_enc_bytes(c); lemma_quote_len(enc(c)); }
        Re::Then { c, r } => { lemma_enc_bytes(c); lemma_quote_len(enc(c)); }
        _ => {}
    }
}
// what the alternatives collected so far stand for
pub open spec fn some_alt(gal: Seq<Re>, gcc: Seq<int>, w: Seq<int>) -> bool {
    (exists|j: int| 0 <= j < gal.len() && matches(#[trigger] gal[j], w)) || (w.len() == 1 && gcc.contains(w[0]))
}
pub open spec fn some_kid(t: TrieUtf8, n: int, w: Seq<int>) -> bool {
    w.len() > 0 && exists|k: int| 0 <= k < n && #[trigger] map_keys(t._children)[k] == w[0] && inw(kid_of(t, w[0]), tail(w))
}
pub proof fn lemma_some_kid_all(t: TrieUtf8, w: Seq<int>)
    requires wf(t)
    ensures w.len() > 0 ==> (some_kid(t, map_keys(t._children).len() as int, w) <==> inw(t, w))
{
    if w.len() > 0 {
        if inw(t, w) { lemma_key_of(t, w[0]); assert(map_keys(t._children)[map_idx(t._children, w[0])] == w[0]); }
        if some_kid(t, map_keys(t._children).len() as int, w) {
            let k = choose|k: int| 0 <= k < map_keys(t._children).len() && #[trigger] map_keys(t._children)[k] == w[0] && inw(kid_of(t, w[0]), tail(w));
            lemma_kid(t, k);
        }
    }
}
pub proof fn lemma_some_kid_step(t: TrieUtf8, n: int, w: Seq<int>)
    requires 0 <= n
    ensures some_kid(t, n + 1, w) <==> some_kid(t, n, w) || (w.len() > 0 && map_keys(t._children)[n] == w[0] && inw(kid_of(t, w[0]), tail(w)))
{
    if some_kid(t, n + 1, w) {
        let k = choose|k: int| 0 <= k < n + 1 && #[trigger] map_keys(t._children)[k] == w[0] && inw(kid_of(t, w[0]), tail(w));
        if k < n { assert(some_kid(t, n, w)); }
    }
    if some_kid(t, n, w) {
        let k = choose|k: int| 0 <= k < n && #[trigger] map_keys(t._children)[k] == w[0] && inw(kid_of(t, w[0]), tail(w));
        assert(0 <= k < n + 1);
    }
    if w.len() > 0 && map_keys(t._children)[n] == w[0] && inw(kid_of(t, w[0]), tail(w)) { assert(0 <= n < n + 1); }
}
pub proof fn lemma_alt_push(gal: Seq<Re>, gcc: Seq<int>, r: Re, w: Seq<int>)
    ensures some_alt(gal.push(r), gcc, w) <==> some_alt(gal, gcc, w) || matches(r, w)
{
    let g = gal.push(r);
    if some_alt(g, gcc, w) && !(w.len() == 1 && gcc.contains(w[0])) {
        let j = choose|j: int| 0 <= j < g.len() && matches(#[trigger] g[j], w);
        if j < gal.len() { assert(matches(gal[j], w)); }
    }
    if some_alt(gal, gcc, w) && !(w.len() == 1 && gcc.contains(w[0])) {
        let j = choose|j: int| 0 <= j < gal.len() && matches(#[trigger] gal[j], w);
        assert(matches(g[j], w));
    }
    if matches(r, w) { assert(matches(g[gal.len() as int], w)); }
}
pub proof fn lemma_cc_push(gal: Seq<Re>, gcc: Seq<int>, c: int, w: Seq<int>)
    ensures some_alt(gal, gcc.push(c), w) <==> some_alt(gal, gcc, w) || w == seq![c]
{
    assert(gcc.push(c).contains(c)) by { assert(gcc.push(c)[gcc.len() as int] == c); }
    if w.len() == 1 {
        if w[0] == c { assert(w =~= seq![c]); }
        if gcc.push(c).contains(w[0]) {
            let i = choose|i: int| 0 <= i < gcc.push(c).len() && gcc.push(c)[i] == w[0];
            if i < gcc.len() { assert(gcc[i] == w[0]); }
        }
        if gcc.contains(w[0]) { let i = choose|i: int| 0 <= i < gcc.len() && gcc[i] == w[0]; assert(gcc.push(c)[i] == w[0]); }
    }
}
// the characters as one expression
pub open spec fn cc_re(gcc: Seq<int>) -> Re { if gcc.len() == 1 { Re::Lit { c: gcc[0] } } else { Re::Class { cs: gcc } } }
pub proof fn lemma_cc_re(gcc: Seq<int>, w: Seq<int>)
    requires gcc.len() > 0, cps_ok(gcc)
    ensures clear(cc_re(gcc)), matches(cc_re(gcc), w) <==> w.len() == 1 && gcc.contains(w[0])
{
    if gcc.len() == 1 {
        assert(cp_ok(gcc[0]));
        if w == seq![gcc[0]] { assert(gcc.contains(w[0])); }
        if w.len() == 1 && gcc.contains(w[0]) { assert(w =~= seq![gcc[0]]); }
    }
}
pub proof fn lemma_group(l: Seq<Re>, w: Seq<int>)
    ensures matches(Re::Group { l: l }, w) <==> exists|i: int| 0 <= i < l.len() && matches(#[trigger] l[i], w)
{
    let x = Re::Group { l: l };
    assert(x->l == l);
    if exists|i: int| 0 <= i < l.len() && matches(#[trigger] l[i], w) { let i = choose|i: int| 0 <= i < l.len() && matches(#[trigger] l[i], w); assert(x->l[i] == l[i]); }
}
pub proof fn lemma_written_group(l: Seq<Re>)
    ensures written(Re::Group { l: l }) == seq![40int, 63, 58] + str_join(all_written(l), seq![124int]) + seq![41int]
{
    let x = Re::Group { l: l };
    assert(x->l == l);
}
pub proof fn lemma_body(gal: Seq<Re>, gcc: Seq<int>, all: Seq<Re>, body: Re, w: Seq<int>)
    requires cps_ok(gcc), gal.len() + gcc.len() > 0, all == if gcc.len() > 0 { gal.push(cc_re(gcc)) } else { gal }, body == if all.len() == 1 { all[0] } else { Re::Group { l: all } }
    ensures matches(body, w) <==> some_alt(gal, gcc, w)
{
    if gcc.len() > 0 { lemma_cc_re(gcc, w); }
    lemma_group(all, w);
    let any = exists|i: int| 0 <= i < all.len() && matches(#[trigger] all[i], w);
    if any {
        let i = choose|i: int| 0 <= i < all.len() && matches(#[trigger] all[i], w);
        if i < gal.len() { assert(matches(gal[i], w)); }
    }
    if some_alt(gal, gcc, w) {
        if w.len() == 1 && gcc.contains(w[0]) { assert(matches(all[gal.len() as int], w)); }
        else { let j = choose|j: int| 0 <= j < gal.len() && matches(#[trigger] gal[j], w); assert(matches(all[j], w)); }
    }
    if all.len() == 1 && any { assert(matches(all[0], w)); }
}
@@end
@@spec C15
// ---- the words a sequence of additions leaves -------------------------------------------------------
pub open spec fn no_words() -> TrieUtf8 { TrieUtf8 { _children: Map::<int, Option<TrieUtf8>>::empty(), _size: 0, _isEnd: false } }
pub open spec fn steps(ts: Seq<TrieUtf8>, ws: Seq<Str>) -> bool {
    ts.len() == ws.len() + 1 && ts[0] == no_words() && forall|i: int| 0 <= i < ws.len() ==> #[trigger] added(ts[i], ws[i], ts[i + 1])
}
pub open spec fn given(ws: Seq<Str>, w: Seq<int>) -> bool { exists|i: int| 0 <= i < ws.len() && (#[trigger] ws[i]).len() > 0 && cps(ws[i]) == w }
pub proof fn C15_the_tree_holds_the_words_added(ts: Seq<TrieUtf8>, ws: Seq<Str>, n: int, w: Seq<int>)
    requires steps(ts, ws), forall|i: int| 0 <= i < ws.len() ==> utf8(#[trigger] ws[i]), 0 <= n <= ws.len()
    ensures wf(ts[n]), inw(ts[n], w) <==> given(ws.subrange(0, n), w)
    decreases n
{
    if n == 0 {
        assert(forall|c: int| !no_words()._children.dom().contains(c));
        assert(!inw(ts[0], w)); assert(ws.subrange(0, 0).len() == 0);
    } else {
        C15_the_tree_holds_the_words_added(ts, ws, n - 1, w);
        assert(added(ts[n - 1], ws[n - 1], ts[n - 1 + 1]));
        let a = ws.subrange(0, n - 1); let b = ws.subrange(0, n);
        assert(utf8(ws[n - 1]));
        if given(a, w) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() > 0 && cps(a[i]) == w; assert(b[i] == a[i]); }
        if given(b, w) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).len() > 0 && cps(b[i]) == w; if i < n - 1 { assert(a[i] == b[i]); } }
        assert(b[n - 1] == ws[n - 1]);
    }
}
pub proof fn C15_order_of_addition_does_not_matter(ts: Seq<TrieUtf8>, ws: Seq<Str>, us: Seq<TrieUtf8>, vs: Seq<Str>, w: Seq<int>)
    requires steps(ts, ws), steps(us, vs), forall|i: int| 0 <= i < ws.len() ==> utf8(#[trigger] ws[i]), forall|i: int| 0 <= i < vs.len() ==> utf8(#[trigger] vs[i]),
        forall|s: Str| ws.contains(s) <==> #[trigger] vs.contains(s)
    ensures inw(ts.last(), w) <==> inw(us.last(), w)
{
    C15_the_tree_holds_the_words_added(ts, ws, ws.len() as int, w);
    C15_the_tree_holds_the_words_added(us, vs, vs.len() as int, w);
    assert(ws.subrange(0, ws.len() as int) =~= ws); assert(vs.subrange(0, vs.len() as int) =~= vs);
    if given(ws, w) { let i = choose|i: int| 0 <= i < ws.len() && (#[trigger] ws[i]).len() > 0 && cps(ws[i]) == w; assert(ws.contains(ws[i])); assert(vs.contains(ws[i])); let j = choose|j: int| 0 <= j < vs.len() && vs[j] == ws[i]; assert(vs[j].len() > 0); }
    if given(vs, w) { let i = choose|i: int| 0 <= i < vs.len() && (#[trigger] vs[i]).len() > 0 && cps(vs[i]) == w; assert(vs.contains(vs[i])); assert(ws.contains(vs[i])); let j = choose|j: int| 0 <= j < ws.len() && ws[j] == vs[i]; assert(ws[j].len() > 0); }
}
// the expression written for a tree with words in it matches the words and nothing else
pub proof fn C15_the_expression_matches_the_words_only(ts: Seq<TrieUtf8>, ws: Seq<Str>, s: Str)
    requires steps(ts, ws), forall|i: int| 0 <= i < ws.len() ==> utf8(#[trigger] ws[i]), expr_for(s, ts.last()), exists|w: Seq<int>| given(ws, w)
    ensures exists|r: Re| clear(r) && written(r) == s && forall|w: Seq<int>| #[trigger] matches(r, w) <==> given(ws, w)
{
    let t = ts.last();
    assert(ws.subrange(0, ws.len() as int) =~= ws);
    assert forall|w: Seq<int>| inw(t, w) <==> #[trigger] given(ws, w) by { C15_the_tree_holds_the_words_added(ts, ws, ws.len() as int, w); }
    let r = choose|r: Re| denotes(r, s, t);
    let v = choose|w: Seq<int>| given(ws, w);
    assert(inw(t, v));
    if v.len() > 0 { assert(t._children.dom().contains(v[0])); assert(t._children.dom().len() > 0); }
    assert(any_word(t));
    assert forall|w: Seq<int>| #[trigger] matches(r, w) <==> given(ws, w) by { assert(inw(t, w) <==> given(ws, w)); }
}
// words are texts: two texts with the same code points are the same
pub proof fn C15_code_points_name_the_text(s: Str)
    requires utf8(s)
    ensures enc_all(cps(s)) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_cps(s); C15_code_points_name_the_text(rest(s)); lemma_push_front(Seq::<int>::empty(), dec_at(s, 0), cps(s)); assert(Seq::<int>::empty() + enc_all(cps(s)) =~= enc_all(cps(s))); assert((Seq::<int>::empty() + enc(dec_at(s, 0))) + enc_all(cps(rest(s))) =~= s); }
    else { assert(enc_all(cps(s)) =~= s); }
}
@@end
@@spec
pub open spec fn added(t: TrieUtf8, s: Str, u: TrieUtf8) -> bool {
    wf(t) && utf8(s) ==> wf(u) && forall|w: Seq<int>| #[trigger] inw(u, w) <==> inw(t, w) || (s.len() > 0 && w == cps(s))
}
pub proof fn lemma_kid_changed(t: TrieUtf8, u: TrieUtf8, c: int, p: Seq<int>, old_kid: bool)
    requires
        wf(t), p.len() > 0, p[0] == c, cp_ok(c), u._isEnd == t._isEnd, u._children == t._children.insert(c, u._children[c]), kid(u, c), wf(kid_of(u, c)), any_word(kid_of(u, c)),
        old_kid == kid(t, c),
        forall|w: Seq<int>| #[trigger] inw(kid_of(u, c), w) <==> (old_kid && inw(kid_of(t, c), w)) || w == tail(p),
    ensures wf(u), forall|w: Seq<int>| #[trigger] inw(u, w) <==> inw(t, w) || w == p, u._children.dom().len() > 0
{
    assert forall|d: int| #[trigger] u._children.dom().contains(d) implies cp_ok(d) && u._children[d] is Some && any_word(u._children[d]->0) && wf(u._children[d]->0) by {
        if d != c { assert(t._children.dom().contains(d)); }
    }
    assert forall|w: Seq<int>| #[trigger] inw(u, w) <==> inw(t, w) || w == p by {
        if w.len() > 0 {
            if w[0] == c { assert(inw(kid_of(u, c), tail(w)) <==> (old_kid && inw(kid_of(t, c), tail(w))) || tail(w) == tail(p)); if tail(w) == tail(p) { assert(w =~= cons(c, tail(w))); assert(p =~= cons(c, tail(p))); } }
            else { assert(kid(u, w[0]) == kid(t, w[0])); }
        }
    }
    assert(u._children.dom().contains(c));
}
@@end

@@fn TrieUtf8::addWord(string)
params: this word
requires wf($this), utf8($word),
ensures added($this, $word, $this'), $this'._isEnd == $this._isEnd, $word.len() > 0 ==> $this'._children.dom().len() > 0,
    $this'._size == $this._size + if $word.len() > 0 { 1int } else { 0int },
decreases $word.len(),
@@entry
if $$word.len() > 0 { lemma_cps($$word); lemma_cps_empty(rest($$word)); assert(tail(cps($$word)).len() == 0 ==> tail(cps($$word)) =~= Seq::<int>::empty()); }
let e = TrieUtf8 { _children: Map::<int, Option<TrieUtf8>>::empty(), _size: 0, _isEnd: false };
assert(wf(e) && wf(TrieUtf8 { _isEnd: true, ..e }));
@@return
if $$word.len() > 0 {
    let p = cps($$word); let c = p[0]; let u = $this; let t = $$this;
    assert(u._children =~= t._children.insert(c, u._children[c]));
    assert forall|w: Seq<int>| #[trigger] inw(kid_of(u, c), w) <==> (kid(t, c) && inw(kid_of(t, c), w)) || w == tail(p) by {
        if kid(t, c) && rest($$word).len() == 0 {
            assert(kid_of(u, c)._children == kid_of(t, c)._children);
            if w.len() > 0 { assert(kid(kid_of(u, c), w[0]) == kid(kid_of(t, c), w[0])); } else { assert(w =~= tail(p)); }
        } else if !kid(t, c) {
            if w.len() == 0 && tail(p).len() == 0 { assert(w =~= tail(p)); }
        }
    }
    if kid(t, c) {
        assert(t._children.dom().contains(c));
        let o = kid_of(t, c); let x = TrieUtf8 { _isEnd: true, ..o };
        assert(wf(o));
        assert(wf(x)) by { assert forall|d: int| #[trigger] x._children.dom().contains(d) implies cp_ok(d) && x._children[d] is Some && any_word(x._children[d]->0) && wf(x._children[d]->0) by { assert(o._children.dom().contains(d)); } }
    }
    assert(wf(kid_of(u, c))); assert(any_word(kid_of(u, c)));
    lemma_kid_changed(t, u, c, p, kid(t, c));
}
@@end
@@fn TrieUtf8::isPrefix(string)
params: this pref
requires wf($this), utf8($pref),
ensures $ret == begins($this, cps($pref)), $this' == $this,
decreases $pref.len(),
@@entry
if $$pref.len() > 0 { lemma_cps($$pref); }
@@end
@@fn TrieUtf8::isWord(string)
params: this word
vars: cursub Str; tmp Option<TrieUtf8>
requires wf($this), utf8($word),
ensures $ret == inw($this, cps($word)), $this' == $this,
@@entry
@@loop 1
invariant utf8($cursub), $tmp is Some, wf($tmp->0), inw($tmp->0, cps($cursub)) == inw($$this, cps($$word)),
decreases $cursub.len(),
@@loopbody 1
lemma_cps($cursub);
@@return
@@end
@@fn TrieUtf8::getWords(set<string>&,string)
params: this words wordSoFar
requires wf($this),
ensures !$throws, forall|s: Str| #[trigger] $words'.contains(s) <==> $words.contains(s) || listed($this, $wordSoFar, s),
decreases $this,
@@entry
@@loop 1
invariant $this == $$this, $wordSoFar == $$wordSoFar,
    forall|s: Str| #[trigger] $words.contains(s) <==> $$words.contains(s) || ($$this._isEnd && s == $$wordSoFar) || listed_kid($$this, $i, $$wordSoFar, s),
@@loopbody 1
lemma_kid($$this, $i);
let c = map_keys($$this._children)[$i];
let pre = $$wordSoFar + enc(c);
assert(pre + enc_all(Seq::<int>::empty()) =~= pre);
if kid_of($$this, c)._isEnd { assert(inw(kid_of($$this, c), Seq::<int>::empty())); assert(listed(kid_of($$this, c), pre, pre)); }
assert forall|s: Str| #[trigger] listed_kid($$this, $i + 1, $$wordSoFar, s) <==> listed_kid($$this, $i, $$wordSoFar, s) || listed(kid_of($$this, c), pre, s) by { lemma_listed_kid_step($$this, $i, $$wordSoFar, s); }
@@return
assert forall|s: Str| #[trigger] listed($$this, $$wordSoFar, s) <==> ($$this._isEnd && s == $$wordSoFar) || listed_kid($$this, map_keys($$this._children).len() as int, $$wordSoFar, s) by { lemma_listed($$this, $$wordSoFar, s); }
@@end
@@fn TrieUtf8::getWordsStartingWith(string,set<string>&,string)
params: this prefix words wordSoFar
requires wf($this), utf8($prefix),
ensures !$throws, forall|s: Str| #[trigger] $words'.contains(s) <==> $words.contains(s) || listed_from($this, cps($prefix), $wordSoFar, s),
decreases $prefix.len(),
@@entry
if $$prefix.len() > 0 { lemma_cps($$prefix); }
assert forall|s: Str| $$prefix.len() == 0 implies (#[trigger] listed_from($$this, cps($$prefix), $$wordSoFar, s) <==> listed($$this, $$wordSoFar, s)) by { lemma_listed_from($$this, cps($$prefix), $$wordSoFar, s); }
let p = cps($$prefix);
assert forall|s: Str| $$prefix.len() > 0 implies (#[trigger] listed_from($$this, p, $$wordSoFar, s) <==> kid($$this, p[0]) && listed_from(kid_of($$this, p[0]), tail(p), $$wordSoFar + enc(p[0]), s)) by { lemma_listed_from($$this, p, $$wordSoFar, s); }
@@end
@@fn TrieUtf8::quoteMeta(string)
params: this str
vars: last int; pos int#2; tmp Str#2
requires $str.len() < npos(),
ensures $ret == quote($str),
@@entry
lemma_next_meta($$str, 0);
@@loop 1
invariant
    $str == $$str, 0 <= $last <= $str.len(), $tmp == quote($str.subrange(0, $last)),
    $pos == npos() || ($last <= $pos < $str.len() && meta($str[$pos])),
    forall|k: int| $last <= k < $str.len() && ($pos == npos() || k < $pos) ==> !meta(#[trigger] $str[k]),
decreases $str.len() - $last + if $pos == npos() { 0int } else { 1int },
@@loopbody 1
lemma_quote_plain($str, $last, $pos);
lemma_next_meta($str, $pos + 1);
assert($str.subrange(0, $pos + 1).drop_last() =~= $str.subrange(0, $pos));
assert(quote($str.subrange(0, $pos + 1)) =~= quote($str.subrange(0, $pos)) + seq![92int, $str[$pos]]);
@@loopend 1
assert($tmp =~= quote($str.subrange(0, $last)));
@@afterloop 1
lemma_quote_plain($str, $last, $str.len() as int);
assert($str.subrange(0, $str.len() as int) =~= $str);
@@end
@@fn TrieUtf8::getRegexp()
params: this
vars: alt Seq<Str>; cc Seq<Str>#2; q bool; recurse Str#2
requires wf($this),
ensures !$throws, expr_for($ret, $this),
decreases $this,
@@entry
let ghost mut gal: Seq<Re> = Seq::<Re>::empty();
let ghost mut gcc: Seq<int> = Seq::<int>::empty();
let ghost mut fin: Re = Re::Empty;
let ghost mut body: Re = Re::Empty;
let ghost mut all: Seq<Re> = Seq::<Re>::empty();
@@loop 1
invariant $this == $$this, $q == ($$this._isEnd && $i > 0),
    $alt =~= all_written(gal), $cc =~= quoted(gcc),
    forall|j: int| 0 <= j < gal.len() ==> clear(#[trigger] gal[j]),
    cps_ok(gcc), $i == gal.len() + gcc.len(),
    forall|w: Seq<int>| #[trigger] some_alt(gal, gcc, w) <==> some_kid($$this, $i, w),
@@loopbody 1
lemma_kid($$this, $i);
lemma_enc_bytes(map_keys($$this._children)[$i]);
@@loopend 1
let c = map_keys($$this._children)[$i - 1];
let child = kid_of($$this, c);
let r = choose|r: Re| denotes(r, $recurse, child);
let og = gal; let oc = gcc;
let x = Re::Then { c: c, r: Box::new(r) };
if $recurse.len() > 0 { gal = gal.push(x); } else { gcc = gcc.push(c); lemma_blank_expr(r); }
assert forall|w: Seq<int>| #[trigger] some_alt(gal, gcc, w) <==> some_kid($$this, $i, w) by {
    lemma_some_kid_step($$this, $i - 1, w);
    if $recurse.len() > 0 {
        lemma_alt_push(og, oc, x, w);
        if w.len() > 0 && w[0] == c { assert(matches(r, tail(w)) <==> inw(child, tail(w))); }
    } else {
        lemma_cc_push(og, oc, c, w);
        if w.len() > 0 && w[0] == c { assert(matches(r, tail(w)) <==> inw(child, tail(w))); if tail(w).len() == 0 { assert(w =~= seq![c]); } }
        if w == seq![c] { assert(tail(w).len() == 0); }
    }
}
@@afterloop 1
let n = map_keys($$this._children).len() as int;
assert(n == $$this._children.dom().len()) by { broadcast use containers; }
reveal(lit_x_283f3a); reveal(lit_x_293f);
all = gal;
if gcc.len() > 0 { all = gal.push(cc_re(gcc)); }
let l = if all.len() == 0 { seq![Re::Empty] } else { all };
body = if all.len() == 1 { all[0] } else { Re::Group { l: l } };
if gcc.len() > 0 { lemma_cc_re(gcc, Seq::<int>::empty()); }
assert(clear(body)) by { if all.len() == 0 { assert(clear(seq![Re::Empty][0])); } else if all.len() == 1 { if gal.len() == 1 { assert(clear(gal[0])); } } else { assert forall|i: int| 0 <= i < all.len() implies clear(#[trigger] all[i]) by { if i < gal.len() { assert(clear(gal[i])); } } } }
fin = if !($$this._isEnd && n > 0) { body } else if gal.len() == 0 { Re::Opt { a: Box::new(body) } } else { Re::Opt { a: Box::new(Re::Group { l: seq![body] }) } };
assert(clear(seq![body][0]));
let g1 = Re::Group { l: seq![body] };
assert(g1->l == seq![body]);
assert(clear(g1));
if gal.len() == 0 && n > 0 { assert(gcc.len() > 0); assert(all.len() == 1); assert(body == cc_re(gcc)); assert(one(body)); let o = Re::Opt { a: Box::new(body) }; assert(clear(*o->a)); assert(clear(o)); }
let o2 = Re::Opt { a: Box::new(g1) };
assert(clear(*o2->a)); assert(clear(o2));
assert(clear(fin));
assert forall|w: Seq<int>| #[trigger] matches(fin, w) <==> lang($$this, w) by {
    if n > 0 { lemma_body(gal, gcc, all, body, w); } else { assert(gal.len() == 0 && gcc.len() == 0); lemma_group(seq![Re::Empty], w); assert(seq![Re::Empty][0] == Re::Empty); }
    assert(matches(body, w) <==> (if n > 0 { some_alt(gal, gcc, w) } else { w.len() == 0 }));
    lemma_some_kid_all($$this, w);
    if n > 0 { assert(some_alt(gal, gcc, w) <==> some_kid($$this, n, w)); }
    lemma_group(seq![body], w); assert(seq![body][0] == body);
}
lemma_written_group(l);
lemma_written_group(seq![body]);
assert(str_join(all_written(seq![body]), seq![124int]) =~= written(body)) by { assert(all_written(seq![body])[0] == written(seq![body][0])); }
assert($cc == quoted(gcc));
assert(all_written(all) =~= if gcc.len() > 0 { $alt.push(written(cc_re(gcc))) } else { $alt });
if gcc.len() == 1 { assert($cc[0] == quote(enc(gcc[0]))); assert(written(cc_re(gcc)) == $cc[0]); }
if gcc.len() > 1 { assert(written(cc_re(gcc)) == seq![91int] + str_join($cc, Seq::<int>::empty()) + seq![93int]); }
if all.len() == 1 { assert(all_written(all)[0] == written(body)); }
@@return
if $$this._isEnd && $$this._children.dom().len() == 0 {
    assert forall|w: Seq<int>| #[trigger] matches(fin, w) <==> lang($$this, w) by {}
}
assert($ret =~= written(fin));
assert(denotes(fin, $ret, $$this));
@@end
@@fn TrieUtf8::size()
params: this
ensures $ret == $this._size, $this' == $this,
@@end
