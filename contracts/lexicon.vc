@@uses trie
@@spec
pub open spec fn defs_of(m: Map<Str, Seq<LexEntry>>, w: Str) -> Seq<LexEntry> { if m.dom().contains(w) { m[w] } else { Seq::<LexEntry>::empty() } }
pub open spec fn defs(l: Lexicon, w: Str) -> Seq<LexEntry> { defs_of(l.lex_, w) }
pub open spec fn no_doubles(s: Seq<LexEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub open spec fn of_word(s: Seq<LexEntry>, w: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).word_ == w }
pub open spec fn lex_shape(m: Map<Str, Seq<LexEntry>>) -> bool { forall|k: Str| #[trigger] m.dom().contains(k) ==> m[k].len() > 0 && no_doubles(m[k]) && of_word(m[k], k) }
pub open spec fn keys_utf8(m: Map<Str, Seq<LexEntry>>) -> bool { forall|k: Str| #[trigger] m.dom().contains(k) ==> utf8(k) }
pub open spec fn lex_ok(m: Map<Str, Seq<LexEntry>>) -> bool { lex_shape(m) && keys_utf8(m) }
// ---- the expressions ----------------------------------------------------------------------------
pub open spec fn named(ws: Set<Str>, w: Seq<int>) -> bool { exists|k: Str| #[trigger] ws.contains(k) && k.len() > 0 && cps(k) == w }
pub open spec fn some_named(ws: Set<Str>) -> bool { exists|k: Str| #[trigger] ws.contains(k) && k.len() > 0 }
pub open spec fn spelled(ws: Set<Str>, w: Seq<int>) -> bool { if some_named(ws) { named(ws, w) } else { w.len() == 0 } }
// s is the written form of an expression that matches the words and nothing else
pub open spec fn spells(s: Str, ws: Set<Str>) -> bool { exists|r: Re| clear(r) && written(r) == s && forall|w: Seq<int>| #[trigger] matches(r, w) <==> spelled(ws, w) }
pub open spec fn attached_some(s: Seq<LexEntry>, a: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).attached_.contains(a) }
pub open spec fn words_att(m: Map<Str, Seq<LexEntry>>, a: int) -> Set<Str> { m.dom().filter(|k: Str| attached_some(m[k], a)) }
pub open spec fn all_expr(s: Str, m: Map<Str, Seq<LexEntry>>) -> bool { exists|x: Str| #[trigger] spells(x, m.dom()) && s == x + #"|" }
pub open spec fn pre_expr(s: Str, m: Map<Str, Seq<LexEntry>>) -> bool { exists|x: Str| #[trigger] spells(x, words_att(m, #InClass::ATT_PRE)) && s == (#"^" + x) + #"\\B" }
pub open spec fn suf_expr(s: Str, m: Map<Str, Seq<LexEntry>>) -> bool { spells(s, words_att(m, #InClass::ATT_SUF)) }
// what is kept of an expression is right or absent
pub open spec fn caches(l: Lexicon) -> bool {
    (l.regex_.len() == 0 || all_expr(l.regex_, l.lex_)) && (l.regexPrefix_.len() == 0 || pre_expr(l.regexPrefix_, l.lex_)) && (l.regexSuffix_.len() == 0 || suf_expr(l.regexSuffix_, l.lex_))
}
pub open spec fn lex_inv(l: Lexicon) -> bool { lex_ok(l.lex_) && caches(l) }
pub open spec fn same_head(a: Lexicon, b: Lexicon) -> bool { a.name_ == b.name_ && a.lang_ == b.lang_ && a.locale_ == b.locale_ && a.md5_ == b.md5_ }
pub proof fn lemma_live(t: TrieUtf8) -> (w: Seq<int>)
    requires wf(t), any_word(t)
    ensures inw(t, w)
    decreases t
{
    if t._isEnd { Seq::<int>::empty() } else {
        broadcast use containers;
        let c = map_keys(t._children)[0];
        lemma_kid(t, 0);
        let v = lemma_live(kid_of(t, c));
        lemma_cons(c, v);
        cons(c, v)
    }
}
pub open spec fn holds_words(t: TrieUtf8, ws: Set<Str>) -> bool { wf(t) && forall|w: Seq<int>| #[trigger] inw(t, w) <==> named(ws, w) }
pub proof fn lemma_spells(t: TrieUtf8, ws: Set<Str>, s: Str)
    requires holds_words(t, ws), expr_for(s, t)
    ensures spells(s, ws)
{
    let r = choose|r: Re| denotes(r, s, t);
    if any_word(t) { let w = lemma_live(t); assert(named(ws, w)); assert(some_named(ws)); }
    if some_named(ws) {
        let k = choose|k: Str| #[trigger] ws.contains(k) && k.len() > 0;
        assert(named(ws, cps(k))); assert(inw(t, cps(k)));
        if cps(k).len() > 0 { assert(t._children.dom().contains(cps(k)[0])); assert(t._children.dom().len() > 0); }
    }
    assert forall|w: Seq<int>| #[trigger] matches(r, w) <==> spelled(ws, w) by { assert(inw(t, w) <==> named(ws, w)); }
}
pub proof fn lemma_named_insert(ws: Set<Str>, k: Str, w: Seq<int>)
    ensures named(ws.insert(k), w) <==> named(ws, w) || (k.len() > 0 && cps(k) == w)
{
    if named(ws, w) { let x = choose|x: Str| #[trigger] ws.contains(x) && x.len() > 0 && cps(x) == w; assert(ws.insert(k).contains(x)); }
    if k.len() > 0 && cps(k) == w { assert(ws.insert(k).contains(k)); }
}
pub proof fn lemma_added(t: TrieUtf8, u: TrieUtf8, ws: Set<Str>, k: Str)
    requires holds_words(t, ws), utf8(k), added(t, k, u)
    ensures holds_words(u, ws.insert(k))
{
    assert forall|w: Seq<int>| #[trigger] inw(u, w) <==> named(ws.insert(k), w) by { lemma_named_insert(ws, k, w); assert(inw(t, w) <==> named(ws, w)); }
}
// the words of the first n keys that pass
pub open spec fn upto_keys(m: Map<Str, Seq<LexEntry>>, n: int, a: int) -> Set<Str> decreases n {
    if n <= 0 { Set::<Str>::empty() } else {
        let k = map_keys(m)[n - 1];
        if a < 0 || attached_some(m[k], a) { upto_keys(m, n - 1, a).insert(k) } else { upto_keys(m, n - 1, a) }
    }
}
pub proof fn lemma_upto_keys(m: Map<Str, Seq<LexEntry>>, n: int, a: int, k: Str)
    requires 0 <= n <= map_keys(m).len()
    ensures upto_keys(m, n, a).contains(k) <==> m.dom().contains(k) && map_idx(m, k) < n && (a < 0 || attached_some(m[k], a))
    decreases n
{
    broadcast use containers;
    if n > 0 { lemma_upto_keys(m, n - 1, a, k); assert(m.dom().contains(map_keys(m)[n - 1])); }
}
pub proof fn lemma_all_keys(m: Map<Str, Seq<LexEntry>>, a: int)
    ensures a < 0 ==> upto_keys(m, map_keys(m).len() as int, a) == m.dom(), a >= 0 ==> upto_keys(m, map_keys(m).len() as int, a) == words_att(m, a)
{
    broadcast use containers;
    assert forall|k: Str| upto_keys(m, map_keys(m).len() as int, a).contains(k) <==> m.dom().contains(k) && (a < 0 || attached_some(m[k], a)) by { lemma_upto_keys(m, map_keys(m).len() as int, a, k); }
    if a < 0 { assert(upto_keys(m, map_keys(m).len() as int, a) =~= m.dom()); } else { assert(upto_keys(m, map_keys(m).len() as int, a) =~= words_att(m, a)); }
}
pub proof fn lemma_key(m: Map<Str, Seq<LexEntry>>, n: int)
    requires lex_ok(m), 0 <= n < map_keys(m).len()
    ensures m.dom().contains(map_keys(m)[n]), utf8(map_keys(m)[n])
{ broadcast use containers; assert(m.dom().contains(map_keys(m)[n])); }
pub open spec fn attached_upto(s: Seq<LexEntry>, n: int, a: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).attached_.contains(a) }
pub proof fn lemma_empty_holds(t: TrieUtf8)
    requires t == (TrieUtf8 { _children: Map::<int, Option<TrieUtf8>>::empty(), _size: 0, _isEnd: false })
    ensures holds_words(t, Set::<Str>::empty())
{ assert forall|w: Seq<int>| #[trigger] inw(t, w) <==> named(Set::<Str>::empty(), w) by {} }
pub open spec fn without(s: Seq<LexEntry>, x: LexEntry) -> Seq<LexEntry> { if s.contains(x) { s.remove(s.index_of(x)) } else { s } }
pub open spec fn with(s: Seq<LexEntry>, x: LexEntry) -> Seq<LexEntry> { if s.contains(x) { s } else { s.push(x) } }
// a cut at an ASCII character leaves two texts
pub proof fn lemma_cut(s: Str, k: int)
    requires utf8(s), 0 <= k < s.len(), s[k] >= 0
    ensures utf8(s.subrange(0, k)), utf8(s.subrange(k, s.len() as int)), seq_len(s[k]) == 1 ==> utf8(s.subrange(k + 1, s.len() as int))
    decreases s.len()
{
    let n = seq_len(s[0]); let e = enc(dec_at(s, 0));
    assert(e == s.subrange(0, n));
    assert forall|j: int| 1 <= j < n implies s[j] < 0 by { assert(s.subrange(0, n)[j] == s[j]); assert(e[j] < 0); }
    if k == 0 {
        assert(s.subrange(0, 0) =~= Seq::<int>::empty()); assert(s.subrange(0, s.len() as int) =~= s);
    } else {
        assert(k >= n);
        let r = rest(s);
        assert(r[k - n] == s[k]);
        lemma_cut(r, k - n);
        let a = s.subrange(0, k);
        assert(a.subrange(0, n) =~= s.subrange(0, n));
        assert(a[0] == s[0]);
        assert forall|q: int| 0 <= q < n implies is_byte(#[trigger] a[q]) by { assert(a[q] == s[q]); assert(is_byte(s[q])); }
        if n > 1 { assert(a[1] == s[1]); } if n > 2 { assert(a[2] == s[2]); } if n > 3 { assert(a[3] == s[3]); }
        assert(rest(a) =~= r.subrange(0, k - n));
        assert(utf8_head(a));
        assert(r.subrange(k - n, r.len() as int) =~= s.subrange(k, s.len() as int));
        assert(r.subrange(k - n + 1, r.len() as int) =~= s.subrange(k + 1, s.len() as int));
    }
}
pub proof fn lemma_trimmed(s: Str)
    requires utf8(s)
    ensures utf8(str_trim(s, #" ")), str_trim(s, #" ").len() <= s.len()
{ lemma_trim_r(s); lemma_trim_l(trim_r(s, #" ")); }
pub proof fn lemma_blank() ensures forall|c: int| #" ".contains(c) <==> c == 32 { lits(); reveal(#" "); assert(#" "[0] == 32); assert(#" ".len() == 1); }
pub proof fn lemma_trim_r(s: Str)
    requires utf8(s)
    ensures utf8(trim_r(s, #" ")), trim_r(s, #" ").len() <= s.len()
    decreases s.len()
{ lemma_blank(); if s.len() > 0 && s.last() == 32 { lemma_cut(s, s.len() - 1); assert(s.drop_last() =~= s.subrange(0, s.len() - 1)); lemma_trim_r(s.drop_last()); } }
pub proof fn lemma_trim_l(s: Str)
    requires utf8(s)
    ensures utf8(trim_l(s, #" ")), trim_l(s, #" ").len() <= s.len()
    decreases s.len()
{ lemma_blank(); if s.len() > 0 && s[0] == 32 { lemma_cut(s, 0); lemma_trim_l(s.subrange(1, s.len() as int)); } }
pub proof fn lemma_whole_field(st: Stream, old: Str)
    requires utf8(st.rest), utf8(old)
    ensures utf8(line_read(st, old, 9).1), utf8(line_read(st, old, 9).0.rest), line_read(st, old, 9).1.len() <= st.rest.len() || line_read(st, old, 9).1 == old
{ let r = st.rest; let k = upto(r, 9, 0); lemma_upto(r, 9, 0); if k < r.len() { lemma_cut(r, k); } }
pub proof fn lemma_with(s: Seq<LexEntry>, x: LexEntry, w: Str)
    requires no_doubles(s), of_word(s, w), x.word_ == w
    ensures no_doubles(with(s, x)), of_word(with(s, x), w), with(s, x).len() > 0
{
    if !s.contains(x) { assert forall|i: int, j: int| 0 <= i < j < s.push(x).len() implies s.push(x)[i] != s.push(x)[j] by { if j == s.len() { assert(s.contains(s[i])); } } }
}
pub proof fn lemma_without(s: Seq<LexEntry>, x: LexEntry, w: Str, j: int)
    requires no_doubles(s), of_word(s, w), 0 <= j < s.len(), s[j] == x
    ensures without(s, x) == s.remove(j), no_doubles(without(s, x)), of_word(without(s, x), w)
{
    let k = s.index_of(x);
    assert(s.contains(x)); assert(s[k] == x);
    assert(k == j);
    let r = s.remove(j);
    assert forall|a: int, b: int| 0 <= a < b < r.len() implies r[a] != r[b] by {
        assert(r[a] == if a < j { s[a] } else { s[a + 1] }); assert(r[b] == if b < j { s[b] } else { s[b + 1] });
    }
    assert forall|a: int| 0 <= a < r.len() implies (#[trigger] r[a]).word_ == w by { assert(r[a] == if a < j { s[a] } else { s[a + 1] }); }
}
@@end

@@spec C08
pub ghost enum Op { Ins { le: LexEntry }, Rem { le: LexEntry }, Ask }
pub open spec fn op_ok(op: Op) -> bool { match op { Op::Ins { le } => utf8(le.word_), _ => true } }
// what the contracts say of one call
pub open spec fn op_step(a: Lexicon, op: Op, b: Lexicon) -> bool {
    match op {
        Op::Ins { le } => ins_post(a, le, b),
        Op::Rem { le } => rem_post(a, le, b),
        Op::Ask => lex_inv(a) ==> lex_inv(b) && b.lex_ == a.lex_,
    }
}
pub open spec fn history(ls: Seq<Lexicon>, ops: Seq<Op>) -> bool {
    ls.len() == ops.len() + 1 && ls[0].lex_ == Map::<Str, Seq<LexEntry>>::empty() && caches(ls[0]) && forall|i: int| 0 <= i < ops.len() ==> op_ok(ops[i]) && #[trigger] op_step(ls[i], ops[i], ls[i + 1])
}
// the definitions of a word after a history
pub open spec fn content(ops: Seq<Op>, w: Str) -> Seq<LexEntry> decreases ops.len() {
    if ops.len() == 0 { Seq::<LexEntry>::empty() } else {
        let c = content(ops.drop_last(), w);
        match ops.last() {
            Op::Ins { le } => if le.word_ == w { with(c, le) } else { c },
            Op::Rem { le } => if le.word_ == w { without(c, le) } else { c },
            Op::Ask => c,
        }
    }
}
pub proof fn C08_lookup_yields_the_content(ls: Seq<Lexicon>, ops: Seq<Op>, n: int, w: Str)
    requires history(ls, ops), 0 <= n <= ops.len()
    ensures defs(ls[n], w) == content(ops.subrange(0, n), w), lex_inv(ls[n])
    decreases n
{
    let o = ops.subrange(0, n);
    if n == 0 { assert(!ls[0].lex_.dom().contains(w)); }
    else {
        C08_lookup_yields_the_content(ls, ops, n - 1, w);
        assert(o.drop_last() =~= ops.subrange(0, n - 1));
        assert(op_step(ls[n - 1], ops[n - 1], ls[n - 1 + 1]));
        assert(op_ok(ops[n - 1]));
    }
}
pub open spec fn live_at(ops: Seq<Op>, e: LexEntry, i: int) -> bool { 0 <= i < ops.len() && ops[i] == (Op::Ins { le: e }) && forall|j: int| i < j < ops.len() ==> #[trigger] ops[j] != (Op::Rem { le: e }) }
// exactly the definitions inserted and not removed since, each once
pub proof fn C08_inserted_and_not_removed_since(ops: Seq<Op>, w: Str, e: LexEntry)
    ensures
        content(ops, w).contains(e) <==> e.word_ == w && exists|i: int| live_at(ops, e, i),
        no_doubles(content(ops, w)), of_word(content(ops, w), w),
    decreases ops.len()
{
    if ops.len() > 0 {
        let p = ops.drop_last(); let c = content(p, w); let n = ops.len() - 1;
        C08_inserted_and_not_removed_since(p, w, e);
        match ops.last() {
            Op::Ins { le } => {
                if le.word_ == w { lemma_with(c, le, w); }
                assert(c.push(le).contains(e) <==> c.contains(e) || e == le) by { if c.contains(e) { let i = choose|i: int| 0 <= i < c.len() && c[i] == e; assert(c.push(le)[i] == e); } if e == le { assert(c.push(le)[c.len() as int] == e); } }
            }
            Op::Rem { le } => {
                if le.word_ == w && c.contains(le) {
                    let j = choose|j: int| 0 <= j < c.len() && c[j] == le;
                    lemma_without(c, le, w, j);
                    let r = c.remove(j);
                    assert(r.contains(e) <==> c.contains(e) && e != le) by {
                        if r.contains(e) { let i = choose|i: int| 0 <= i < r.len() && r[i] == e; if i < j { assert(c[i] == e); } else { assert(c[i + 1] == e); } }
                        if c.contains(e) && e != le { let i = choose|i: int| 0 <= i < c.len() && c[i] == e; if i < j { assert(r[i] == e); } else { assert(r[i - 1] == e); } }
                    }
                }
            }
            Op::Ask => {}
        }
        // the live insertions of the longer history
        if exists|i: int| live_at(p, e, i) {
            let i = choose|i: int| live_at(p, e, i);
            if ops.last() != (Op::Rem { le: e }) {
                assert forall|j: int| i < j < ops.len() implies #[trigger] ops[j] != (Op::Rem { le: e }) by { if j < n { assert(p[j] == ops[j]); } }
                assert(ops[i] == p[i]); assert(live_at(ops, e, i));
            }
        }
        if exists|i: int| live_at(ops, e, i) {
            let i = choose|i: int| live_at(ops, e, i);
            if i < n {
                assert forall|j: int| i < j < p.len() implies #[trigger] p[j] != (Op::Rem { le: e }) by { assert(p[j] == ops[j]); }
                assert(p[i] == ops[i]); assert(live_at(p, e, i));
                assert(ops[n] != (Op::Rem { le: e }));
            } else { assert(ops.last() == ops[i]); }
        }
        if ops.last() == (Op::Ins { le: e }) { assert(live_at(ops, e, n)); }
    }
}
// in order of insertion: an insertion puts the definition behind those there, a removal keeps the order of the others
pub open spec fn before_in(s: Seq<LexEntry>, p: LexEntry, q: LexEntry) -> bool { exists|a: int, b: int| 0 <= a < b < s.len() && #[trigger] s[a] == p && #[trigger] s[b] == q }
pub open spec fn keeps_order(s: Seq<LexEntry>, r: Seq<LexEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> before_in(s, #[trigger] r[i], #[trigger] r[j]) }
pub proof fn C08_order_is_kept(s: Seq<LexEntry>, x: LexEntry, w: Str)
    requires no_doubles(s), of_word(s, w)
    ensures !s.contains(x) ==> with(s, x) == s.push(x), s.contains(x) ==> with(s, x) == s, keeps_order(s, without(s, x)),
{
    let r = without(s, x);
    let k = if s.contains(x) { s.index_of(x) } else { s.len() as int };
    if s.contains(x) { lemma_without(s, x, w, k); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies before_in(s, #[trigger] r[i], #[trigger] r[j]) by {
        let a = if i < k { i } else { i + 1 }; let b = if j < k { j } else { j + 1 };
        assert(s[a] == r[i] && s[b] == r[j]);
    }
}
@@end
@@spec
pub open spec fn put(m: Map<Str, Seq<LexEntry>>, le: LexEntry) -> Map<Str, Seq<LexEntry>> { m.insert(le.word_, with(defs_of(m, le.word_), le)) }
pub open spec fn ins_post(a: Lexicon, le: LexEntry, b: Lexicon) -> bool {
    &&& lex_shape(a.lex_) ==> lex_shape(b.lex_) && b.lex_ == put(a.lex_, le)
    &&& lex_inv(a) && utf8(le.word_) ==> lex_inv(b)
    &&& defs(b, le.word_) == with(defs(a, le.word_), le)
    &&& forall|w: Str| w != le.word_ ==> #[trigger] defs(b, w) == defs(a, w)
    &&& same_head(a, b)
}
pub open spec fn rem_post(a: Lexicon, le: LexEntry, b: Lexicon) -> bool {
    lex_inv(a) ==> {
        &&& lex_inv(b)
        &&& defs(b, le.word_) == without(defs(a, le.word_), le)
        &&& forall|w: Str| w != le.word_ ==> #[trigger] defs(b, w) == defs(a, w)
        &&& same_head(a, b)
    }
}
@@end

@@fn Lexicon::find(string)
params: this key
ensures $ret == defs($this, $key), $this' == $this,
@@end
@@fn Lexicon::insert(LexEntry)
params: this le
vars: entries Seq<LexEntry>
requires lex_shape($this.lex_),
ensures ins_post($this, $le, $this'),
@@entry
let e0 = defs($$this, $$le.word_);
lemma_with(e0, $$le, $$le.word_);
@@loop 1
invariant $this == $$this, $entries == defs($$this, $$le.word_), forall|j: int| 0 <= j < $i ==> $entries[j] != $$le,
@@return
let w = $$le.word_; let e = defs($$this, w);
if $this.lex_ == $$this.lex_ {
    assert(e.contains($$le));
    assert($this.lex_ =~= put($$this.lex_, $$le));
} else {
    assert(!e.contains($$le)) by { if e.contains($$le) { let i = choose|i: int| 0 <= i < e.len() && e[i] == $$le; assert(e[i] != $$le); } }
    assert($this.lex_ =~= put($$this.lex_, $$le));
    assert forall|k: Str| #[trigger] $this.lex_.dom().contains(k) implies $this.lex_[k].len() > 0 && no_doubles($this.lex_[k]) && of_word($this.lex_[k], k) by { if k != w { assert($$this.lex_.dom().contains(k)); } }
}
@@end
@@fn Lexicon::remove(LexEntry)
params: this le
vars: entries Seq<LexEntry>; entry int
requires lex_inv($this),
ensures rem_post($this, $le, $this'),
@@entry
let ghost e0 = defs($$this, $$le.word_);
@@loop 1
invariant_except_break
    $this == $$this, $entries == e0, 0 <= $entry <= $entries.len(), forall|j: int| 0 <= j < $entry ==> $entries[j] != $$le,
ensures
    same_head($this, $$this),
    ($this == $$this && forall|j: int| 0 <= j < e0.len() ==> e0[j] != $$le) || (e0.contains($$le) && $this.lex_ =~= (if e0.len() == 1 { $$this.lex_.remove($$le.word_) } else { $$this.lex_.insert($$le.word_, without(e0, $$le)) })),
decreases $entries.len() - $entry,
@@loopbody 1
if $entries[$entry] == $$le { lemma_without(e0, $$le, $$le.word_, $entry); assert(e0.contains($$le)); }
@@return
let w = $$le.word_;
if e0.len() == 0 { assert(!e0.contains($$le)); }
if $this.lex_ == $$this.lex_ {
    assert(!e0.contains($$le)) by { if e0.contains($$le) { let i = choose|i: int| 0 <= i < e0.len() && e0[i] == $$le; lemma_without(e0, $$le, w, i); assert(without(e0, $$le).len() == e0.len() - 1); } }
} else {
    let i = choose|i: int| 0 <= i < e0.len() && e0[i] == $$le;
    lemma_without(e0, $$le, w, i);
    assert forall|k: Str| #[trigger] $this.lex_.dom().contains(k) implies utf8(k) && $this.lex_[k].len() > 0 && no_doubles($this.lex_[k]) && of_word($this.lex_[k], k) by { assert($$this.lex_.dom().contains(k)); }
    assert(lex_shape($this.lex_) && keys_utf8($this.lex_));
}
assert(defs($this, w) =~= without(e0, $$le));
@@end
@@fn Lexicon::regex()
params: this
vars: trie TrieUtf8
requires lex_inv($this),
ensures !$throws, all_expr($ret, $this.lex_), lex_inv($this'), $this'.lex_ == $this.lex_, same_head($this, $this'),
@@before 1
lemma_empty_holds($trie);
assert(upto_keys($$this.lex_, 0, -1) == Set::<Str>::empty());
@@loop 1
invariant $this == $$this, holds_words($trie, upto_keys($$this.lex_, $i, -1)),
@@loopbody 1
let t0 = $trie;
lemma_key($$this.lex_, $i);
assert forall|u: TrieUtf8| added(t0, map_keys($$this.lex_)[$i], u) implies #[trigger] holds_words(u, upto_keys($$this.lex_, $i + 1, -1)) by { lemma_added(t0, u, upto_keys($$this.lex_, $i, -1), map_keys($$this.lex_)[$i]); }
@@afterloop 1
lemma_all_keys($$this.lex_, -1);
assert forall|s: Str| #[trigger] expr_for(s, $trie) implies all_expr(s + #"|", $$this.lex_) by { lemma_spells($trie, $$this.lex_.dom(), s); assert(spells(s, $$this.lex_.dom())); }
@@end
@@fn Lexicon::regexPrefixAtt()
params: this
vars: trie TrieUtf8
requires lex_inv($this),
ensures !$throws, pre_expr($ret, $this.lex_), lex_inv($this'), $this'.lex_ == $this.lex_, same_head($this, $this'),
@@before 1
lemma_empty_holds($trie);
assert(upto_keys($$this.lex_, 0, #InClass::ATT_PRE) == Set::<Str>::empty());
@@loop 1
invariant $this == $$this, holds_words($trie, upto_keys($$this.lex_, $i, #InClass::ATT_PRE)),
@@loopbody 1
lemma_key($$this.lex_, $i);
@@loop 2
invariant $this == $$this, $i1 < map_keys($$this.lex_).len(),
    holds_words($trie, if attached_upto($$this.lex_[map_keys($$this.lex_)[$i1]], $i2, #InClass::ATT_PRE) { upto_keys($$this.lex_, $i1, #InClass::ATT_PRE).insert(map_keys($$this.lex_)[$i1]) } else { upto_keys($$this.lex_, $i1, #InClass::ATT_PRE) }),
@@loopbody 2
broadcast use containers;
let t0 = $trie; let k = map_keys($$this.lex_)[$i1]; let ws = upto_keys($$this.lex_, $i1, #InClass::ATT_PRE);
let e = $$this.lex_[k];
assert(attached_upto(e, $i2 + 1, #InClass::ATT_PRE) <==> attached_upto(e, $i2, #InClass::ATT_PRE) || e[$i2].attached_.contains(#InClass::ATT_PRE)) by { if e[$i2].attached_.contains(#InClass::ATT_PRE) { assert(0 <= $i2 < $i2 + 1); } }
assert(ws.insert(k).insert(k) =~= ws.insert(k));
assert forall|u: TrieUtf8| added(t0, k, u) implies #[trigger] holds_words(u, ws.insert(k)) by { if attached_upto(e, $i2, #InClass::ATT_PRE) { lemma_added(t0, u, ws.insert(k), k); } else { lemma_added(t0, u, ws, k); } }
@@afterloop 1
lemma_all_keys($$this.lex_, #InClass::ATT_PRE);
assert forall|s: Str| #[trigger] expr_for(s, $trie) implies pre_expr((#"^" + s) + #"\\B", $$this.lex_) by { lemma_spells($trie, words_att($$this.lex_, #InClass::ATT_PRE), s); assert(spells(s, words_att($$this.lex_, #InClass::ATT_PRE))); }
@@end
@@fn Lexicon::regexSuffixAtt()
params: this
vars: trie TrieUtf8
requires lex_inv($this),
ensures !$throws, suf_expr($ret, $this.lex_), lex_inv($this'), $this'.lex_ == $this.lex_, same_head($this, $this'),
@@before 1
lemma_empty_holds($trie);
assert(upto_keys($$this.lex_, 0, #InClass::ATT_SUF) == Set::<Str>::empty());
@@loop 1
invariant $this == $$this, holds_words($trie, upto_keys($$this.lex_, $i, #InClass::ATT_SUF)),
@@loopbody 1
lemma_key($$this.lex_, $i);
@@loop 2
invariant $this == $$this, $i1 < map_keys($$this.lex_).len(),
    holds_words($trie, if attached_upto($$this.lex_[map_keys($$this.lex_)[$i1]], $i2, #InClass::ATT_SUF) { upto_keys($$this.lex_, $i1, #InClass::ATT_SUF).insert(map_keys($$this.lex_)[$i1]) } else { upto_keys($$this.lex_, $i1, #InClass::ATT_SUF) }),
@@loopbody 2
broadcast use containers;
let t0 = $trie; let k = map_keys($$this.lex_)[$i1]; let ws = upto_keys($$this.lex_, $i1, #InClass::ATT_SUF);
let e = $$this.lex_[k];
assert(attached_upto(e, $i2 + 1, #InClass::ATT_SUF) <==> attached_upto(e, $i2, #InClass::ATT_SUF) || e[$i2].attached_.contains(#InClass::ATT_SUF)) by { if e[$i2].attached_.contains(#InClass::ATT_SUF) { assert(0 <= $i2 < $i2 + 1); } }
assert(ws.insert(k).insert(k) =~= ws.insert(k));
assert forall|u: TrieUtf8| added(t0, k, u) implies #[trigger] holds_words(u, ws.insert(k)) by { if attached_upto(e, $i2, #InClass::ATT_SUF) { lemma_added(t0, u, ws.insert(k), k); } else { lemma_added(t0, u, ws, k); } }
@@afterloop 1
lemma_all_keys($$this.lex_, #InClass::ATT_SUF);
assert forall|s: Str| #[trigger] expr_for(s, $trie) implies suf_expr(s, $$this.lex_) by { lemma_spells($trie, words_att($$this.lex_, #InClass::ATT_SUF), s); }
@@end
