@@uses lexicon classes lang md5 unicode
@@spec
// runs of blanks become one blank (as the library replaces the expression)
pub open spec fn squeezed(s: Str) -> Str { re_replace(re_make(#"( +)", false), s, #" ") }
pub open spec fn none() -> Str { Seq::<int>::empty() }
// the fields of an entry line, as read from left to right
pub open spec fn entry_of(line: Str) -> LexEntry {
    let a = line_read(stream_of(line), none(), 9);
    let w = if a.1 == #"LEXENTRY:" || a.1 == #"LexEntry:" { line_read(a.0, a.1, 9) } else { a };
    let s = line_read(w.0, none(), 9);
    let t = line_read(s.0, none(), 9);
    let d = line_read(t.0, none(), 9);
    LexEntry { word_: w.1, stdword_: s.1, type_: codes_of(t.1), attached_: atts_of(d.1) }
}
pub open spec fn entry_line(e: LexEntry) -> Str { #"LEXENTRY:" + #"\t" + e.word_ + #"\t" + e.stdword_ + #"\t" + in_names(e.type_) + #"\t" + att_names(e.attached_) }
pub open spec fn unread(st: Stream) -> int { if st.fail { 0 } else if st.eof { 1 } else { st.rest.len() as int + 2 } }
pub proof fn lemma_unread(st: Stream, old: Str, d: int)
    ensures !st.fail ==> unread(line_read(st, old, d).0) < unread(st), unread(line_read(st, old, d).0) >= 0,
        line_read(st, old, d).1.len() <= st.rest.len() || line_read(st, old, d).1 == old,
        line_read(st, old, d).0.rest.len() <= st.rest.len(),
        !line_read(st, old, d).0.fail ==> line_read(st, old, d) == line_read(st, none(), d),
        line_read(st, old, d).0 == line_read(st, none(), d).0,
{ lemma_upto(st.rest, d, 0); }
pub open spec fn opens(s: Str, w: Str) -> bool { str_sub(s, 0, w.len() as int) == w }
pub open spec fn no_bom(l: Str) -> Str { if l.len() >= 3 && l[0] == 0 - 17 && l[1] == 0 - 69 && l[2] == 0 - 65 { l.subrange(3, l.len() as int) } else { l } }
// the line that starts the lexicon, and what follows it
pub open spec fn header(st: Stream, line: Str) -> Option<(Stream, Str)>
    decreases unread(st)
    when unread(st) >= 0
    via header_ends
{
    if st.fail { None }
    else if opens(line, #"LEXICON:") { Some((st, line)) }
    else if opens(line, #"LEXENTRY:") { None }
    else { let r = line_read(st, line, 10); header(r.0, r.1) }
}
#[via_fn]
proof fn header_ends(st: Stream, line: Str) { lemma_unread(st, line, 10); }
// an entry is read from its line in normal form, in upper case when there is a locale
pub open spec fn prepared(line: Str, locale: Str) -> Str { if locale.len() == 0 { nfc(line) } else { upper(nfc(line), locale) } }
pub open spec fn entry_head(l: Str) -> bool { opens(l, #"LEXENTRY:") || opens(l, #"LexEntry:") }
pub open spec fn next_entry(m: Map<Str, Seq<LexEntry>>, l: Str, locale: Str) -> Option<Map<Str, Seq<LexEntry>>> {
    if l.len() == 0 { Some(m) }
    else if !entry_head(l) { None }
    else { let e = entry_of(prepared(l, locale)); if e.type_.contains(#InClass::BADTOKEN) { None } else { Some(put(m, e)) } }
}
// the words from this line on
pub open spec fn entries(st: Stream, line: Str, m: Map<Str, Seq<LexEntry>>, locale: Str) -> Option<Map<Str, Seq<LexEntry>>>
    decreases unread(st)
    when unread(st) >= 0
    via entries_end
{
    if st.fail { Some(m) } else {
        let r = line_read(st, none(), 10);
        match next_entry(m, squeezed(line), locale) { None => None, Some(w) => entries(r.0, r.1, w, locale) }
    }
}
#[via_fn]
proof fn entries_end(st: Stream, line: Str, m: Map<Str, Seq<LexEntry>>, locale: Str) { lemma_unread(st, none(), 10); }
pub proof fn lemma_entries(st: Stream, line: Str, old: Str, m: Map<Str, Seq<LexEntry>>, locale: Str)
    requires !st.fail
    ensures
        next_entry(m, squeezed(line), locale) is None ==> entries(st, line, m, locale) is None,
        next_entry(m, squeezed(line), locale) is Some ==> entries(st, line, m, locale) == entries(line_read(st, old, 10).0, line_read(st, old, 10).1, next_entry(m, squeezed(line), locale)->0, locale),
{
    lemma_unread(st, old, 10); lemma_unread(st, none(), 10);
    let r = line_read(st, none(), 10); let q = line_read(st, old, 10);
    if next_entry(m, squeezed(line), locale) is Some { let w = next_entry(m, squeezed(line), locale)->0; if r.0.fail { assert(entries(r.0, r.1, w, locale) == Some(w)); assert(entries(q.0, q.1, w, locale) == Some(w)); } else { assert(r == q); } }
}
// the text of the lines that are left, one after the other
pub open spec fn text_left(st: Stream) -> Str
    decreases unread(st)
    when unread(st) >= 0
    via text_ends
{
    let r = line_read(st, none(), 10);
    if st.fail || r.0.fail { none() } else { r.1 + text_left(r.0) }
}
#[via_fn]
proof fn text_ends(st: Stream) { lemma_unread(st, none(), 10); }
pub proof fn lemma_text_left(st: Stream, old: Str)
    requires !st.fail
    ensures !line_read(st, old, 10).0.fail ==> text_left(st) == line_read(st, old, 10).1 + text_left(line_read(st, old, 10).0), line_read(st, old, 10).0.fail ==> text_left(st) == none()
{ lemma_unread(st, old, 10); lemma_unread(st, none(), 10); }
// a lexicon that loads is in order
pub proof fn lemma_entry_word(l: Str)
    requires utf8(l)
    ensures utf8(entry_of(l).word_)
{ lemma_whole_field(stream_of(l), none()); let a = line_read(stream_of(l), none(), 9); lemma_whole_field(a.0, a.1); }
pub proof fn lemma_prepared(l: Str, locale: Str) ensures utf8(prepared(l, locale)), utf8(entry_of(prepared(l, locale)).word_) { axiom_well_formed(l, locale); axiom_well_formed(nfc(l), locale); lemma_entry_word(prepared(l, locale)); }
pub proof fn lemma_next_in_order(m: Map<Str, Seq<LexEntry>>, l: Str, locale: Str)
    requires lex_ok(m), next_entry(m, l, locale) is Some
    ensures lex_ok(next_entry(m, l, locale)->0)
{
    lemma_prepared(l, locale);
    let e = entry_of(prepared(l, locale));
    if m.dom().contains(e.word_) { } else { assert(of_word(Seq::<LexEntry>::empty(), e.word_)); }
    lemma_with(defs_of(m, e.word_), e, e.word_);
}
pub proof fn lemma_entries_in_order(st: Stream, line: Str, m: Map<Str, Seq<LexEntry>>, locale: Str)
    requires lex_ok(m), entries(st, line, m, locale) is Some, unread(st) >= 0
    ensures lex_ok(entries(st, line, m, locale)->0)
    decreases unread(st)
{
    lemma_unread(st, none(), 10);
    if !st.fail && next_entry(m, squeezed(line), locale) is Some { lemma_next_in_order(m, squeezed(line), locale); let r = line_read(st, none(), 10); lemma_entries_in_order(r.0, r.1, next_entry(m, squeezed(line), locale)->0, locale); }
}
pub ghost struct Loaded { pub lang: int, pub locale: Str, pub words: Map<Str, Seq<LexEntry>> }
pub open spec fn loaded(st: Stream, m: Map<Str, Seq<LexEntry>>, locale: Str) -> Option<Loaded> {
    let a = line_read(st, none(), 10);
    match header(a.0, no_bom(a.1)) {
        None => None,
        Some((rest, line)) => {
            let f0 = line_read(stream_of(line), none(), 9);
            let f1 = line_read(f0.0, f0.1, 9);
            let f2 = line_read(f1.0, f1.1, 9);
            let f3 = line_read(f2.0, locale, 9);
            if f0.1 != #"LEXICON:" && f0.1 != #"Lexicon:" { None }
            else { let e = line_read(rest, none(), 10); match entries(e.0, e.1, m, f3.1) { None => None, Some(w) => Some(Loaded { lang: lang_of(f2.1), locale: f3.1, words: w }) } }
        }
    }
}
pub proof fn lemma_loaded_in_order(st: Stream, m: Map<Str, Seq<LexEntry>>, locale: Str)
    requires lex_ok(m), loaded(st, m, locale) is Some
    ensures lex_ok(loaded(st, m, locale)->0.words)
{
    let a = line_read(st, none(), 10); let h = header(a.0, no_bom(a.1))->0;
    let f0 = line_read(stream_of(h.1), none(), 9); let f1 = line_read(f0.0, f0.1, 9); let f2 = line_read(f1.0, f1.1, 9); let f3 = line_read(f2.0, locale, 9);
    let e = line_read(h.0, none(), 10);
    lemma_unread(h.0, none(), 10);
    lemma_entries_in_order(e.0, e.1, m, f3.1);
}
pub open spec fn defs_text(s: Seq<LexEntry>, n: int) -> Str decreases n { if n <= 0 { none() } else { defs_text(s, n - 1) + entry_line(s[n - 1]) + #"\n" } }
pub open spec fn keys_text(m: Map<Str, Seq<LexEntry>>, n: int) -> Str decreases n { if n <= 0 { none() } else { keys_text(m, n - 1) + defs_text(m[map_keys(m)[n - 1]], m[map_keys(m)[n - 1]].len() as int) } }
pub open spec fn top_line(l: Lexicon) -> Str { #"LEXICON:" + #"\t" + l.name_ + #"\t" + lang_code_name(l.lang_) + #"\t" + l.locale_ + #"\t" + int_to_str(map_keys(l.lex_).len() as int) }
pub open spec fn lex_text(l: Lexicon) -> Str { top_line(l) + #"\n" + keys_text(l.lex_, map_keys(l.lex_).len() as int) }
@@end
@@fn LexEntry::LexEntry(string)
params: line
requires $line.len() < npos() - 1,
ensures $ret == entry_of($line),
@@entry
let l = $$line;
let a = line_read(stream_of(l), none(), 9);
lemma_unread(stream_of(l), none(), 9);
let w = if a.1 == #"LEXENTRY:" || a.1 == #"LexEntry:" { line_read(a.0, a.1, 9) } else { a };
lemma_unread(a.0, a.1, 9);
let s = line_read(w.0, none(), 9);
lemma_unread(w.0, none(), 9);
let t = line_read(s.0, none(), 9);
lemma_unread(s.0, none(), 9);
lemma_unread(t.0, none(), 9);
@@end
@@fn operator<<(stream&,LexEntry)
params: ss le
ensures $ss' == (Stream { rest: $ss.rest + entry_line($le), ..$ss }),
@@return
assert($ss.rest =~= $$ss.rest + entry_line($$le));
@@end
@@fn Lexicon::initialize(stream&)
params: this is
vars: line Str; lexicon_in Str#2
requires lex_shape($this.lex_), !$is.fail,
ensures
    $throws <==> loaded($is, $this.lex_, $this.locale_) is None,
    !$throws ==> $this'.lang_ == loaded($is, $this.lex_, $this.locale_)->0.lang && $this'.locale_ == loaded($is, $this.lex_, $this.locale_)->0.locale
        && $this'.lex_ == loaded($is, $this.lex_, $this.locale_)->0.words && $this'.name_ == $this.name_ && lex_shape($this'.lex_),
    !$throws ==> $this'.md5_ == md5_of(text_left($is)),
    !$throws && lex_inv($this) ==> lex_inv($this'),
@@entry
let ghost st0 = line_read($$is, none(), 10).0;
let ghost line0 = no_bom(line_read($$is, none(), 10).1);
lemma_unread($$is, none(), 10); lemma_text_left($$is, none());
@@loop 1
invariant $this == $$this, !$is.fail ==> text_left($$is) == $lexicon_in + text_left($is), header(st0, line0) == header($is, $line), unread($is) >= 0,
decreases unread($is)
@@loopbody 1
lemma_unread($is, $line, 10); lemma_text_left($is, $line);
if !line_read($is, $line, 10).0.fail { assert(($lexicon_in + line_read($is, $line, 10).1) + text_left(line_read($is, $line, 10).0) =~= $lexicon_in + text_left($is)); }
@@afterloop 1
let ghost rest1 = $is; let ghost line1 = $line;
let ghost f0 = line_read(stream_of(line1), none(), 9); let ghost f1 = line_read(f0.0, f0.1, 9); let ghost f2 = line_read(f1.0, f1.1, 9); let ghost f3 = line_read(f2.0, $$this.locale_, 9);
let ghost first = line_read(rest1, none(), 10);
lemma_unread(rest1, line1, 10); if !rest1.fail { lemma_text_left(rest1, line1); }
@@loop 2
invariant
    lex_shape($this.lex_), $this.name_ == $$this.name_, $this.lang_ == lang_of(f2.1), $this.locale_ == f3.1,
    unread($is) >= 0, lex_inv($$this) ==> lex_inv($this),
    text_left($$is) == $lexicon_in + (if $is.fail { none() } else { $line + text_left($is) }),
    entries($is, $line, $this.lex_, f3.1) == entries(first.0, first.1, $$this.lex_, f3.1),
decreases unread($is)
@@loopbody 2
if f3.1.len() == 0 { assert(f3.1 =~= none()); }
lemma_entries($is, $line, squeezed($line), $this.lex_, f3.1);
lemma_entries($is, $line, prepared(squeezed($line), f3.1), $this.lex_, f3.1);
lemma_unread($is, squeezed($line), 10);
lemma_unread($is, prepared(squeezed($line), f3.1), 10);
lemma_unread($is, $line, 10); lemma_prepared(squeezed($line), f3.1);
lemma_text_left($is, $line); lemma_text_left($is, squeezed($line)); lemma_text_left($is, prepared(squeezed($line), f3.1));
assert($lexicon_in + ($line + text_left($is)) =~= ($lexicon_in + $line) + text_left($is));
@@end
@@fn operator<<(stream&,Lexicon)
params: ss lex
requires lang_valid($lex.lang_),
ensures $ss' == (Stream { rest: $ss.rest + lex_text($lex), ..$ss }),
@@before 1
let ghost h = top_line($lex) + #"\n";
assert($ss.rest =~= $$ss.rest + (top_line($lex) + #"\n"));
@@loop 1
invariant $lex == $$lex, $ss.eof == $$ss.eof, $ss.fail == $$ss.fail, $ss.rest == $$ss.rest + (h + keys_text($lex.lex_, $i)),
@@loop 2
invariant $i1 < map_keys($lex.lex_).len(), $lex == $$lex, $ss.eof == $$ss.eof, $ss.fail == $$ss.fail, $ss.rest == $$ss.rest + (h + (keys_text($lex.lex_, $i1) + defs_text($lex.lex_[map_keys($lex.lex_)[$i1]], $i2))),
@@loopend 2
let a = keys_text($lex.lex_, $i1); let d = $lex.lex_[map_keys($lex.lex_)[$i1]];
assert($ss.rest =~= $$ss.rest + (h + (a + defs_text(d, $i2))));
@@end

@@spec C26
// ---- an entry, written and read ------------------------------------------------------------------
pub open spec fn one_line(s: Str) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 9 && s[k] != 10 }
pub open spec fn entry_fits(e: LexEntry) -> bool {
    one_line(e.word_) && one_line(e.stdword_) && e.word_ != #"LEXENTRY:" && e.word_ != #"LexEntry:"
    && (forall|t: int| #[trigger] e.type_.contains(t) ==> in_valid(t)) && (forall|t: int| #[trigger] e.attached_.contains(t) ==> att_valid(t))
}
pub proof fn lemma_upto_at(a: Str, c: Str, d: int, i: int)
    requires 0 <= i <= a.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] a[k] != d, c.len() == 0 || c[0] == d
    ensures upto(a + c, d, i) == a.len()
    decreases a.len() - i
{ if i < a.len() { assert((a + c)[i] == a[i]); lemma_upto_at(a, c, d, i + 1); } else if c.len() > 0 { assert((a + c)[i] == d); } }
// reading a field that ends at d
pub proof fn lemma_field(st: Stream, f: Str, rest: Str, old: Str, d: int)
    requires !st.fail, !st.eof, st.rest == f + seq![d] + rest, forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k] != d
    ensures line_read(st, old, d) == (Stream { rest: rest, eof: false, fail: false }, f)
{
    let c = seq![d] + rest;
    assert(st.rest =~= f + c);
    lemma_upto_at(f, c, d, 0);
    assert(st.rest.subrange(0, f.len() as int) =~= f);
    assert(st.rest.subrange(f.len() as int + 1, st.rest.len() as int) =~= rest);
}
// reading the last field
pub proof fn lemma_last_field(st: Stream, f: Str, d: int)
    requires !st.fail, !st.eof, st.rest == f, forall|k: int| 0 <= k < f.len() ==> #[trigger] f[k] != d
    ensures line_read(st, none(), d).1 == f
{ let c = none(); assert(f + c =~= f); lemma_upto_at(f, c, d, 0); }
pub open spec fn tail_of(e: LexEntry) -> Str { in_names(e.type_) + #"\t" + att_names(e.attached_) }
pub open spec fn tail2_of(e: LexEntry) -> Str { e.stdword_ + #"\t" + tail_of(e) }
pub open spec fn tail3_of(e: LexEntry) -> Str { e.word_ + #"\t" + tail2_of(e) }
pub proof fn lemma_names_plain(s: Set<int>, k: int)
    requires 0 <= k <= s.len()
    ensures forall|i: int| 0 <= i < names_upto(s, k).len() ==> #[trigger] names_upto(s, k)[i] > 10
    decreases k
{
    lits();
    if k > 0 { lemma_names_plain(s, k - 1); lemma_clean_in(set_items(s)[k - 1]); lemma_clean_in(set_items(s)[0]);
        let a = names_upto(s, k - 1); let w = in_name(set_items(s)[k - 1]); let z = names_upto(s, k);
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] > 10 by { if k > 1 { if i < a.len() { assert(z[i] == a[i]); } else if i > a.len() { assert(z[i] == w[i - a.len() - 1]); } } else { assert(z == w); assert(w[i] > 44); } }
    }
}
pub proof fn lemma_atts_plain(s: Set<int>, k: int)
    requires 0 <= k <= s.len(), forall|t: int| #[trigger] s.contains(t) ==> att_valid(t)
    ensures forall|i: int| 0 <= i < atts_upto(s, k).len() ==> #[trigger] atts_upto(s, k)[i] > 10
    decreases k
{
    broadcast use containers;
    lits();
    if k > 0 { assert(s.contains(set_items(s)[k - 1]) && s.contains(set_items(s)[0])); lemma_atts_plain(s, k - 1); lemma_clean_att(set_items(s)[k - 1]); lemma_clean_att(set_items(s)[0]);
        let a = atts_upto(s, k - 1); let w = att_name(set_items(s)[k - 1]); let z = atts_upto(s, k);
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] > 10 by { if k > 1 { if i < a.len() { assert(z[i] == a[i]); } else if i > a.len() { assert(z[i] == w[i - a.len() - 1]); } } else { assert(z == w); assert(w[i] > 44); } }
    }
}
pub proof fn C26_an_entry_written_and_read_is_the_entry(e: LexEntry)
    requires entry_fits(e)
    ensures entry_of(entry_line(e)) == e, one_line_but_tabs(entry_line(e))
{
    lits();
    reveal(#"LEXENTRY:");
    let kw = #"LEXENTRY:";
    let l = entry_line(e);
    let names = in_names(e.type_); let atts = att_names(e.attached_);
    lemma_names_plain(e.type_, e.type_.len() as int); lemma_atts_plain(e.attached_, e.attached_.len() as int);
    assert(#"\t" =~= seq![9int]);
    assert(l =~= kw + seq![9int] + tail3_of(e));
    lemma_field(stream_of(l), kw, tail3_of(e), none(), 9);
    let a = line_read(stream_of(l), none(), 9);
    assert(tail3_of(e) =~= e.word_ + seq![9int] + tail2_of(e));
    lemma_field(a.0, e.word_, tail2_of(e), a.1, 9);
    let w = line_read(a.0, a.1, 9);
    assert(tail2_of(e) =~= e.stdword_ + seq![9int] + tail_of(e));
    lemma_field(w.0, e.stdword_, tail_of(e), none(), 9);
    let s = line_read(w.0, none(), 9);
    assert(tail_of(e) =~= names + seq![9int] + atts);
    lemma_field(s.0, names, atts, none(), 9);
    let t = line_read(s.0, none(), 9);
    lemma_last_field(t.0, atts, 9);
    if e.type_.len() > 0 { C13_class_sets_round_trip(e.type_); } else { C13_empty_class_set(e.type_); assert(e.type_ =~= Set::<int>::empty()); }
    if e.attached_.len() > 0 { C13_attachment_sets_round_trip(e.attached_); } else { assert(atts =~= none()); assert(atts_of(atts) =~= Set::<int>::empty()); assert(e.attached_ =~= Set::<int>::empty()); }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != 10 by {
        let n1 = kw.len() as int; let n2 = n1 + 1 + e.word_.len(); let n3 = n2 + 1 + e.stdword_.len(); let n4 = n3 + 1 + names.len();
        if i < n1 { assert(l[i] == kw[i]); } else if i == n1 {} else if i < n2 { assert(l[i] == e.word_[i - n1 - 1]); } else if i == n2 {} else if i < n3 { assert(l[i] == e.stdword_[i - n2 - 1]); } else if i == n3 {}
        else if i < n4 { assert(l[i] == names[i - n3 - 1]); } else if i == n4 {} else { assert(l[i] == atts[i - n4 - 1]); }
    }
}
pub open spec fn one_line_but_tabs(s: Str) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 10 }
// ---- a lexicon, written and read -----------------------------------------------------------------
// an entry that loading leaves as it is, and accepts
pub open spec fn entry_settled(e: LexEntry, locale: Str) -> bool {
    let l = entry_line(e);
    entry_fits(e) && !e.type_.contains(#InClass::BADTOKEN) && squeezed(l) == l && prepared(l, locale) == l
}
pub open spec fn lines_text(es: Seq<LexEntry>) -> Str decreases es.len() { if es.len() == 0 { none() } else { entry_line(es[0]) + #"\n" + lines_text(es.drop_first()) } }
pub open spec fn put_all(m: Map<Str, Seq<LexEntry>>, es: Seq<LexEntry>) -> Map<Str, Seq<LexEntry>> decreases es.len() { if es.len() == 0 { m } else { put_all(put(m, es[0]), es.drop_first()) } }
pub open spec fn flat(m: Map<Str, Seq<LexEntry>>, n: int) -> Seq<LexEntry> decreases n { if n <= 0 { Seq::<LexEntry>::empty() } else { flat(m, n - 1) + m[map_keys(m)[n - 1]] } }
pub proof fn lemma_lines_app(a: Seq<LexEntry>, b: Seq<LexEntry>)
    ensures lines_text(a + b) == lines_text(a) + lines_text(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(lines_text(a) + lines_text(b) =~= lines_text(b)); }
    else {
        lemma_lines_app(a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert(lines_text(a + b) =~= lines_text(a) + lines_text(b));
    }
}
pub proof fn lemma_put_all_app(m: Map<Str, Seq<LexEntry>>, a: Seq<LexEntry>, b: Seq<LexEntry>)
    ensures put_all(m, a + b) == put_all(put_all(m, a), b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { lemma_put_all_app(put(m, a[0]), a.drop_first(), b); assert((a + b).drop_first() =~= a.drop_first() + b); }
}
pub proof fn lemma_defs_text(s: Seq<LexEntry>, n: int)
    requires 0 <= n <= s.len()
    ensures defs_text(s, n) == lines_text(s.subrange(0, n))
    decreases n
{
    if n > 0 {
        lemma_defs_text(s, n - 1);
        let one = seq![s[n - 1]];
        assert(s.subrange(0, n) =~= s.subrange(0, n - 1) + one);
        lemma_lines_app(s.subrange(0, n - 1), one);
        assert(one.drop_first() =~= Seq::<LexEntry>::empty());
        assert(lines_text(one.drop_first()) =~= none());
        assert(lines_text(one) =~= entry_line(s[n - 1]) + #"\n");
        assert(defs_text(s, n) =~= lines_text(s.subrange(0, n)));
    } else { assert(s.subrange(0, 0) =~= Seq::<LexEntry>::empty()); }
}
pub proof fn lemma_keys_text(m: Map<Str, Seq<LexEntry>>, n: int)
    requires 0 <= n <= map_keys(m).len()
    ensures keys_text(m, n) == lines_text(flat(m, n))
    decreases n
{
    if n > 0 {
        lemma_keys_text(m, n - 1);
        let s = m[map_keys(m)[n - 1]];
        lemma_defs_text(s, s.len() as int); assert(s.subrange(0, s.len() as int) =~= s);
        lemma_lines_app(flat(m, n - 1), s);
    }
}
// the entry lines of a text, read one after the other
pub proof fn lemma_read_lines(st: Stream, m: Map<Str, Seq<LexEntry>>, locale: Str, es: Seq<LexEntry>)
    requires !st.fail, !st.eof, st.rest == lines_text(es), forall|i: int| 0 <= i < es.len() ==> entry_settled(#[trigger] es[i], locale)
    ensures entries(line_read(st, none(), 10).0, line_read(st, none(), 10).1, m, locale) == Some(put_all(m, es))
    decreases es.len()
{
    lits();
    let r = line_read(st, none(), 10);
    lemma_unread(st, none(), 10);
    if es.len() > 0 {
        let e = es[0]; let l = entry_line(e); let more = es.drop_first();
        assert(entry_settled(es[0], locale));
        C26_an_entry_written_and_read_is_the_entry(e);
        assert(#"\n" =~= seq![10int]);
        assert(st.rest =~= l + seq![10int] + lines_text(more));
        lemma_field(st, l, lines_text(more), none(), 10);
        assert forall|i: int| 0 <= i < more.len() implies entry_settled(#[trigger] more[i], locale) by { assert(more[i] == es[i + 1]); }
        lemma_read_lines(r.0, put(m, e), locale, more);
        assert(str_sub(l, 0, 9) =~= #"LEXENTRY:");
        assert(entry_head(l));
        assert(next_entry(m, l, locale) == Some(put(m, e)));
    }
}
pub open spec fn first_keys(m: Map<Str, Seq<LexEntry>>, n: int) -> Map<Str, Seq<LexEntry>> decreases n { if n <= 0 { Map::<Str, Seq<LexEntry>>::empty() } else { first_keys(m, n - 1).insert(map_keys(m)[n - 1], m[map_keys(m)[n - 1]]) } }
pub proof fn lemma_first_keys(m: Map<Str, Seq<LexEntry>>, n: int, k: Str)
    requires 0 <= n <= map_keys(m).len()
    ensures first_keys(m, n).dom().contains(k) <==> m.dom().contains(k) && map_idx(m, k) < n, first_keys(m, n).dom().contains(k) ==> first_keys(m, n)[k] == m[k]
    decreases n
{ broadcast use containers; if n > 0 { lemma_first_keys(m, n - 1, k); assert(m.dom().contains(map_keys(m)[n - 1])); } }
// the definitions of one word, put in one after the other
pub proof fn lemma_put_word(m: Map<Str, Seq<LexEntry>>, s: Seq<LexEntry>, w: Str, j: int)
    requires 0 <= j <= s.len(), of_word(s, w), no_doubles(s), j == 0 ==> !m.dom().contains(w), j > 0 ==> m.dom().contains(w) && m[w] == s.subrange(0, j)
    ensures put_all(m, s.subrange(j, s.len() as int)) == if s.len() == 0 { m } else { m.insert(w, s) }
    decreases s.len() - j
{
    let t = s.subrange(j, s.len() as int);
    if j < s.len() {
        let e = s[j];
        assert(e.word_ == w);
        let d = defs_of(m, w);
        assert(d =~= s.subrange(0, j));
        assert(!d.contains(e)) by { if d.contains(e) { let i = choose|i: int| 0 <= i < d.len() && d[i] == e; assert(s[i] == e); } }
        assert(d.push(e) =~= s.subrange(0, j + 1));
        assert(put(m, e) == m.insert(w, s.subrange(0, j + 1)));
        assert(t.drop_first() =~= s.subrange(j + 1, s.len() as int));
        lemma_put_word(put(m, e), s, w, j + 1);
        assert(m.insert(w, s.subrange(0, j + 1)).insert(w, s) =~= m.insert(w, s));
    } else if j > 0 {
        assert(s.subrange(0, j) =~= s);
        assert(m =~= m.insert(w, s));
    }
}
pub proof fn lemma_put_flat(m: Map<Str, Seq<LexEntry>>, n: int)
    requires lex_shape(m), 0 <= n <= map_keys(m).len()
    ensures put_all(Map::<Str, Seq<LexEntry>>::empty(), flat(m, n)) == first_keys(m, n)
    decreases n
{
    broadcast use containers;
    if n > 0 {
        let k = map_keys(m)[n - 1]; let s = m[k];
        assert(m.dom().contains(k));
        lemma_put_flat(m, n - 1);
        lemma_put_all_app(Map::<Str, Seq<LexEntry>>::empty(), flat(m, n - 1), s);
        lemma_first_keys(m, n - 1, k);
        assert(s.subrange(0, s.len() as int) =~= s);
        lemma_put_word(first_keys(m, n - 1), s, k, 0);
    }
}
pub proof fn lemma_flat_settled(m: Map<Str, Seq<LexEntry>>, locale: Str, n: int)
    requires 0 <= n <= map_keys(m).len(), forall|k: Str, i: int| #[trigger] m.dom().contains(k) && 0 <= i < m[k].len() ==> entry_settled(#[trigger] m[k][i], locale)
    ensures forall|i: int| 0 <= i < flat(m, n).len() ==> entry_settled(#[trigger] flat(m, n)[i], locale)
    decreases n
{
    broadcast use containers;
    if n > 0 {
        lemma_flat_settled(m, locale, n - 1);
        let a = flat(m, n - 1); let k = map_keys(m)[n - 1];
        assert(m.dom().contains(k));
        assert forall|i: int| 0 <= i < flat(m, n).len() implies entry_settled(#[trigger] flat(m, n)[i], locale) by { if i < a.len() { assert(flat(m, n)[i] == a[i]); } else { assert(flat(m, n)[i] == m[k][i - a.len()]); } }
    }
}
pub proof fn lemma_lang_plain(t: int)
    requires lang_valid(t)
    ensures one_line(lang_code_name(t))
{ reveal(#"ALB"); reveal(#"ARA"); reveal(#"BAQ"); reveal(#"BEL"); reveal(#"BET"); reveal(#"BEX"); reveal(#"BOS"); reveal(#"BOX"); reveal(#"BUL"); reveal(#"BUT"); reveal(#"BUX"); reveal(#"CAT"); reveal(#"CHI"); reveal(#"CHT"); reveal(#"CZE"); reveal(#"CZX"); reveal(#"DAN"); reveal(#"DUT"); reveal(#"ENG"); reveal(#"EST"); reveal(#"ESX"); reveal(#"FIN"); reveal(#"FRE"); reveal(#"GER"); reveal(#"GLG"); reveal(#"GRE"); reveal(#"GRN"); reveal(#"GRT"); reveal(#"GRX"); reveal(#"HEB"); reveal(#"HUN"); reveal(#"HUX"); reveal(#"IND"); reveal(#"ITA"); reveal(#"KOR"); reveal(#"KOX"); reveal(#"LAV"); reveal(#"LAX"); reveal(#"LIT"); reveal(#"LIX"); reveal(#"MAC"); reveal(#"MAT"); reveal(#"MAY"); reveal(#"MLT"); reveal(#"MLX"); reveal(#"MNE"); reveal(#"MNX"); reveal(#"MOL"); reveal(#"MOX"); reveal(#"NOR"); reveal(#"POL"); reveal(#"POR"); reveal(#"POX"); reveal(#"PYN"); reveal(#"RMX"); reveal(#"RST"); reveal(#"RUM"); reveal(#"RUS"); reveal(#"RUX"); reveal(#"SCR"); reveal(#"SCT"); reveal(#"SCX"); reveal(#"SIX"); reveal(#"SLO"); reveal(#"SLV"); reveal(#"SLX"); reveal(#"SPA"); reveal(#"SRB"); reveal(#"SRX"); reveal(#"SWE"); reveal(#"THA"); reveal(#"TKT"); reveal(#"TUR"); reveal(#"TUX"); reveal(#"UKR"); reveal(#"UKT"); reveal(#"UKX"); reveal(#"WEL"); reveal(#"UNKNOWN"); lits(); }
// what is assumed of the decimal form of a number
pub axiom fn axiom_number_plain(n: int) ensures one_line(int_to_str(n));
pub proof fn C26_a_lexicon_written_and_read_is_the_lexicon(l: Lexicon)
    requires
        lex_shape(l.lex_), lang_valid(l.lang_), one_line(l.name_), one_line(l.locale_),
        forall|k: Str, i: int| #[trigger] l.lex_.dom().contains(k) && 0 <= i < l.lex_[k].len() ==> entry_settled(#[trigger] l.lex_[k][i], l.locale_),
    ensures
        loaded(stream_of(lex_text(l)), Map::<Str, Seq<LexEntry>>::empty(), none()) == Some(Loaded { lang: l.lang_, locale: l.locale_, words: l.lex_ }),
{
    broadcast use containers;
    lits();
    reveal(#"LEXICON:");
    let n = map_keys(l.lex_).len() as int; let kw = #"LEXICON:";
    let h = top_line(l); let body = keys_text(l.lex_, n);
    let num = int_to_str(n); let code = lang_code_name(l.lang_);
    axiom_number_plain(n); lemma_lang_plain(l.lang_);
    assert(#"\n" =~= seq![10int]); assert(#"\t" =~= seq![9int]);
    let st = stream_of(lex_text(l));
    let t3 = l.locale_ + seq![9int] + num; let t2 = code + seq![9int] + t3; let t1 = l.name_ + seq![9int] + t2;
    assert(h =~= kw + seq![9int] + t1);
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] != 10 by {
        let n1 = kw.len() as int; let n2 = n1 + 1 + l.name_.len(); let n3 = n2 + 1 + code.len(); let n4 = n3 + 1 + l.locale_.len();
        if i < n1 { assert(h[i] == kw[i]); } else if i == n1 {} else if i < n2 { assert(h[i] == l.name_[i - n1 - 1]); } else if i == n2 {} else if i < n3 { assert(h[i] == code[i - n2 - 1]); } else if i == n3 {}
        else if i < n4 { assert(h[i] == l.locale_[i - n3 - 1]); } else if i == n4 {} else { assert(h[i] == num[i - n4 - 1]); }
    }
    lemma_field(st, h, body, none(), 10);
    let a = line_read(st, none(), 10);
    assert(h[0] == kw[0]);
    assert(no_bom(h) == h);
    assert(str_sub(h, 0, 8) =~= kw);
    lemma_unread(st, none(), 10);
    assert(header(a.0, h) == Some((a.0, h)));
    lemma_field(stream_of(h), kw, t1, none(), 9);
    let f0 = line_read(stream_of(h), none(), 9);
    lemma_field(f0.0, l.name_, t2, f0.1, 9);
    let f1 = line_read(f0.0, f0.1, 9);
    lemma_field(f1.0, code, t3, f1.1, 9);
    let f2 = line_read(f1.0, f1.1, 9);
    lemma_field(f2.0, l.locale_, num, none(), 9);
    C13_language_codes_round_trip(l.lang_);
    lemma_keys_text(l.lex_, n);
    lemma_flat_settled(l.lex_, l.locale_, n);
    lemma_read_lines(a.0, Map::<Str, Seq<LexEntry>>::empty(), l.locale_, flat(l.lex_, n));
    lemma_put_flat(l.lex_, n);
    assert forall|k: Str| first_keys(l.lex_, n).dom().contains(k) <==> l.lex_.dom().contains(k) by { lemma_first_keys(l.lex_, n, k); }
    assert forall|k: Str| first_keys(l.lex_, n).dom().contains(k) implies first_keys(l.lex_, n)[k] == l.lex_[k] by { lemma_first_keys(l.lex_, n, k); }
    assert(first_keys(l.lex_, n) =~= l.lex_);
}
// refused texts
pub proof fn C26_an_entry_before_the_header_is_refused(st: Stream, m: Map<Str, Seq<LexEntry>>, locale: Str)
    requires !line_read(st, none(), 10).0.fail, opens(no_bom(line_read(st, none(), 10).1), #"LEXENTRY:")
    ensures loaded(st, m, locale) is None
{
    lits(); reveal(#"LEXENTRY:"); reveal(#"LEXICON:");
    let a = line_read(st, none(), 10); let l = no_bom(a.1);
    lemma_unread(st, none(), 10);
    if opens(l, #"LEXICON:") { assert(str_sub(l, 0, 8)[3] == l[3]); assert(str_sub(l, 0, 9)[3] == l[3]); }
}
pub proof fn C26_a_byte_order_mark_is_skipped(t: Str, m: Map<Str, Seq<LexEntry>>, locale: Str)
    requires t.len() > 0, t[0] == 76
    ensures loaded(stream_of(seq![0int - 17, 0int - 69, 0int - 65] + t), m, locale) == loaded(stream_of(t), m, locale)
{
    let b = seq![0int - 17, 0int - 69, 0int - 65];
    let k = upto(t, 10, 0);
    lemma_upto(t, 10, 0);
    lemma_upto_bom(b, t, 0);
    assert(upto(b + t, 10, 3) == k + 3);
    assert(upto(b + t, 10, 0) == k + 3) by { assert((b + t)[0] != 10 && (b + t)[1] != 10 && (b + t)[2] != 10); assert(upto(b + t, 10, 2) == upto(b + t, 10, 3)); assert(upto(b + t, 10, 1) == upto(b + t, 10, 2)); }
    let x = line_read(stream_of(b + t), none(), 10); let y = line_read(stream_of(t), none(), 10);
    assert(no_bom(y.1) == y.1);
    assert(x.0.rest =~= y.0.rest);
    assert(no_bom(x.1) =~= y.1);
}
pub proof fn lemma_upto_bom(b: Str, t: Str, i: int)
    requires 0 <= i <= t.len()
    ensures upto(b + t, 10, b.len() + i) == upto(t, 10, i) + b.len()
    decreases t.len() - i
{ if i < t.len() { assert((b + t)[b.len() + i] == t[i]); if t[i] != 10 { lemma_upto_bom(b, t, i + 1); } } }
@@end
