@@uses entry
@@spec C25
// ---- what loads back (boost) --------------------------------------------------------------------
// x, saved at the front of an archive, is what is loaded from there
pub open spec fn loads_back<A>(x: A) -> bool {
    forall|a: Archive, y: A| a.loading && a.items.len() > 0 && a.items[0] == item(x) ==> #[trigger] archive_got(a, y) == (Exc::<bool>::Val { val: true }, Archive { items: a.items.skip(1), ..a }, x)
}
pub axiom fn axiom_text_back(x: Str) ensures loads_back(x);
pub axiom fn axiom_number_back(x: int) ensures loads_back(x);
pub axiom fn axiom_codes_back(x: Set<int>) ensures loads_back(x);
// a map of lists of entries loads back if entries do: the library saves an entry with its own member, and loads it with it
pub axiom fn axiom_words_back(x: Map<Str, Seq<LexEntry>>)
    requires forall|e: LexEntry, y: LexEntry| #[trigger] entry_loaded(entry_saved(archive_new(), e).items, y) == Some((e, Seq::<Item>::empty()))
    ensures loads_back(x);
// the text of an archive opens as that archive, and reading an object is its own load member at the version it was saved with
pub axiom fn axiom_opened(i: Item) ensures archive_opened(stream_of(archive_head() + item_text(i))).0 == (Exc::<Archive>::Val { val: Archive { loading: true, items: seq![i] } }), archive_head().len() > 0;
pub axiom fn axiom_object(v: int, members: Seq<Item>, l: Lexicon, a: Archive, y: Lexicon)
    requires a.loading, a.items.len() > 0, a.items[0] == object(v, members, l)
    ensures ({
        let r = lexicon_loaded(Archive { loading: true, items: members }, v, y);
        &&& r is Threw ==> archive_got(a, y).0 == (Exc::<bool>::Threw { msg: r->msg, kind: r->kind })
        &&& r is Val ==> archive_got(a, y) == (Exc::<bool>::Val { val: true }, Archive { items: a.items.skip(1), ..a }, r->val.0)
    });
// ---- entries ------------------------------------------------------------------------------------
pub open spec fn entry_saved(a: Archive, e: LexEntry) -> Archive { Archive { items: a.items.push(item(e.word_)).push(item(e.stdword_)).push(item(e.type_)).push(item(e.attached_)), ..a } }
// what serialize leaves: the entry, and the archive after it
pub open spec fn entry_moved(a: Archive, e: LexEntry) -> Option<(LexEntry, Archive)> {
    let w = archive_io(a, e.word_);
    let s = archive_io(w.1, e.stdword_);
    let t = archive_io(s.1, e.type_);
    let d = archive_io(t.1, e.attached_);
    if w.0 is Val && s.0 is Val && t.0 is Val && d.0 is Val { Some((LexEntry { word_: w.2, stdword_: s.2, type_: t.2, attached_: d.2 }, d.1)) } else { None }
}
pub open spec fn entry_loaded(items: Seq<Item>, y: LexEntry) -> Option<(LexEntry, Seq<Item>)> {
    match entry_moved(Archive { loading: true, items }, y) { Some((e, a)) => Some((e, a.items)), None => None }
}
pub proof fn C25_an_entry_loads_back(e: LexEntry, y: LexEntry)
    ensures
        entry_moved(archive_new(), e) == Some((e, entry_saved(archive_new(), e))),
        entry_loaded(entry_saved(archive_new(), e).items, y) == Some((e, Seq::<Item>::empty())),
{
    axiom_text_back(e.word_); axiom_text_back(e.stdword_); axiom_codes_back(e.type_); axiom_codes_back(e.attached_);
    let a = archive_new();
    assert((entry_moved(a, e)->0).1.items =~= entry_saved(a, e).items);
    let i = entry_saved(a, e).items;
    assert(i =~= seq![item(e.word_), item(e.stdword_), item(e.type_), item(e.attached_)]);
    assert(i.skip(1) =~= seq![item(e.stdword_), item(e.type_), item(e.attached_)]);
    assert(i.skip(1).skip(1) =~= seq![item(e.type_), item(e.attached_)]);
    assert(i.skip(1).skip(1).skip(1) =~= seq![item(e.attached_)]);
    assert(i.skip(1).skip(1).skip(1).skip(1) =~= Seq::<Item>::empty());
}
// ---- lexicons -----------------------------------------------------------------------------------
// the version below which an archive is refused
pub open spec fn oldest() -> int { 2 }
pub open spec fn lexicon_saved(l: Lexicon) -> Seq<Item> { seq![item(l.name_), item(l.lang_), item(l.locale_), item(l.lex_), item(l.regex_), item(l.regexPrefix_), item(l.regexSuffix_), item(l.md5_)] }
pub open spec fn lexicon_loaded(a: Archive, version: int, l: Lexicon) -> Exc<(Lexicon, Archive)> {
    let n = archive_got(a, l.name_);
    let g = archive_got(n.1, l.lang_);
    let c = archive_got(g.1, l.locale_);
    let w = archive_got(c.1, l.lex_);
    let x = archive_got(w.1, l.regex_);
    let p = archive_got(x.1, l.regexPrefix_);
    let s = archive_got(p.1, l.regexSuffix_);
    let m = archive_got(s.1, l.md5_);
    if version < oldest() { Exc::Threw { msg: #"Re-compile-lexicon", kind: 0 } }
    else if n.0 is Threw { Exc::Threw { msg: n.0->msg, kind: n.0->kind } }
    else if g.0 is Threw { Exc::Threw { msg: g.0->msg, kind: g.0->kind } }
    else if c.0 is Threw { Exc::Threw { msg: c.0->msg, kind: c.0->kind } }
    else if w.0 is Threw { Exc::Threw { msg: w.0->msg, kind: w.0->kind } }
    else if x.0 is Threw { Exc::Threw { msg: x.0->msg, kind: x.0->kind } }
    else if p.0 is Threw { Exc::Threw { msg: p.0->msg, kind: p.0->kind } }
    else if s.0 is Threw { Exc::Threw { msg: s.0->msg, kind: s.0->kind } }
    else if m.0 is Threw { Exc::Threw { msg: m.0->msg, kind: m.0->kind } }
    else { Exc::Val { val: (Lexicon { name_: n.2, lang_: g.2, locale_: c.2, lex_: w.2, regex_: x.2, regexPrefix_: p.2, regexSuffix_: s.2, md5_: m.2 }, m.1) } }
}
pub proof fn C25_a_lexicon_loads_back(l: Lexicon, y: Lexicon)
    ensures lexicon_loaded(Archive { loading: true, items: lexicon_saved(l) }, oldest(), y) == (Exc::Val { val: (l, Archive { loading: true, items: Seq::<Item>::empty() }) }),
{
    assert forall|e: LexEntry, z: LexEntry| #[trigger] entry_loaded(entry_saved(archive_new(), e).items, z) == Some((e, Seq::<Item>::empty())) by { C25_an_entry_loads_back(e, z); }
    axiom_words_back(l.lex_);
    axiom_text_back(l.name_); axiom_number_back(l.lang_); axiom_text_back(l.locale_); axiom_text_back(l.regex_); axiom_text_back(l.regexPrefix_); axiom_text_back(l.regexSuffix_); axiom_text_back(l.md5_);
    let i = lexicon_saved(l);
    let i1 = i.skip(1); assert(i1 =~= seq![item(l.lang_), item(l.locale_), item(l.lex_), item(l.regex_), item(l.regexPrefix_), item(l.regexSuffix_), item(l.md5_)]);
    let i2 = i1.skip(1); assert(i2 =~= seq![item(l.locale_), item(l.lex_), item(l.regex_), item(l.regexPrefix_), item(l.regexSuffix_), item(l.md5_)]);
    let i3 = i2.skip(1); assert(i3 =~= seq![item(l.lex_), item(l.regex_), item(l.regexPrefix_), item(l.regexSuffix_), item(l.md5_)]);
    let i4 = i3.skip(1); assert(i4 =~= seq![item(l.regex_), item(l.regexPrefix_), item(l.regexSuffix_), item(l.md5_)]);
    let i5 = i4.skip(1); assert(i5 =~= seq![item(l.regexPrefix_), item(l.regexSuffix_), item(l.md5_)]);
    let i6 = i5.skip(1); assert(i6 =~= seq![item(l.regexSuffix_), item(l.md5_)]);
    let i7 = i6.skip(1); assert(i7 =~= seq![item(l.md5_)]);
    assert(i7.skip(1) =~= Seq::<Item>::empty());
}
// the text serialize_lexicon gives for a lexicon saved at version v
pub open spec fn archive_of(l: Lexicon, v: int) -> Str { archive_head() + item_text(object(v, lexicon_saved(l), l)) }
// a lexicon saved and loaded is the same lexicon
pub proof fn C25_the_archive_is_the_lexicon(l: Lexicon)
    ensures unpacked(archive_of(l, oldest())) == (Exc::<bool>::Val { val: true }, l), lexicon_from(l, archive_of(l, oldest())), archive_of(l, oldest()).len() > 0
{
    let i = object(oldest(), lexicon_saved(l), l);
    axiom_opened(i);
    let a = Archive { loading: true, items: seq![i] };
    axiom_object(oldest(), lexicon_saved(l), l, a, blank());
    C25_a_lexicon_loads_back(l, blank());
}
// an archive of an older version is refused
pub proof fn C25_older_is_refused(l: Lexicon, v: int)
    requires v < oldest()
    ensures outdated(unpacked(archive_of(l, v)).0), !loads_lexicon(archive_of(l, v))
{
    lits();
    let i = object(v, lexicon_saved(l), l);
    axiom_opened(i);
    axiom_object(v, lexicon_saved(l), l, Archive { loading: true, items: seq![i] }, blank());
}
// what a lexicon text without an archive loads to
pub open spec fn plain_loaded(text: Str) -> Option<Loaded> { loaded(stream_of(text), Map::<Str, Seq<LexEntry>>::empty(), none()) }
pub open spec fn packs(l: Lexicon, text: Str) -> bool {
    let p = plain_loaded(text)->0;
    plain_loaded(text) is Some && l.name_ == #"query-lex" && l.lang_ == p.lang && l.locale_ == p.locale && l.lex_ == p.words && l.md5_ == md5_of(text_left(stream_of(text))) && lex_inv(l)
}
@@end
@@fn LexEntry::serialize(archive&,int)
params: this ar version
opt: throws

ensures
    entry_moved($ar, $this) is None ==> $throws,
    entry_moved($ar, $this) is Some ==> !$throws && ($this', $ar') == entry_moved($ar, $this)->0,
@@end
@@fn Lexicon::load(archive&,int)
params: this ar version
opt: throws
requires $ar.loading,
ensures
    $throws <==> lexicon_loaded($ar, $version, $this) is Threw,
    !$throws ==> ($this', $ar') == lexicon_loaded($ar, $version, $this)->val,
@@end
@@fn Lexicon::save(archive&,int)
params: this ar version
requires !$ar.loading,
ensures $ar'.items =~= $ar.items + lexicon_saved($this), !$ar'.loading,
@@end
@@fn Lexicon::Lexicon(string,stream&)
params: name is
opt: throws
requires !$is.fail,
ensures
    $throws <==> loaded($is, Map::<Str, Seq<LexEntry>>::empty(), none()) is None,
    !$throws ==> ({
        let p = loaded($is, Map::<Str, Seq<LexEntry>>::empty(), none())->0;
        &&& $ret.name_ == $name && $ret.lang_ == p.lang && $ret.locale_ == p.locale && $ret.lex_ == p.words && lex_inv($ret)
        &&& $ret.md5_ == md5_of(text_left($is))
    }),
@@end
@@fn serialize_lexicon(ptr<int>,ptr<ptr<int>>)
params: text err
vars: lex Lexicon
opt: faults
requires $text is Some,
ensures
    !$throws,
    $fault || plain_loaded($text->0) is None ==> $ret is None && $err' is Some,
    !$fault && plain_loaded($text->0) is Some ==> $err' is None && $ret is Some && exists|l: Lexicon| #[trigger] packs(l, $text->0) && $ret->0 == archive_of(l, oldest()),
@@returnif
axiom_opened(object(oldest(), lexicon_saved($lex), $lex));
assert(Seq::<int>::empty() + archive_head() =~= archive_head());
assert(Seq::<Item>::empty() + lexicon_saved($lex) =~= lexicon_saved($lex));
assert(packs($lex, $$text->0));
@@end
