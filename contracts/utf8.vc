@@spec
pub open spec fn sb(x: int) -> int { if x >= 128 { x - 256 } else { x } }
pub open spec fn ub(x: int) -> int { if x < 0 { x + 256 } else { x } }
// the UTF-8 form of a code point (RFC 3629)
pub open spec fn enc(c: int) -> Str {
    if c < 0x80 { seq![c] }
    else if c < 0x800 { seq![sb(0xC0 + c / 64), sb(0x80 + c % 64)] }
    else if c < 0x10000 { seq![sb(0xE0 + c / 4096), sb(0x80 + (c / 64) % 64), sb(0x80 + c % 64)] }
    else { seq![sb(0xF0 + c / 262144), sb(0x80 + (c / 4096) % 64), sb(0x80 + (c / 64) % 64), sb(0x80 + c % 64)] }
}
pub open spec fn enc_all(cs: Seq<int>) -> Str decreases cs.len() { if cs.len() == 0 { Seq::<int>::empty() } else { enc(cs[0]) + enc_all(cs.subrange(1, cs.len() as int)) } }
pub open spec fn cp_ok(c: int) -> bool { 0 <= c < 0x110000 }
pub open spec fn cps_ok(cs: Seq<int>) -> bool { forall|i: int| 0 <= i < cs.len() ==> cp_ok(#[trigger] cs[i]) }
// length of the sequence a first byte announces
pub open spec fn seq_len(b: int) -> int { let u = ub(b); if u < 128 { 1 } else if (u / 32) % 2 == 0 { 2 } else if (u / 16) % 2 == 0 { 3 } else { 4 } }
pub open spec fn dec_at(s: Str, p: int) -> int {
    let n = seq_len(s[p]); let u = ub(s[p]);
    if n == 1 { s[p] }
    else if n == 2 { (u % 32) * 64 + ub(s[p + 1]) % 64 }
    else if n == 3 { (u % 16) * 4096 + (ub(s[p + 1]) % 64) * 64 + ub(s[p + 2]) % 64 }
    else { (u % 8) * 262144 + (ub(s[p + 1]) % 64) * 4096 + (ub(s[p + 2]) % 64) * 64 + ub(s[p + 3]) % 64 }
}
pub open spec fn is_byte(b: int) -> bool { -128 <= b < 128 }
// the bytes a sequence starting at p announces are all there
pub open spec fn room(s: Str, p: int) -> bool { 0 <= p < s.len() && p + seq_len(s[p]) <= s.len() && forall|k: int| p <= k < p + seq_len(s[p]) ==> is_byte(#[trigger] s[k]) }
pub proof fn lemma_pow2i()
    ensures pow2i(6) == 64, pow2i(7) == 128, pow2i(12) == 4096, pow2i(18) == 262144
{
    assert(pow2i(6) == 64 && pow2i(7) == 128 && pow2i(12) == 4096 && pow2i(18) == 262144) by (compute);
}
pub proof fn lemma_lead(c: int)
    ensures
        0 <= c < 0x800 ==> boru(192, c / 64) == 192 + c / 64,
        0 <= c < 0x10000 ==> boru(224, c / 4096) == 224 + c / 4096,
        0 <= c < 0x200000 ==> boru(240, c / 262144) == 240 + c / 262144,
{
    let a = (c / 64) as u32; let b = (c / 4096) as u32; let d = (c / 262144) as u32;
    if 0 <= c < 0x800 { assert(192u32 | a == 192u32 + a) by (bit_vector) requires a < 32; }
    if 0 <= c < 0x10000 { assert(224u32 | b == 224u32 + b) by (bit_vector) requires b < 16; }
    if 0 <= c < 0x200000 { assert(240u32 | d == 240u32 + d) by (bit_vector) requires d < 8; }
}
// the continuation byte expression
pub proof fn lemma_cont(x: int)
    requires 0 <= x < 0x110000
    ensures to_schar(bands(to_schar(boru(x, 128)), -65)) == sb(0x80 + x % 64)
{
    let u = x as u32;
    assert(((u | 128u32) % 256u32) >= 128u32) by (bit_vector);
    let r = (u | 128u32) % 256u32;
    assert(to_schar(boru(x, 128)) == r as int - 256);
    let w = (r + 0xFFFF_FF00u32) as u32;
    assert(w32(r as int - 256) == w) by {
        assert((r as int - 256) % 0x1_0000_0000 == r as int - 256 + 0x1_0000_0000);
    }
    assert(w32(-65) == 0xFFFF_FFBFu32);
    assert(((add(((u | 128u32) % 256u32), 0xFFFF_FF00u32)) & 0xFFFF_FFBFu32) == add(0xFFFF_FF80u32, (u % 64u32))) by (bit_vector);
    assert(bands(to_schar(boru(x, 128)), -65) == (x % 64) - 128);
}
// the bits of one byte
pub proof fn lemma_bits(b: int)
    requires is_byte(b)
    ensures
        bands(b, 128) != 0 <==> ub(b) >= 128,
        bands(b, 64) != 0 <==> (ub(b) / 64) % 2 == 1,
        bands(b, 64) == 0 <==> (ub(b) / 64) % 2 == 0,
        bands(b, 32) != 0 <==> (ub(b) / 32) % 2 == 1,
        bands(b, 16) != 0 <==> (ub(b) / 16) % 2 == 1,
        bands(b, 7) == ub(b) % 8, bands(b, 15) == ub(b) % 16, bands(b, 31) == ub(b) % 32, bands(b, 63) == ub(b) % 64,
{
    let w = w32(b);
    if b < 0 { assert(b % 0x1_0000_0000 == b + 0x1_0000_0000); }
    let u = ub(b) as u32;
    assert(w == u || w == (u + 0xFFFF_FF00) as u32);
    assert(u < 256);
    assert(w == u || w == add(u, 0xFFFF_FF00u32));
    assert(w & 128u32 == u & 128u32 && w & 64u32 == u & 64u32 && w & 32u32 == u & 32u32 && w & 16u32 == u & 16u32
        && w & 7u32 == u % 8u32 && w & 15u32 == u % 16u32 && w & 31u32 == u % 32u32 && w & 63u32 == u % 64u32) by (bit_vector)
        requires w == u || w == add(u, 0xFFFF_FF00u32), u < 256;
    assert(((u & 128u32) != 0 <==> u >= 128) && ((u & 64u32) != 0 <==> (u / 64u32) % 2u32 == 1) && ((u & 32u32) != 0 <==> (u / 32u32) % 2u32 == 1) && ((u & 16u32) != 0 <==> (u / 16u32) % 2u32 == 1)) by (bit_vector) requires u < 256;
    assert((u & 128u32) < 0x8000_0000u32 && (u & 64u32) < 0x8000_0000u32 && (u & 32u32) < 0x8000_0000u32 && (u & 16u32) < 0x8000_0000u32) by (bit_vector) requires u < 256;
}
pub open spec fn enc_good(c: int) -> bool { 1 <= enc(c).len() <= 4 && seq_len(enc(c)[0]) == enc(c).len() && room(enc(c), 0) && dec_at(enc(c), 0) == c }
pub proof fn lemma_enc_2(c: int)
    requires 0x80 <= c < 0x800
    ensures enc_good(c)
{
    let e = enc(c); let a = c / 64; let b = c % 64;
    assert(a < 32 && c == a * 64 + b);
    assert(ub(e[0]) == 0xC0 + a && ub(e[1]) == 0x80 + b);
}
pub proof fn lemma_enc_3(c: int)
    requires 0x800 <= c < 0x10000
    ensures enc_good(c)
{
    let e = enc(c); let a = c / 4096; let b = (c / 64) % 64; let d = c % 64;
    assert(0 <= a < 16 && c == a * 4096 + b * 64 + d);
    assert(ub(e[0]) == 0xE0 + a && ub(e[1]) == 0x80 + b && ub(e[2]) == 0x80 + d);
}
pub proof fn lemma_enc_4(c: int)
    requires 0x10000 <= c < 0x110000
    ensures enc_good(c)
{
    let e = enc(c); let a = c / 262144; let b = (c / 4096) % 64; let d = (c / 64) % 64; let g = c % 64;
    assert(0 <= a < 8 && c == a * 262144 + b * 4096 + d * 64 + g);
    assert(ub(e[0]) == 0xF0 + a && ub(e[1]) == 0x80 + b && ub(e[2]) == 0x80 + d && ub(e[3]) == 0x80 + g);
}
pub proof fn lemma_enc_bytes(c: int)
    requires cp_ok(c)
    ensures
        1 <= enc(c).len() <= 4,
        seq_len(enc(c)[0]) == enc(c).len(),
        room(enc(c), 0),
        dec_at(enc(c), 0) == c,
{
    if c < 0x80 {} else if c < 0x800 { lemma_enc_2(c); } else if c < 0x10000 { lemma_enc_3(c); } else { lemma_enc_4(c); }
}
@@end

@@spec C14
pub proof fn lemma_dec_prefix(s: Str, t: Str, p: int)
    requires room(s, 0), 0 <= p, p + s.len() <= t.len(), forall|k: int| 0 <= k < s.len() ==> t[p + k] == #[trigger] s[k]
    ensures seq_len(t[p]) == seq_len(s[0]), dec_at(t, p) == dec_at(s, 0), room(t, p)
{
    let n = seq_len(s[0]);
    assert(t[p + 0] == s[0]);
    if n >= 2 { assert(t[p + 1] == s[1]); }
    if n >= 3 { assert(t[p + 2] == s[2]); }
    if n >= 4 { assert(t[p + 3] == s[3]); }
    assert forall|k: int| p <= k < p + seq_len(t[p]) implies is_byte(#[trigger] t[k]) by { assert(t[p + (k - p)] == s[k - p]); }
}
pub proof fn C14_a_written_code_point_reads_back(c: int)
    requires cp_ok(c)
    ensures room(enc(c), 0), dec_at(enc(c), 0) == c, seq_len(enc(c)[0]) == enc(c).len()
{ lemma_enc_bytes(c); }
// stepping through well-formed text: at every code point boundary the value and the next boundary are right
pub open spec fn bound(cs: Seq<int>, k: int) -> int decreases k when k >= 0 { if k <= 0 { 0 } else { bound(cs, k - 1) + enc(cs[k - 1]).len() } }
pub proof fn lemma_enc_all_split(cs: Seq<int>, k: int)
    requires 0 <= k <= cs.len()
    ensures enc_all(cs) == enc_all(cs.subrange(0, k)) + enc_all(cs.subrange(k, cs.len() as int)), enc_all(cs.subrange(0, k)).len() == bound(cs, k)
    decreases k, cs.len()
{
    if k == 0 {
        assert(cs.subrange(0, 0) =~= Seq::<int>::empty()); assert(cs.subrange(0, cs.len() as int) =~= cs);
        assert(enc_all(cs.subrange(0, 0)) =~= Seq::<int>::empty());
        assert(enc_all(cs) =~= Seq::<int>::empty() + enc_all(cs));
    } else {
        let t = cs.subrange(1, cs.len() as int);
        lemma_enc_all_split(t, k - 1);
        assert(t.subrange(0, k - 1) =~= cs.subrange(1, k)); assert(t.subrange(k - 1, t.len() as int) =~= cs.subrange(k, cs.len() as int));
        assert(cs.subrange(0, k).subrange(1, k) =~= cs.subrange(1, k));
        assert(enc_all(cs.subrange(0, k)) =~= enc(cs[0]) + enc_all(cs.subrange(1, k)));
        assert(enc_all(cs) =~= enc_all(cs.subrange(0, k)) + enc_all(cs.subrange(k, cs.len() as int)));
        lemma_bound_tail(cs, k);
    }
}
pub proof fn lemma_bound_tail(cs: Seq<int>, k: int)
    requires 1 <= k <= cs.len()
    ensures bound(cs, k) == enc(cs[0]).len() + bound(cs.subrange(1, cs.len() as int), k - 1)
    decreases k
{
    let r = cs.subrange(1, cs.len() as int);
    if k > 1 { lemma_bound_tail(cs, k - 1); assert(r[k - 2] == cs[k - 1]); } else { assert(bound(r, 0) == 0 && bound(cs, 0) == 0); assert(bound(cs, 1) == bound(cs, 0) + enc(cs[0]).len()); }
}
pub proof fn C14_stepping_visits_every_code_point(cs: Seq<int>, k: int)
    requires cps_ok(cs), 0 <= k < cs.len()
    ensures
        0 <= bound(cs, k) < enc_all(cs).len(),
        room(enc_all(cs), bound(cs, k)),
        dec_at(enc_all(cs), bound(cs, k)) == cs[k],
        bound(cs, k) + seq_len(enc_all(cs)[bound(cs, k)]) == bound(cs, k + 1),
        bound(cs, cs.len() as int) == enc_all(cs).len(),
{
    let t = enc_all(cs); let p = bound(cs, k);
    lemma_enc_all_split(cs, k);
    lemma_enc_all_split(cs, cs.len() as int);
    assert(cs.subrange(0, cs.len() as int) =~= cs);
    let rest = cs.subrange(k, cs.len() as int);
    assert(rest[0] == cs[k]);
    lemma_enc_bytes(cs[k]);
    let e = enc(cs[k]);
    let tail = enc_all(rest.subrange(1, rest.len() as int));
    assert(enc_all(rest) == e + tail);
    assert forall|i: int| 0 <= i < e.len() implies t[p + i] == #[trigger] e[i] by { assert(t[p + i] == enc_all(rest)[i]); }
    lemma_dec_prefix(e, t, p);
}
pub proof fn C14_stepping_back_undoes_stepping(cs: Seq<int>, k: int)
    requires cps_ok(cs), 0 <= k < cs.len()
    ensures back_of(enc_all(cs), bound(cs, k + 1)) == bound(cs, k), can_back(enc_all(cs), bound(cs, k + 1))
{
    C14_stepping_visits_every_code_point(cs, k);
    lemma_enc_bytes(cs[k]);
    let t = enc_all(cs); let p = bound(cs, k); let e = enc(cs[k]); let q = bound(cs, k + 1);
    lemma_enc_all_split(cs, k);
    let rest = cs.subrange(k, cs.len() as int);
    assert(rest[0] == cs[k]);
    assert forall|i: int| 0 <= i < e.len() implies t[p + i] == #[trigger] e[i] by { assert(t[p + i] == enc_all(rest)[i]); }
    assert(q == p + e.len());
    let n = e.len() as int;
    assert(t[q - 1] == e[n - 1]);
    if n >= 2 { assert(t[q - 2] == e[n - 2]); }
    if n >= 3 { assert(t[q - 3] == e[n - 3]); }
    if n >= 4 { assert(t[q - 4] == e[n - 4]); }
}
@@end
@@spec
pub open spec fn is_cont(b: int) -> bool { (ub(b) / 64) % 2 == 0 }
// how far one step back goes
pub open spec fn back_of(s: Str, p: int) -> int {
    if ub(s[p - 1]) < 128 { p - 1 } else if !is_cont(s[p - 2]) { p - 2 } else if !is_cont(s[p - 3]) { p - 3 } else { p - 4 }
}
pub open spec fn can_back(s: Str, p: int) -> bool {
    &&& 0 < p <= s.len() && is_byte(s[p - 1])
    &&& ub(s[p - 1]) >= 128 ==> p >= 2 && is_byte(s[p - 2]) && (is_cont(s[p - 2]) ==> p >= 3 && is_byte(s[p - 3]) && (is_cont(s[p - 3]) ==> p >= 4))
}
@@end

@@fn CodePointToUtf8(int)
params: codePoint
requires 0 <= $codePoint,
ensures
    $throws <==> $codePoint >= 0x110000,
    !$throws ==> $ret == enc($codePoint),
@@entry
lemma_pow2i();
let c = $$codePoint;
if c < 0x110000 {
    lemma_lead(c); lemma_cont(c); lemma_cont(c / 64); lemma_cont(c / 4096);
}
@@end

@@fn Utf8Iterator::Utf8Iterator(iter<string>)
params: it
ensures $ret.mStringIterator == $it, $ret.mDirty,
@@end
@@fn Utf8Iterator::Utf8Iterator(Utf8Iterator)
params: source
ensures $ret == $source,
@@end
@@fn Utf8Iterator::operator=(Utf8Iterator)
params: this rhs
ensures $this' == $rhs,
@@end
@@fn Utf8Iterator::substr(Utf8Iterator&)
params: this to
requires $this.mStringIterator.base == $to.mStringIterator.base, 0 <= $this.mStringIterator.pos <= $to.mStringIterator.pos <= $this.mStringIterator.base.len(),
ensures $this' == $this, $to' == $to,
    $ret == $this.mStringIterator.base.subrange($this.mStringIterator.pos, $to.mStringIterator.pos),
@@end
@@fn Utf8Iterator::CalculateCurrentCodePoint()
params: this
requires room($this.mStringIterator.base, $this.mStringIterator.pos), $this.mDirty,
ensures
    $this'.mStringIterator == $this.mStringIterator,
    $this'.mCurrentValue == dec_at($this.mStringIterator.base, $this.mStringIterator.pos),
    $this'.mDirty,
@@entry
lemma_pow2i();
let s = $$this.mStringIterator.base; let p = $$this.mStringIterator.pos;
assert forall|k: int| p <= k < p + seq_len(s[p]) implies #[trigger] is_byte(s[k]) by {}
assert(is_byte(s[p]));
lemma_bits(s[p]);
if seq_len(s[p]) >= 2 { assert(is_byte(s[p + 1])); lemma_bits(s[p + 1]); }
if seq_len(s[p]) >= 3 { assert(is_byte(s[p + 2])); lemma_bits(s[p + 2]); }
if seq_len(s[p]) >= 4 { assert(is_byte(s[p + 3])); lemma_bits(s[p + 3]); }
@@end
@@fn Utf8Iterator::operator*()
params: this
requires room($this.mStringIterator.base, $this.mStringIterator.pos), $this.mDirty,
ensures $ret == dec_at($this.mStringIterator.base, $this.mStringIterator.pos), $this'.mStringIterator == $this.mStringIterator,
    $this'.mDirty,
@@end
@@fn Utf8Iterator::operator++()
params: this
requires $this.mDirty, 0 <= $this.mStringIterator.pos < $this.mStringIterator.base.len(), is_byte($this.mStringIterator.base[$this.mStringIterator.pos]),
ensures
    $this'.mStringIterator == (StrIt { base: $this.mStringIterator.base, pos: $this.mStringIterator.pos + seq_len($this.mStringIterator.base[$this.mStringIterator.pos]) }),
    $this'.mDirty,
    $ret == $this',
@@entry
lemma_bits($$this.mStringIterator.base[$$this.mStringIterator.pos]);
@@end
@@fn Utf8Iterator::operator--()
params: this
requires can_back($this.mStringIterator.base, $this.mStringIterator.pos),
ensures
    $this'.mStringIterator == (StrIt { base: $this.mStringIterator.base, pos: back_of($this.mStringIterator.base, $this.mStringIterator.pos) }),
    $this'.mDirty,
    $ret == $this',
@@entry
let s = $$this.mStringIterator.base; let p = $$this.mStringIterator.pos;
lemma_bits(s[p - 1]);
if ub(s[p - 1]) >= 128 { lemma_bits(s[p - 2]); if is_cont(s[p - 2]) { lemma_bits(s[p - 3]); } }
@@end
@@fn Utf8Iterator::operator++(int)
params: this n
requires $this.mDirty, 0 <= $this.mStringIterator.pos < $this.mStringIterator.base.len(), is_byte($this.mStringIterator.base[$this.mStringIterator.pos]),
ensures
    $this'.mStringIterator == (StrIt { base: $this.mStringIterator.base, pos: $this.mStringIterator.pos + seq_len($this.mStringIterator.base[$this.mStringIterator.pos]) }),
    $this'.mDirty,
    $ret == $this,
@@end
@@fn Utf8Iterator::operator--(int)
params: this n
requires can_back($this.mStringIterator.base, $this.mStringIterator.pos),
ensures
    $this'.mStringIterator == (StrIt { base: $this.mStringIterator.base, pos: back_of($this.mStringIterator.base, $this.mStringIterator.pos) }),
    $this'.mDirty,
    $ret == $this,
@@end
@@fn Utf8Iterator::operator==(Utf8Iterator)
params: this rhs
requires $this.mStringIterator.base == $rhs.mStringIterator.base,
ensures $ret == ($this.mStringIterator.pos == $rhs.mStringIterator.pos), $this' == $this,
@@end
@@fn Utf8Iterator::operator!=(Utf8Iterator)
params: this rhs
requires $this.mStringIterator.base == $rhs.mStringIterator.base,
ensures $ret == ($this.mStringIterator.pos != $rhs.mStringIterator.pos), $this' == $this,
@@end
@@fn Utf8Iterator::operator==(iter<string>)
params: this rhs
requires $this.mStringIterator.base == $rhs.base,
ensures $ret == ($this.mStringIterator.pos == $rhs.pos), $this' == $this,
@@end
@@fn Utf8Iterator::operator!=(iter<string>)
params: this rhs
requires $this.mStringIterator.base == $rhs.base,
ensures $ret == ($this.mStringIterator.pos != $rhs.pos), $this' == $this,
@@end
