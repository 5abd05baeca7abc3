// Contracts of everything outside the crate that the extracted code calls, and the vocabulary
// of the specifications.  Every `external_body`, `assume_specification` and `axiom` in this file
// is an assumption and is listed as such in DESIGN.md and in the evidence.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
use vstd::utf8::*;
pub use std::vec::Vec;

// ------------------------------------------------------------------ configuration
pub open spec fn alloc_on() -> bool { __ALLOC__ }

// ------------------------------------------------------------------ text and its byte length
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> nat { encode_utf8(s).len() }

/// A text that can be stored: any text with allocation, at most 62 bytes without.
#[verifier::opaque]
pub open spec fn fits(s: Seq<char>) -> bool { alloc_on() || blen(s) <= 62 }

pub broadcast proof fn blen_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] blen(a + b) == blen(a) + blen(b),
{
    reveal(blen);
    encode_utf8_concat(a, b);
}

// ------------------------------------------------------------------ bits
// The bit operations of the crate as arithmetic, so that either may be written.
pub broadcast proof fn bit_one_u8(x: u8)
    ensures #[trigger] (x & 1u8) == x % 2,
{
    assert(x & 1u8 == x % 2) by(bit_vector);
}
pub broadcast proof fn bit_one_u16(x: u16)
    ensures #[trigger] (x & 1u16) == x % 2,
{
    assert(x & 1u16 == x % 2) by(bit_vector);
}
pub broadcast proof fn bit_one_u32(x: u32)
    ensures #[trigger] (x & 1u32) == x % 2,
{
    assert(x & 1u32 == x % 2) by(bit_vector);
}
pub broadcast proof fn bit_one_u64(x: u64)
    ensures #[trigger] (x & 1u64) == x % 2,
{
    assert(x & 1u64 == x % 2) by(bit_vector);
}
pub broadcast proof fn bit_one_u128(x: u128)
    ensures #[trigger] (x & 1u128) == x % 2,
{
    assert(x & 1u128 == x % 2) by(bit_vector);
}
pub broadcast proof fn bit_one_usize(x: usize)
    ensures #[trigger] (x & 1usize) == x % 2,
{
    assert(x & 1usize == x % 2) by(bit_vector);
}
pub broadcast proof fn bit_one_i32(x: i32)
    requires x >= 0,
    ensures #[trigger] (x & 1i32) == x % 2,
{
    assert(x >= 0i32 ==> x & 1i32 == x % 2i32) by(bit_vector);
}
pub broadcast proof fn bit_low7(x: u8)
    ensures #[trigger] (x & 0x7fu8) == x % 0x80,
{
    assert(x & 0x7fu8 == x % 0x80u8) by(bit_vector);
}
pub broadcast proof fn bit_top(x: u8)
    ensures #[trigger] (x & 0x80u8) == (if x >= 0x80 { 0x80u8 } else { 0u8 }),
{
    assert(x & 0x80u8 == (if x >= 0x80u8 { 0x80u8 } else { 0u8 })) by(bit_vector);
}
pub broadcast proof fn bit_join(x: u8, y: u8)
    requires y < 0x80,
    ensures #[trigger] (x & 0x80u8 | y) == (if x >= 0x80 { 0x80 + y } else { y as int }),
{
    assert(y < 0x80u8 ==> x & 0x80u8 | y == (if x >= 0x80u8 { (0x80u8 + y) as u8 } else { y })) by(bit_vector);
}
pub broadcast proof fn bit_low7_not(x: u8)
    ensures #[trigger] (x & !0x80u8) == x % 0x80,
{
    assert(x & !0x80u8 == x % 0x80u8) by(bit_vector);
}
pub broadcast proof fn bit_top_not(x: u8)
    ensures #[trigger] (x & !0x7fu8) == (if x >= 0x80 { 0x80u8 } else { 0u8 }),
{
    assert(x & !0x7fu8 == (if x >= 0x80u8 { 0x80u8 } else { 0u8 })) by(bit_vector);
}
pub broadcast proof fn bit_join_not(x: u8, y: u8)
    requires y < 0x80,
    ensures #[trigger] (x & !0x7fu8 | y) == (if x >= 0x80 { 0x80 + y } else { y as int }),
{
    assert(y < 0x80u8 ==> x & !0x7fu8 | y == (if x >= 0x80u8 { (0x80u8 + y) as u8 } else { y })) by(bit_vector);
}
pub broadcast proof fn bit_shift7(x: u8)
    ensures #[trigger] (x >> 7u8) == (if x >= 0x80 { 1u8 } else { 0u8 }),
{
    assert(x >> 7u8 == (if x >= 0x80u8 { 1u8 } else { 0u8 })) by(bit_vector);
}
pub broadcast proof fn bit_half_u8(x: u8)
    ensures #[trigger] (x >> 1u8) == x / 2,
{
    assert(x >> 1u8 == x / 2) by(bit_vector);
}
pub broadcast proof fn bit_half_u32(x: u32)
    ensures #[trigger] (x >> 1u32) == x / 2,
{
    assert(x >> 1u32 == x / 2) by(bit_vector);
}
pub broadcast proof fn bit_half_usize(x: usize)
    ensures #[trigger] (x >> 1usize) == x / 2,
{
    assert(x >> 1usize == x / 2) by(bit_vector);
}
pub broadcast group bits {
    bit_low7_not,
    bit_top_not,
    bit_join_not,
    bit_shift7,
    bit_half_u8,
    bit_half_u32,
    bit_half_usize,
    bit_one_u8,
    bit_one_u16,
    bit_one_u32,
    bit_one_u64,
    bit_one_u128,
    bit_one_usize,
    bit_one_i32,
    bit_low7,
    bit_top,
    bit_join,
}

// ------------------------------------------------------------------ division
pub proof fn dm(x: nat, d: nat, q: nat, r: nat)
    requires x == q * d + r, r < d,
    ensures x / d == q, x % d == r,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, d as int, q as int, r as int);
}
pub proof fn dmx(x: nat, d: nat)
    requires d > 0,
    ensures x == d * (x / d) + x % d, x == (x / d) * d + x % d, x % d < d, x / d <= x, x < d ==> x / d == 0 && x % d == x, d >= 2 && x > 0 ==> x / d < x,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, d as int);
    vstd::arithmetic::mul::lemma_mul_is_commutative(d as int, (x / d) as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(x as int, d as int);
    vstd::arithmetic::div_mod::lemma_div_nonincreasing(x as int, d as int);
    if x < d { dm(x, d, 0, x); }
    if d >= 2 && x > 0 { vstd::arithmetic::div_mod::lemma_div_decreases(x as int, d as int); }
}
/// x < k * d and x / d.
pub proof fn dm_lt(x: nat, d: nat, k: nat)
    requires d > 0, x < k * d,
    ensures x / d < k,
{
    dmx(x, d);
    if x / d >= k { vstd::arithmetic::mul::lemma_mul_inequality(k as int, (x / d) as int, d as int); }
}

pub proof fn blen_empty()
    ensures blen(Seq::<char>::empty()) == 0,
{
    reveal(blen);
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}

pub proof fn blen_one(c: char)
    ensures
        encode_utf8(seq![c]) == encode_scalar(c as u32),
        blen(seq![c]) == encode_scalar(c as u32).len(),
        1 <= blen(seq![c]) <= 4,
{
    reveal(blen);
    encode_utf8_push(Seq::<char>::empty(), c);
    assert(seq![c] =~= Seq::<char>::empty().push(c));
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(Seq::<u8>::empty() + encode_scalar(c as u32) =~= encode_scalar(c as u32));
}

/// If a part does not fit, the whole does not fit.
pub proof fn fits_part(a: Seq<char>, b: Seq<char>)
    ensures fits(a + b) ==> fits(a) && fits(b),
{
    reveal(fits);
    blen_add(a, b);
}

pub proof fn fits_small(s: Seq<char>)
    requires s.len() <= 15,
    ensures fits(s), blen(s) <= 4 * s.len(),
    decreases s.len(),
{
    reveal(fits);
    if s.len() == 0 {
        blen_empty();
        assert(s =~= Seq::<char>::empty());
    } else {
        fits_small(s.drop_last());
        blen_add(s.drop_last(), seq![s.last()]);
        blen_one(s.last());
        assert(s =~= s.drop_last() + seq![s.last()]);
    }
}

pub proof fn utf8_cat(a: Seq<u8>, t: Seq<char>)
    requires valid_utf8(a),
    ensures
        valid_utf8(a + encode_utf8(t)),
        decode_utf8(a + encode_utf8(t)) == decode_utf8(a) + t,
        valid_utf8(encode_utf8(t) + a),
        decode_utf8(encode_utf8(t) + a) == t + decode_utf8(a),
        a.len() == blen(decode_utf8(a)),
{
    reveal(blen);
    decode_utf8_encode_utf8(a);
    encode_utf8_concat(decode_utf8(a), t);
    encode_utf8_concat(t, decode_utf8(a));
    encode_utf8_valid_utf8(t);
    encode_utf8_valid_utf8(decode_utf8(a) + t);
    encode_utf8_valid_utf8(t + decode_utf8(a));
    encode_utf8_decode_utf8(decode_utf8(a) + t);
    encode_utf8_decode_utf8(t + decode_utf8(a));
}

/// `s` repeated `k` times.
pub open spec fn rep(s: Seq<char>, k: nat) -> Seq<char>
    decreases k,
{
    if k == 0 { Seq::<char>::empty() } else { s + rep(s, (k - 1) as nat) }
}

// ------------------------------------------------------------------ results of formatting
pub enum SRes {
    /// this text, if it can be stored; otherwise out of memory
    Text(Seq<char>),
    /// no zero symbol
    NoZero,
    /// out of bounds, after having built this (storable) text
    Bounds(Seq<char>),
}

pub open spec fn bounds() -> SRes { SRes::Bounds(Seq::<char>::empty()) }

/// `r` is the text, or the kind of error, that the specification `s` asks for.
pub open spec fn gives<T>(r: Result<crate::NominalString, crate::Error<T>>, s: SRes) -> bool {
    match s {
        SRes::Text(t) => if fits(t) { r is Ok && r->Ok_0.wf() && r->Ok_0@ == t } else { r is Err && r->Err_0 is OutOfMemory },
        SRes::NoZero => r is Err && r->Err_0 is NoZeroSymbol,
        SRes::Bounds(t) => r is Err && if t.len() == 0 || fits(t) { r->Err_0 is OutOfBounds } else { r->Err_0 is OutOfMemory },
    }
}
/// An error carries `n`, the nominal that was asked for.
pub open spec fn carries<T>(r: Result<crate::NominalString, crate::Error<T>>, n: T) -> bool {
    match r {
        Err(crate::Error::OutOfMemory(m)) => m == n,
        Err(crate::Error::OutOfBounds(m)) => m == n,
        _ => true,
    }
}

/// Plain decimal notation.
pub open spec fn dec_digit(d: nat) -> char { ('0' as u8 + d) as u8 as char }

pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![dec_digit(n)] } else { dec(n / 10) + seq![dec_digit(n % 10)] }
}

/// `r` is what infallible formatting has to return.
pub open spec fn total(r: crate::NominalString, s: SRes, n: nat) -> bool {
    r.wf() && r@ == (match s {
        SRes::Text(t) => if fits(t) { t } else { dec(n) },
        SRes::NoZero => dec(0),
        SRes::Bounds(_) => dec(n),
    })
}

/// No Rust object is larger than isize::MAX bytes.
pub axiom fn ax_str_len(s: &str)
    ensures encode_utf8(s@).len() <= isize::MAX;

/// Lexicographic order of byte sequences.
pub open spec fn byte_order(a: Seq<u8>, b: Seq<u8>) -> core::cmp::Ordering
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Less }
    } else if b.len() == 0 {
        core::cmp::Ordering::Greater
    } else if a[0] < b[0] {
        core::cmp::Ordering::Less
    } else if a[0] > b[0] {
        core::cmp::Ordering::Greater
    } else {
        byte_order(a.drop_first(), b.drop_first())
    }
}

/// The order of texts: by their bytes.
#[verifier::opaque]
pub open spec fn text_order(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering {
    byte_order(encode_utf8(a), encode_utf8(b))
}

/// How the standard library compares string slices.
pub axiom fn ax_str_cmp()
    ensures
        <str as OrdSpec>::obeys_cmp_spec(),
        forall|a: &str, b: &str| (#[trigger] <str as OrdSpec>::cmp_spec(a, b)) == text_order(a@, b@),
        <str as PartialOrdSpec>::obeys_partial_cmp_spec(),
        forall|a: &str, b: &str| (#[trigger] <str as PartialOrdSpec>::partial_cmp_spec(a, b)) == Some(text_order(a@, b@));

/// How the standard library compares byte slices.
pub axiom fn ax_bytes_eq()
    ensures
        <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec(),
        forall|a: &[u8], b: &[u8]| (#[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b)) == (a@ == b@);

/// Texts are equal when their bytes are.
pub proof fn bytes_equal()
    ensures
        <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec(),
        forall|a: &[u8], b: &[u8]| (#[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b)) == (a@ == b@),
        forall|a: Seq<char>, b: Seq<char>| #![trigger encode_utf8(a), encode_utf8(b)] encode_utf8(a) == encode_utf8(b) ==> a == b,
{
    ax_bytes_eq();
    assert forall|a: Seq<char>, b: Seq<char>| #![trigger encode_utf8(a), encode_utf8(b)] encode_utf8(a) == encode_utf8(b) implies a == b by {
        encode_utf8_decode_utf8(a);
        encode_utf8_decode_utf8(b);
    }
}

// ------------------------------------------------------------------ display
/// Displaying `text` with formatter `f` ends with `r` and leaves the formatter as `g`.
pub uninterp spec fn shown(f: core::fmt::Formatter<'_>, text: Seq<char>, g: core::fmt::Formatter<'_>, r: core::fmt::Result) -> bool;

/// String slices can be displayed with any formatter.
pub axiom fn ax_str_display()
    ensures forall|s: &str, f: core::fmt::Formatter<'_>| #[trigger] vstd::std_specs::fmt::DisplaySpec::fmt_req(s, &f);

pub assume_specification[<str as core::fmt::Display>::fmt](s: &str, f: &mut core::fmt::Formatter<'_>) -> (r: core::fmt::Result)
    ensures shown(*old(f), s@, *final(f), r);

pub assume_specification<'a>[core::fmt::Formatter::<'a>::pad](f: &mut core::fmt::Formatter<'a>, s: &str) -> (r: core::fmt::Result)
    ensures shown(*old(f), s@, *final(f), r);

// ------------------------------------------------------------------ panics
/// Replaces every panic: reaching one is an obligation.
#[verifier::external_body]
pub const fn v_panic() -> !
    requires false,
{ panic!() }

/// Replaces panics whose condition the contract states.
#[verifier::external_body]
pub const fn v_panic_if(cond: Ghost<bool>) -> !
    requires cond@,
{ panic!() }

/// Replaces panics in functions that are specified to panic on some inputs.
#[verifier::external_body]
pub const fn v_may_panic() -> !
{ panic!() }

pub fn v_check_range(lo: usize, hi: usize, len: usize)
    requires lo <= hi <= len,
{ }

// ------------------------------------------------------------------ standard library
pub assume_specification[<usize as From<bool>>::from](b: bool) -> (r: usize)
    ensures r == (if b { 1int } else { 0int });

pub axiom fn ax_from<T>()
    ensures
        <T as FromSpec<T>>::obeys_from_spec(),
        forall|x: T| #[trigger] <T as FromSpec<T>>::from_spec(x) == x;

pub assume_specification<T>[<T as From<T>>::from](t: T) -> (r: T)
    ensures r == t;

pub axiom fn ax_tryfrom<S, T: From<S>>()
    ensures
        <T as FromSpec<S>>::obeys_from_spec() ==> <T as TryFromSpec<S>>::obeys_try_from_spec(),
        forall|x: S| #[trigger] <T as TryFromSpec<S>>::try_from_spec(x)
            == Ok::<T, core::convert::Infallible>(<T as FromSpec<S>>::from_spec(x));

pub assume_specification[core::str::from_utf8_unchecked](v: &[u8]) -> (r: &str)
    requires valid_utf8(v@),
    ensures r@ == decode_utf8(v@);

pub assume_specification[String::as_mut_str](s: &mut String) -> (r: &mut str)
    ensures r@ == old(s)@, final(s)@ == final(r)@;

pub assume_specification[String::insert](s: &mut String, i: usize, c: char)
    requires i == 0,
    ensures final(s)@ == seq![c] + old(s)@;

pub assume_specification[String::with_capacity](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();

pub assume_specification<T>[Option::<Option<T>>::flatten](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });

pub assume_specification<'a, T: Copy>[Option::<&'a T>::copied](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

pub assume_specification<T: core::marker::MetaSized + ?Sized, A: std::alloc::Allocator>[<std::boxed::Box<T, A> as AsRef<T>>::as_ref](b: &std::boxed::Box<T, A>) -> (r: &T)
    ensures r == &**b;

pub assume_specification<T: core::marker::MetaSized + ?Sized, A: std::alloc::Allocator>[<std::rc::Rc<T, A> as AsRef<T>>::as_ref](b: &std::rc::Rc<T, A>) -> (r: &T)
    ensures r == &**b;

pub assume_specification<T: core::marker::MetaSized + ?Sized, A: std::alloc::Allocator>[<std::sync::Arc<T, A> as AsRef<T>>::as_ref](b: &std::sync::Arc<T, A>) -> (r: &T)
    ensures r == &**b;

pub open spec fn ipow(b: nat, e: nat) -> nat
    decreases e,
{
    if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) }
}

pub assume_specification[u128::pow](b: u128, e: u32) -> (r: u128)
    requires ipow(b as nat, e as nat) <= u128::MAX,
    ensures r == ipow(b as nat, e as nat);

#[verifier::external_body]
pub fn v_from_utf8_unchecked(v: &[u8]) -> (r: &str)
    requires valid_utf8(v@),
    ensures r@ == decode_utf8(v@),
{ unsafe { core::str::from_utf8_unchecked(v) } }

#[verifier::external_body]
pub fn v_from_utf8_unchecked_mut<'a>(v: &'a mut [u8]) -> (r: &'a mut str)
    requires valid_utf8(old(v)@),
    ensures r@ == decode_utf8(old(v)@), final(v)@ == encode_utf8(final(r)@), final(v)@.len() == old(v)@.len(),
{ unsafe { core::str::from_utf8_unchecked_mut(v) } }

#[verifier::external_body]
pub fn v_string_from(s: &str) -> (r: String)
    ensures r@ == s@,
{ String::from(s) }

#[verifier::external_body]
pub fn v_encode_utf8<const N: usize>(ch: char, buf: &mut [u8; N])
    requires N >= 4,
    ensures
        final(buf)@.subrange(0, blen(seq![ch]) as int) == encode_utf8(seq![ch]),
        forall|i: int| blen(seq![ch]) <= i < N ==> #[trigger] final(buf)@[i] == old(buf)@[i],
{ ch.encode_utf8(buf); }

#[verifier::external_body]
pub fn v_to_array<T, const N: usize>(v: Vec<T>) -> (r: [T; N])
    requires v@.len() == N,
    ensures r@ == v@,
{ v.try_into().ok().unwrap() }

// ------------------------------------------------------------------ possibly uninitialised bytes
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct MaybeUninit { b: core::mem::MaybeUninit<u8> }

impl View for MaybeUninit {
    type V = Option<u8>;
    uninterp spec fn view(&self) -> Option<u8>;
}

impl MaybeUninit {
    #[verifier::external_body]
    pub const fn uninit() -> (r: Self)
        ensures r@ == None::<u8>,
    { MaybeUninit { b: core::mem::MaybeUninit::uninit() } }

    #[verifier::external_body]
    pub fn write(&mut self, v: u8)
        ensures final(self)@ == Some(v),
    { self.b.write(v); }
}

/// The n bytes from position a.
pub open spec fn bytes_of(s: Seq<MaybeUninit>, a: int, n: int) -> Seq<u8> {
    Seq::new(n as nat, |i: int| s[a + i]@->0)
}

pub open spec fn is_init(s: Seq<MaybeUninit>, a: int, n: int) -> bool {
    forall|i: int| a <= i < a + n ==> (#[trigger] s[i])@ is Some
}

#[verifier::external_body]
pub fn v_copy_within<const N: usize>(b: &mut [MaybeUninit; N], lo: usize, hi: usize, dest: usize)
    requires lo <= hi <= N, dest + (hi - lo) <= N,
    ensures
        forall|i: int| 0 <= i < N ==> #[trigger] final(b)@[i]@ == (if dest <= i < dest + (hi - lo) {
            old(b)@[i - dest + lo]@
        } else {
            old(b)@[i]@
        }),
{ b.copy_within(lo..hi, dest) }

// raw pointers into a byte buffer, as the buffer and an offset
pub struct VPtr<'a> { pub buf: &'a [MaybeUninit], pub off: usize }

pub struct VSrcPtr<'a> { pub buf: &'a [u8], pub off: usize }

pub struct VMutPtr<'a, const N: usize> { pub buf: &'a mut [MaybeUninit; N], pub off: usize }

pub trait VAsPtr<'a> {
    type P;
    spec fn ptr_spec(self, p: Self::P) -> bool;
    fn v_as_ptr(self) -> (r: Self::P)
        ensures self.ptr_spec(r);
}

impl<'a, const N: usize> VAsPtr<'a> for &'a [MaybeUninit; N] {
    type P = VPtr<'a>;
    open spec fn ptr_spec(self, p: VPtr<'a>) -> bool { p.buf@ == self@ && p.off == 0 && self@.len() == N }
    fn v_as_ptr(self) -> VPtr<'a> { VPtr { buf: self.as_slice(), off: 0 } }
}

impl<'a, 'b> VAsPtr<'a> for &'b &'a [u8] {
    type P = VSrcPtr<'a>;
    open spec fn ptr_spec(self, p: VSrcPtr<'a>) -> bool { p.buf@ == self@ && p.off == 0 }
    fn v_as_ptr(self) -> VSrcPtr<'a> { VSrcPtr { buf: *self, off: 0 } }
}

impl<'a> VPtr<'a> {
    pub fn cast(self) -> (r: Self)
        ensures r == self,
    { self }

    pub fn add(self, n: usize) -> (r: Self)
        requires self.off + n <= self.buf@.len(), self.buf@.len() <= usize::MAX,
        ensures r.buf == self.buf, r.off == self.off + n,
    { VPtr { buf: self.buf, off: self.off + n } }
}

impl<'a> VSrcPtr<'a> {
    pub fn cast(self) -> (r: Self)
        ensures r == self,
    { self }

    pub fn add(self, n: usize) -> (r: Self)
        requires self.off + n <= self.buf@.len(), self.buf@.len() <= usize::MAX,
        ensures r.buf == self.buf, r.off == self.off + n,
    { VSrcPtr { buf: self.buf, off: self.off + n } }
}

pub fn v_as_mut_ptr<'a, const N: usize>(b: &'a mut [MaybeUninit; N]) -> (r: VMutPtr<'a, N>)
    ensures *r.buf == *old(b), *final(r.buf) == *final(b), r.off == 0,
{ VMutPtr { buf: b, off: 0 } }

impl<'a, const N: usize> VMutPtr<'a, N> {
    pub fn cast(self) -> (r: Self)
        ensures *r.buf == *old(self.buf), *final(r.buf) == *final(self.buf), r.off == self.off,
    { self }

    pub fn add(self, n: usize) -> (r: Self)
        requires self.off + n <= N,
        ensures *r.buf == *old(self.buf), *final(r.buf) == *final(self.buf), r.off == self.off + n,
    { let o = self.off + n; VMutPtr { buf: self.buf, off: o } }

    #[verifier::external_body]
    pub fn copy_from(self, src: VSrcPtr, n: usize)
        requires self.off + n <= N, src.off + n <= src.buf@.len(),
        ensures
            forall|i: int| 0 <= i < N ==> #[trigger] final(self.buf)@[i]@ == (if self.off <= i < self.off + n {
                Some(src.buf@[i - self.off + src.off])
            } else {
                old(self.buf)@[i]@
            }),
    { unimplemented!() }
}

#[verifier::external_body]
pub fn v_from_raw_parts<'a>(p: VPtr<'a>, n: usize) -> (r: &'a [u8])
    requires p.off + n <= p.buf@.len(), is_init(p.buf@, p.off as int, n as int),
    ensures r@ == bytes_of(p.buf@, p.off as int, n as int),
{ unimplemented!() }

#[verifier::external_body]
pub fn v_from_raw_parts_mut<'a, const N: usize>(p: VMutPtr<'a, N>, n: usize) -> (r: &'a mut [u8])
    requires p.off + n <= N, is_init(old(p.buf)@, p.off as int, n as int),
    ensures
        r@ == bytes_of(old(p.buf)@, p.off as int, n as int),
        final(r)@.len() == n,
        forall|i: int| 0 <= i < N ==> #[trigger] final(p.buf)@[i]@ == (if p.off <= i < p.off + n {
            Some(final(r)@[i - p.off])
        } else {
            old(p.buf)@[i]@
        }),
{ unimplemented!() }
