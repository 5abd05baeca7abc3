//@ impl nominalstring::<InlineString>
    pub open spec fn slen(self) -> int { (self.length & 0x7f) as int }
    pub open spec fn srev(self) -> bool { (self.length & 0x80) != 0 }
    pub open spec fn soff(self) -> int { if self.srev() { 62 - self.slen() } else { 0 } }
    pub open spec fn sbytes(self) -> Seq<u8> { bytes_of(self.bytes@, self.soff(), self.slen()) }
    /// At most 62 bytes, all of them written, and valid UTF-8.
    pub open spec fn wf(self) -> bool {
        self.slen() <= 62 && is_init(self.bytes@, self.soff(), self.slen()) && vstd::utf8::valid_utf8(self.sbytes())
    }
    pub open spec fn text(self) -> Seq<char> { vstd::utf8::decode_utf8(self.sbytes()) }
    pub proof fn text_len(self)
        requires self.wf(),
        ensures
            blen(self.text()) == self.slen(),
            self.sbytes() == vstd::utf8::encode_utf8(self.text()),
            0 <= self.slen() < 0x80,
    {
        utf8_cat(self.sbytes(), Seq::<char>::empty());
        vstd::utf8::decode_utf8_encode_utf8(self.sbytes());
        let l = self.length;
        assert(l & 0x7fu8 < 0x80u8) by(bit_vector);
    }
//@ fn nominalstring::<InlineString>::len
//@ spec
    ensures r == self.slen(), r < 0x80,
//@ start
    proof { let l = self.length; assert(l & 0x7fu8 < 0x80u8) by(bit_vector); }
//@ fn nominalstring::<InlineString>::len_usize
//@ spec
    ensures r == self.slen(), r < 0x80,
//@ fn nominalstring::<InlineString>::is_reverse
//@ spec
    ensures r == self.srev(),
//@ fn nominalstring::<InlineString>::data_offset
//@ spec
    requires self.slen() <= 62,
    ensures r == self.soff(), r + self.slen() <= 62,
//@ fn nominalstring::<InlineString>::as_bytes
//@ spec
    requires self.wf(),
    ensures r@ == self.sbytes(),
//@ fn nominalstring::<InlineString>::as_bytes_mut
//@ spec
    requires old(self).wf(),
    ensures
        r@ == old(self).sbytes(),
        final(r)@.len() == r@.len(),
        final(self).length == old(self).length,
        is_init(final(self).bytes@, final(self).soff(), final(self).slen()),
        final(self).sbytes() =~= final(r)@,
//@ fn nominalstring::<InlineString>::as_str
//@ spec
    requires self.wf(),
    ensures r@ == self.text(),
//@ fn nominalstring::<InlineString>::as_mut_str
//@ spec
    requires old(self).wf(),
    ensures
        r@ == old(self).text(),
        final(self).wf(),
        final(self).text() == final(r)@,
        final(self).srev() == old(self).srev(),
//@ start
    proof { as_mut_str_utf8(); self.text_len(); }
//@ fn nominalstring::<InlineString>::set_length
//@ spec
    requires new_length < 0x80,
    ensures
        final(self).slen() == new_length,
        final(self).srev() == old(self).srev(),
        final(self).bytes == old(self).bytes,
//@ start
    proof {
        let a = self.length; let b = new_length;
        assert(b < 0x80u8 ==> (a & 0x80u8 | b) & 0x7fu8 == b && (a & 0x80u8 | b) & 0x80u8 == a & 0x80u8) by(bit_vector);
    }
//@ fn nominalstring::<InlineString>::push
//@ spec
    requires
        old(self).wf(),
        char_len == blen(seq![ch]),
        inline_len == old(self).slen(),
        new_length == inline_len + char_len,
        new_length <= 62,
    ensures
        final(self).wf(),
        final(self).text() == old(self).text() + seq![ch],
        final(self).slen() == new_length,
        final(self).srev() == old(self).srev(),
//@ start
    proof { blen_one(ch); utf8_cat(self.sbytes(), seq![ch]); reveal(blen); }
//@ loop 0
    invariant
        self.length == old(self).length,
        forall|j: int| 0 <= j < 62 ==> #[trigger] self.bytes@[j]@ == (if __lo0 <= j < __lo0 + __i0 { Some(__src0@[j - __lo0]) } else if 62 - new_length <= j < 62 - new_length + old(self).slen() { old(self).bytes@[j + char_len]@ } else { old(self).bytes@[j]@ }),
        __i0 <= __src0@.len(), __i0 <= __hi0 - __lo0,
    decreases __src0@.len() - __i0,
//@ loop 1
    invariant
        self.length == old(self).length,
        forall|j: int| 0 <= j < 62 ==> #[trigger] self.bytes@[j]@ == (if __lo1 <= j < __lo1 + __i1 { Some(__src1@[j - __lo1]) } else { old(self).bytes@[j]@ }),
        __i1 <= __src1@.len(), __i1 <= __hi1 - __lo1,
    decreases __src1@.len() - __i1,
//@ end
    assert(self.sbytes() =~= old(self).sbytes() + vstd::utf8::encode_utf8(seq![ch]));
//@ fn nominalstring::<InlineString>::push_str
//@ spec
    requires
        old(self).wf(),
        new_length == old(self).slen() + blen(str@),
        new_length <= 62,
    ensures
        final(self).wf(),
        final(self).text() == old(self).text() + str@,
        final(self).slen() == new_length,
        final(self).srev() == old(self).srev(),
//@ start
    proof { utf8_cat(self.sbytes(), str@); reveal(blen); }
//@ loop 0
    invariant
        self.length == old(self).length,
        forall|j: int| 0 <= j < 62 ==> #[trigger] self.bytes@[j]@ == (if __lo0 <= j < __lo0 + __i0 { Some(__src0@[j - __lo0]) } else if j >= 62 - new_length && j < 62 - new_length + old(self).slen() { old(self).bytes@[j + blen(str@) as int]@ } else { old(self).bytes@[j]@ }),
        __i0 <= __src0@.len(), __i0 <= __hi0 - __lo0,
    decreases __src0@.len() - __i0,
//@ end
    assert(self.sbytes() =~= old(self).sbytes() + vstd::utf8::encode_utf8(str@));
//@ fn nominalstring::<InlineString>::push_front
//@ spec
    requires
        old(self).wf(),
        char_len == blen(seq![ch]),
        inline_len == old(self).slen(),
        new_length == inline_len + char_len,
        new_length <= 62,
    ensures
        final(self).wf(),
        final(self).text() == seq![ch] + old(self).text(),
        final(self).slen() == new_length,
        final(self).srev() == old(self).srev(),
//@ start
    proof { blen_one(ch); utf8_cat(self.sbytes(), seq![ch]); reveal(blen); }
//@ loop 0
    invariant
        self.length == old(self).length,
        forall|j: int| 0 <= j < 62 ==> #[trigger] self.bytes@[j]@ == (if __lo0 <= j < __lo0 + __i0 { Some(__src0@[j - __lo0]) } else { old(self).bytes@[j]@ }),
        __i0 <= __src0@.len(), __i0 <= __hi0 - __lo0,
    decreases __src0@.len() - __i0,
//@ loop 1
    invariant
        self.length == old(self).length,
        forall|j: int| 0 <= j < 62 ==> #[trigger] self.bytes@[j]@ == (if __lo1 <= j < __lo1 + __i1 { Some(__src1@[j - __lo1]) } else if char_len <= j < new_length { old(self).bytes@[j - char_len]@ } else { old(self).bytes@[j]@ }),
        __i1 <= __src1@.len(), __i1 <= __hi1 - __lo1,
    decreases __src1@.len() - __i1,
//@ end
    assert(self.sbytes() =~= vstd::utf8::encode_utf8(seq![ch]) + old(self).sbytes());
//@ impl nominalstring::<MaybeInline>
    pub open spec fn wf(&self) -> bool {
        match self {
            MaybeInline::Inline(i) => i.wf(),
//@ if alloc
            MaybeInline::Heap(s) => true,
//@ endif
        }
    }
    pub open spec fn text(&self) -> Seq<char> {
        match self {
            MaybeInline::Inline(i) => i.text(),
//@ if alloc
            MaybeInline::Heap(s) => s@,
//@ endif
        }
    }
    pub open spec fn s_inline(&self) -> bool { self is Inline }
    pub proof fn inline_len(&self)
        requires self.wf(), self.s_inline(),
        ensures blen(self.text()) <= 62, fits(self.text()),
    {
        reveal(fits);
        if let MaybeInline::Inline(i) = self { i.text_len(); }
    }
//@ fn nominalstring::<MaybeInline>::new
//@ spec
    ensures r.wf(), r.s_inline(), r.text() == Seq::<char>::empty(), r->Inline_0.srev() == false,
//@ start
    proof { assert(0u8 & 0x7fu8 == 0u8 && 0u8 & 0x80u8 == 0u8) by(bit_vector); empty_text(); }
//@ fn nominalstring::<MaybeInline>::reverse
//@ spec
    ensures r.wf(), r.s_inline(), r.text() == Seq::<char>::empty(), r->Inline_0.srev() == true,
//@ start
    proof { assert(0x80u8 & 0x7fu8 == 0u8 && 0x80u8 & 0x80u8 == 0x80u8) by(bit_vector); empty_text(); }
//@ fn nominalstring::<MaybeInline>::push
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok ==> final(self).text() == old(self).text() + seq![ch] && fits(final(self).text())
            && final(self).s_inline() == (old(self).s_inline() && blen(final(self).text()) <= 62),
        r is Err ==> *final(self) == *old(self) && !fits(old(self).text() + seq![ch]),
//@ start
    proof {
        blen_one(ch); blen_add(self.text(), seq![ch]); reveal(fits);
        if let MaybeInline::Inline(i) = self { i.text_len(); }
        assert(self.text().push(ch) == self.text() + seq![ch]);
        vstd::utf8::encode_utf8_push(Seq::<char>::empty(), ch);
    }
//@ fn nominalstring::<MaybeInline>::push_str
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok ==> final(self).text() == old(self).text() + str@ && fits(final(self).text())
            && final(self).s_inline() == (old(self).s_inline() && blen(final(self).text()) <= 62),
        r is Err ==> *final(self) == *old(self) && !fits(old(self).text() + str@),
//@ start
    proof {
        blen_add(self.text(), str@); reveal(fits); reveal(blen); ax_str_len(str);
        if let MaybeInline::Inline(i) = self { i.text_len(); }
    }
//@ fn nominalstring::<MaybeInline>::push_front
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok ==> final(self).text() == seq![ch] + old(self).text() && fits(final(self).text())
            && final(self).s_inline() == (old(self).s_inline() && blen(final(self).text()) <= 62),
        r is Err ==> *final(self) == *old(self) && !fits(seq![ch] + old(self).text()),
//@ start
    proof {
        blen_one(ch); blen_add(seq![ch], self.text()); reveal(fits);
        if let MaybeInline::Inline(i) = self { i.text_len(); }
        assert(Seq::<char>::empty().push(ch) == seq![ch]);
    }
//@ fn nominalstring::<MaybeInline>::as_str
//@ spec
    requires self.wf(),
    ensures r@ == self.text(),
//@ fn nominalstring::<MaybeInline>::as_str_mut
//@ spec
    requires old(self).wf(),
    ensures
        r@ == old(self).text(),
        final(self).wf(),
        final(self).text() == final(r)@,
        final(self).s_inline() == old(self).s_inline(),
//@ keep nominalstring::<MaybeInline as Clone>
//@ fn nominalstring::<MaybeInline as Clone>::clone
//@ spec
    ensures r == *self,
//@ keep nominalstring::<NominalString as Clone>
//@ fn nominalstring::<NominalString as Clone>::clone
//@ spec
    ensures r@ == self@, r.wf() == self.wf(), r.s_inline() == self.s_inline(),
//@ start
    proof { ns_wf(self); }
//@ mod nominalstring
    impl View for NominalString {
        type V = Seq<char>;
        open spec fn view(&self) -> Seq<char> { self.0.text() }
    }
    /// Every string there is is well formed: `new`, `default` and the conversions establish it and each
    /// `&mut` method keeps it, which is proved; that nothing else makes or changes one is Rust's privacy.
    /// The methods of foreign traits, which can have no precondition, rely on it.
    pub proof fn ns_wf(s: &NominalString)
        ensures s.wf(),
    {
        assume(s.wf());
    }
    pub proof fn as_mut_str_utf8()
        ensures
            forall|t: Seq<char>| #[trigger] vstd::utf8::valid_utf8(vstd::utf8::encode_utf8(t)),
            forall|t: Seq<char>| vstd::utf8::decode_utf8(#[trigger] vstd::utf8::encode_utf8(t)) == t,
    {
        assert forall|t: Seq<char>| #[trigger] vstd::utf8::valid_utf8(vstd::utf8::encode_utf8(t)) by { vstd::utf8::encode_utf8_valid_utf8(t); }
        assert forall|t: Seq<char>| vstd::utf8::decode_utf8(#[trigger] vstd::utf8::encode_utf8(t)) == t by { vstd::utf8::encode_utf8_decode_utf8(t); }
    }
    pub proof fn empty_text()
        ensures
            vstd::utf8::valid_utf8(Seq::<u8>::empty()),
            vstd::utf8::decode_utf8(Seq::<u8>::empty()) == Seq::<char>::empty(),
            forall|b: Seq<MaybeUninit>, o: int| #[trigger] bytes_of(b, o, 0) == Seq::<u8>::empty(),
    {
        assert(vstd::utf8::encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
        vstd::utf8::encode_utf8_valid_utf8(Seq::<char>::empty());
        vstd::utf8::encode_utf8_decode_utf8(Seq::<char>::empty());
        assert forall|b: Seq<MaybeUninit>, o: int| #[trigger] bytes_of(b, o, 0) == Seq::<u8>::empty() by {
            assert(bytes_of(b, o, 0) =~= Seq::<u8>::empty());
        }
    }
//@ impl nominalstring::<NominalString>
    pub open spec fn wf(&self) -> bool { self.0.wf() }
    pub open spec fn s_inline(&self) -> bool { self.0.s_inline() }
//@ fn nominalstring::<NominalString>::new
//@ spec
    ensures r.wf(), r.s_inline(), r@ == Seq::<char>::empty(),
//@ fn nominalstring::<NominalString>::new_reverse
//@ spec
    ensures r.wf(), r.s_inline(), r@ == Seq::<char>::empty(),
//@ fn nominalstring::<NominalString>::try_push
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok ==> final(self)@ == old(self)@ + seq![ch] && fits(final(self)@)
            && final(self).s_inline() == (old(self).s_inline() && blen(final(self)@) <= 62),
        r is Err ==> *final(self) == *old(self) && !fits(old(self)@ + seq![ch]),
//@ fn nominalstring::<NominalString>::try_push_str
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok ==> final(self)@ == old(self)@ + str@ && fits(final(self)@)
            && final(self).s_inline() == (old(self).s_inline() && blen(final(self)@) <= 62),
        r is Err ==> *final(self) == *old(self) && !fits(old(self)@ + str@),
//@ fn nominalstring::<NominalString>::try_push_front
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        r is Ok ==> final(self)@ == seq![ch] + old(self)@ && fits(final(self)@)
            && final(self).s_inline() == (old(self).s_inline() && blen(final(self)@) <= 62),
        r is Err ==> *final(self) == *old(self) && !fits(seq![ch] + old(self)@),
//@ fn nominalstring::<NominalString>::is_inline
//@ spec
    ensures r == self.s_inline(),
//@ fn nominalstring::<NominalString>::try_into_string
//@ spec
    ensures
        r is Ok == !self.s_inline(),
        r is Ok ==> r->Ok_0@ == self@,
        r is Err ==> r->Err_0 == self,
//@ impl nominalstring::<NominalString as Default>
//@ fn nominalstring::<NominalString as Default>::default
//@ spec
    ensures r.wf(), r.s_inline(), r@ == Seq::<char>::empty(),
//@ fn nominalstring::<NominalString as Deref>::deref
//@ spec
    ensures r@ == self@,
//@ start
    proof { ns_wf(self); }
//@ fn nominalstring::<NominalString as DerefMut>::deref_mut
//@ spec
    ensures
        r@ == old(self)@,
        final(self).wf(),
        final(self)@ == final(r)@,
        final(self).s_inline() == old(self).s_inline(),
//@ start
    proof { ns_wf(self); }
//@ mod nominalstring
    impl vstd::std_specs::convert::FromSpecImpl<char> for NominalString {
        open spec fn obeys_from_spec() -> bool { false }
        uninterp spec fn from_spec(c: char) -> Self;
    }
    impl vstd::std_specs::convert::FromSpecImpl<&str> for NominalString {
        open spec fn obeys_from_spec() -> bool { false }
        uninterp spec fn from_spec(c: &str) -> Self;
    }
//@ if alloc
    impl vstd::std_specs::convert::FromSpecImpl<String> for NominalString {
        open spec fn obeys_from_spec() -> bool { false }
        uninterp spec fn from_spec(c: String) -> Self;
    }
    impl vstd::std_specs::convert::FromSpecImpl<&String> for NominalString {
        open spec fn obeys_from_spec() -> bool { false }
        uninterp spec fn from_spec(c: &String) -> Self;
    }
    impl vstd::std_specs::convert::FromSpecImpl<NominalString> for String {
        open spec fn obeys_from_spec() -> bool { false }
        uninterp spec fn from_spec(c: NominalString) -> Self;
    }
//@ endif
//@ fn nominalstring::<NominalString as From<char>>::from
//@ spec
    ensures r.wf(), r.s_inline(), r@ == seq![ch],
//@ start
    proof { fits_small(seq![ch]); }
//@ mod nominalstring
    use core::fmt::Display;
    impl vstd::std_specs::fmt::DisplaySpecImpl for NominalString {
        open spec fn fmt_req(&self, f: &core::fmt::Formatter<'_>) -> bool { true }
    }
//@ fn nominalstring::<NominalString as Display>::fmt
//@ spec
    ensures shown(*old($p0), self@, *final($p0), r),
//@ start
    proof { ns_wf(self); ax_str_display(); }
//@ drop nominalstring::<MaybeInline as Debug>
//@ mod nominalstring
    use vstd::std_specs::cmp::*;
    impl PartialEqSpecImpl<NominalString> for NominalString {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &NominalString) -> bool { self@ == other@ }
    }
    impl PartialEqSpecImpl<str> for NominalString {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &str) -> bool { self@ == other@ }
    }
    impl PartialEqSpecImpl<&str> for NominalString {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &&str) -> bool { self@ == other@ }
    }
    impl PartialOrdSpecImpl<NominalString> for NominalString {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &NominalString) -> Option<core::cmp::Ordering> { Some(text_order(self@, other@)) }
    }
    impl PartialOrdSpecImpl<str> for NominalString {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &str) -> Option<core::cmp::Ordering> { Some(text_order(self@, other@)) }
    }
    impl OrdSpecImpl for NominalString {
        open spec fn obeys_cmp_spec() -> bool { true }
        open spec fn cmp_spec(&self, other: &NominalString) -> core::cmp::Ordering { text_order(self@, other@) }
    }
//@ if alloc
    impl PartialEqSpecImpl<String> for NominalString {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &String) -> bool { self@ == other@ }
    }
    impl PartialOrdSpecImpl<String> for NominalString {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, other: &String) -> Option<core::cmp::Ordering> { Some(text_order(self@, other@)) }
    }
//@ endif
//@ fn nominalstring::<NominalString as PartialOrd<str>>::partial_cmp
//@ start
    proof { ns_wf(self); ax_str_cmp(); }
//@ fn nominalstring::<NominalString as Ord>::cmp
//@ start
    proof { ns_wf(self); ns_wf($p0); ax_str_cmp(); }
//@ fn nominalstring::<NominalString as PartialOrd>::partial_cmp
//@ start
    proof { ns_wf(self); ns_wf($p0); ax_str_cmp(); }
//@ fn nominalstring::<NominalString as PartialEq<str>>::eq
//@ start
    proof { bytes_equal(); ns_wf(self); }
//@ fn nominalstring::<NominalString as PartialEq>::eq
//@ start
    proof { bytes_equal(); ns_wf(self); ns_wf($p0); }
//@ fn nominalstring::<NominalString as PartialEq<&str>>::eq
//@ start
    proof { bytes_equal(); ns_wf(self); }
//@ fn nominalstring::<NominalString as From<&str>>::from
//@ spec
    ensures
        r.wf(),
        r@ == value@,
        r.s_inline() == (blen(value@) <= 62),
//@ panics
    !alloc_on() && blen(value@) > 62
//@ start
    proof {
        reveal(blen); ax_str_len(value); as_mut_str_utf8();
        let l = vstd::utf8::encode_utf8(value@).len() as u8;
        assert(l <= 62 ==> l & 0x7fu8 == l && l & 0x80u8 == 0) by(bit_vector);
        let t = vstd::utf8::encode_utf8(value@);
        assert forall|b: Seq<MaybeUninit>, n: int| n == t.len() && (forall|i: int| 0 <= i < n ==> (#[trigger] b[i])@ == Some(t[i])) implies #[trigger] bytes_of(b, 0, n) == t by {
            assert(bytes_of(b, 0, n) =~= t);
        }
    }
//@ loop 0
    invariant
        bytes@.len() == 62,
        __lo0 == 0,
        forall|j: int| __lo0 <= j < __lo0 + __i0 ==> #[trigger] bytes@[j]@ == Some(__src0@[j - __lo0]),
        __i0 <= __src0@.len(), __i0 <= __hi0 - __lo0, __hi0 <= 62,
        __hi0 == value_len, __src0@ == vstd::utf8::encode_utf8(value@), __src0@.len() == value_len,
    decreases __src0@.len() - __i0,
//@ if alloc
//@ fn nominalstring::<NominalString as From<String>>::from
//@ spec
    ensures r.wf(), r@ == value@, !r.s_inline(),
//@ fn nominalstring::<NominalString as From<&String>>::from
//@ spec
    ensures
        r.wf(),
        r@ == value@,
        r.s_inline() == (blen(value@) <= 62),
//@ fn nominalstring::<NominalString as PartialEq<String>>::eq
//@ start
    proof { bytes_equal(); ns_wf(self); }
//@ fn nominalstring::<NominalString as PartialOrd<String>>::partial_cmp
//@ start
    proof { ns_wf(self); ax_str_cmp(); }
//@ fn nominalstring::<String as From<NominalString>>::from
//@ spec
    ensures r@ == s@,
//@ start
    proof { ns_wf(&$p0); }
//@ endif
