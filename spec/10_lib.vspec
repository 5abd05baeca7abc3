//@ supertraits crate::UnsignedInteger
TryFrom<u128>
TryFrom<u64>
TryFrom<u32>
TryFrom<u16>
//@ trait crate::UnsignedInteger
    spec fn val(self) -> nat;
    spec fn maxv() -> nat;
    /// What the standard library's integer operations mean; proved for every implementor.
    proof fn laws()
        ensures
            255 <= Self::maxv() <= u128::MAX,
            Self::maxv() == u8::MAX || Self::maxv() == u16::MAX || Self::maxv() == u32::MAX || Self::maxv() == u64::MAX || Self::maxv() == u128::MAX,
            forall|a: Self| #[trigger] a.val() <= Self::maxv(),
            forall|a: Self, b: Self| a.val() == b.val() ==> a == b,
            <Self as vstd::std_specs::ops::SubSpec>::obeys_sub_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b) == (a.val() >= b.val()),
            forall|a: Self, b: Self| a.val() >= b.val() ==> (#[trigger] vstd::std_specs::ops::SubSpec::sub_spec(a, b)).val() == a.val() - b.val(),
            <Self as vstd::std_specs::ops::SubAssignSpec>::obeys_sub_assign_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::ops::SubAssignSpec::sub_assign_req(&a, b) == (a.val() >= b.val()),
            forall|a: Self, b: Self| a.val() >= b.val() ==> (#[trigger] vstd::std_specs::ops::SubAssignSpec::sub_assign_spec(&a, b)).val() == a.val() - b.val(),
            <Self as vstd::std_specs::ops::MulSpec>::obeys_mul_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b) == (a.val() * b.val() <= Self::maxv()),
            forall|a: Self, b: Self| a.val() * b.val() <= Self::maxv() ==> (#[trigger] vstd::std_specs::ops::MulSpec::mul_spec(a, b)).val() == a.val() * b.val(),
            <Self as vstd::std_specs::ops::DivSpec>::obeys_div_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b) == (b.val() > 0),
            forall|a: Self, b: Self| b.val() > 0 ==> (#[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b)).val() == a.val() / b.val(),
            <Self as vstd::std_specs::ops::RemSpec>::obeys_rem_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::ops::RemSpec::rem_req(a, b) == (b.val() > 0),
            forall|a: Self, b: Self| b.val() > 0 ==> (#[trigger] vstd::std_specs::ops::RemSpec::rem_spec(a, b)).val() == a.val() % b.val(),
            <Self as vstd::std_specs::ops::DivAssignSpec>::obeys_div_assign_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::ops::DivAssignSpec::div_assign_req(&a, b) == (b.val() > 0),
            forall|a: Self, b: Self| b.val() > 0 ==> (#[trigger] vstd::std_specs::ops::DivAssignSpec::div_assign_spec(&a, b)).val() == a.val() / b.val(),
            <Self as vstd::std_specs::ops::RemAssignSpec>::obeys_rem_assign_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::ops::RemAssignSpec::rem_assign_req(&a, b) == (b.val() > 0),
            forall|a: Self, b: Self| b.val() > 0 ==> (#[trigger] vstd::std_specs::ops::RemAssignSpec::rem_assign_spec(&a, b)).val() == a.val() % b.val(),
            <Self as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a.val() == b.val()),
            <Self as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec(),
            forall|a: Self, b: Self| #[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&a, &b) == Some(if a.val() < b.val() {
                core::cmp::Ordering::Less
            } else if a.val() == b.val() {
                core::cmp::Ordering::Equal
            } else {
                core::cmp::Ordering::Greater
            }),
            <Self as vstd::std_specs::convert::FromSpec<u8>>::obeys_from_spec(),
            forall|a: u8| (#[trigger] <Self as vstd::std_specs::convert::FromSpec<u8>>::from_spec(a)).val() == a as nat,
            <Self as vstd::std_specs::convert::TryFromSpec<usize>>::obeys_try_from_spec(),
            forall|a: usize| match #[trigger] <Self as vstd::std_specs::convert::TryFromSpec<usize>>::try_from_spec(a) { Ok(v) => v.val() == a as nat, Err(_) => a as nat > Self::maxv() },
            <Self as vstd::std_specs::convert::TryFromSpec<u128>>::obeys_try_from_spec(),
            forall|a: u128| match #[trigger] <Self as vstd::std_specs::convert::TryFromSpec<u128>>::try_from_spec(a) { Ok(v) => v.val() == a as nat, Err(_) => a as nat > Self::maxv() },
            <Self as vstd::std_specs::convert::TryFromSpec<u64>>::obeys_try_from_spec(),
            forall|a: u64| match #[trigger] <Self as vstd::std_specs::convert::TryFromSpec<u64>>::try_from_spec(a) { Ok(v) => v.val() == a as nat, Err(_) => a as nat > Self::maxv() },
            <Self as vstd::std_specs::convert::TryFromSpec<u32>>::obeys_try_from_spec(),
            forall|a: u32| match #[trigger] <Self as vstd::std_specs::convert::TryFromSpec<u32>>::try_from_spec(a) { Ok(v) => v.val() == a as nat, Err(_) => a as nat > Self::maxv() },
            <Self as vstd::std_specs::convert::TryFromSpec<u16>>::obeys_try_from_spec(),
            forall|a: u16| match #[trigger] <Self as vstd::std_specs::convert::TryFromSpec<u16>>::try_from_spec(a) { Ok(v) => v.val() == a as nat, Err(_) => a as nat > Self::maxv() },
            <Self as vstd::std_specs::convert::TryIntoSpec<usize>>::obeys_try_into_spec(),
            forall|a: Self| match #[trigger] <Self as vstd::std_specs::convert::TryIntoSpec<usize>>::try_into_spec(a) { Ok(v) => a.val() == v as nat, Err(_) => a.val() > usize::MAX as nat },
    ;
//@ fn crate::UnsignedInteger::is_zero
//@ spec
    ensures r == (self.val() == 0),
//@ fn crate::UnsignedInteger::as_usize
//@ spec
    requires self.val() <= usize::MAX,
    ensures r == self.val(),
//@ impl crate::<* as UnsignedInteger>
    open spec fn val(self) -> nat { self as nat }
    open spec fn maxv() -> nat { $Name::MAX as nat }
    proof fn laws() {
        crate::int_conversions();
    }
//@ mod crate
pub proof fn int_conversions()
    ensures
        crate::refl_ok::<u8>(), crate::refl_ok::<u16>(), crate::refl_ok::<u32>(), crate::refl_ok::<u64>(), crate::refl_ok::<u128>(), crate::refl_ok::<usize>(),
        crate::widen_ok::<u8, u8>(), crate::widen_ok::<u8, u16>(), crate::widen_ok::<u8, u32>(), crate::widen_ok::<u8, u64>(), crate::widen_ok::<u8, u128>(), crate::widen_ok::<u8, usize>(),
        crate::widen_ok::<u16, u16>(), crate::widen_ok::<u16, u32>(), crate::widen_ok::<u16, u64>(), crate::widen_ok::<u16, u128>(), crate::widen_ok::<u16, usize>(),
        crate::widen_ok::<u32, u32>(), crate::widen_ok::<u32, u64>(), crate::widen_ok::<u32, u128>(),
        crate::widen_ok::<u64, u64>(), crate::widen_ok::<u64, u128>(), crate::widen_ok::<u128, u128>(), crate::widen_ok::<usize, usize>(),
{
    vfw::ax_from::<u8>(); vfw::ax_from::<u16>(); vfw::ax_from::<u32>(); vfw::ax_from::<u64>(); vfw::ax_from::<u128>(); vfw::ax_from::<usize>();
    vfw::ax_tryfrom::<u8, u8>(); vfw::ax_tryfrom::<u8, u16>(); vfw::ax_tryfrom::<u8, u32>(); vfw::ax_tryfrom::<u8, u64>(); vfw::ax_tryfrom::<u8, u128>(); vfw::ax_tryfrom::<u8, usize>();
    vfw::ax_tryfrom::<u16, u16>(); vfw::ax_tryfrom::<u16, u32>(); vfw::ax_tryfrom::<u16, u64>(); vfw::ax_tryfrom::<u16, u128>(); vfw::ax_tryfrom::<u16, usize>();
    vfw::ax_tryfrom::<u32, u32>(); vfw::ax_tryfrom::<u32, u64>(); vfw::ax_tryfrom::<u32, u128>();
    vfw::ax_tryfrom::<u64, u64>(); vfw::ax_tryfrom::<u64, u128>(); vfw::ax_tryfrom::<u128, u128>(); vfw::ax_tryfrom::<usize, usize>();
}
pub open spec fn refl_ok<T>() -> bool {
    <T as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec()
    && forall|x: T| #[trigger] <T as vstd::std_specs::convert::FromSpec<T>>::from_spec(x) == x
}
pub open spec fn widen_ok<S, T: From<S>>() -> bool {
    (<T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec() ==> <T as vstd::std_specs::convert::TryFromSpec<S>>::obeys_try_from_spec())
    && forall|x: S| #[trigger] <T as vstd::std_specs::convert::TryFromSpec<S>>::try_from_spec(x)
            == Ok::<T, core::convert::Infallible>(<T as vstd::std_specs::convert::FromSpec<S>>::from_spec(x))
}
//@ trait crate::NominalSystem
    /// What formatting a nominal of value `n` has to give.
    spec fn fmt_spec(&self, n: nat) -> SRes;
    /// What is asked of the system's own state.
    open spec fn sys_wf(&self) -> bool { true }
//@ fn crate::NominalSystem::try_format_nominal
//@ spec
    requires self.sys_wf(),
    ensures
        gives(r, self.fmt_spec(nominal.val())),
        carries(r, nominal),
//@ fn crate::NominalSystem::format_nominal
//@ spec
    requires vself.sys_wf(),
    ensures total(r, vself.fmt_spec(nominal.val()), nominal.val()),
//@ mod crate
/// One unfolding of `format_nominal` for a system whose result is known to be a text: what
/// `into_decimal` runs, without going round the cycle through the trait again (rule R14).
pub fn v_total<T: Nominal, S: NominalSystem<T>>(s: &S, nominal: T) -> (r: NominalString)
    requires
        s.sys_wf(),
        s.fmt_spec(nominal.val()) is Text,
        fits(s.fmt_spec(nominal.val())->Text_0),
    ensures
        r.wf(),
        r@ == s.fmt_spec(nominal.val())->Text_0,
{
    match s.try_format_nominal(nominal) {
        Ok(s) => s,
        Err(_) => v_panic(),
    }
}
//@ if alloc
//@ impl crate::<*Box<dyn NominalSystem<T>>* as NominalSystem<T>>
    open spec fn sys_wf(&self) -> bool { (**self).sys_wf() }
    open spec fn fmt_spec(&self, n: nat) -> SRes { (**self).fmt_spec(n) }
//@ impl crate::<*Rc<dyn NominalSystem<T>>* as NominalSystem<T>>
    open spec fn sys_wf(&self) -> bool { (**self).sys_wf() }
    open spec fn fmt_spec(&self, n: nat) -> SRes { (**self).fmt_spec(n) }
//@ impl crate::<*Arc<dyn NominalSystem<T>>* as NominalSystem<T>>
    open spec fn sys_wf(&self) -> bool { (**self).sys_wf() }
    open spec fn fmt_spec(&self, n: nat) -> SRes { (**self).fmt_spec(n) }
//@ endif
//@ fn crate::Nominal::to_nominal
//@ spec
    requires system.sys_wf(),
    ensures total(r, system.fmt_spec(vself.val()), vself.val()),
//@ fn crate::Nominal::try_to_nominal
//@ spec
    requires system.sys_wf(),
    ensures
        gives(r, system.fmt_spec(vself.val())),
        carries(r, vself),
//@ fn crate::<Error<T>>::into_decimal | break=format_nominal:crate::v_total
//@ spec
    ensures
        r.wf(),
        r@ == (match self {
            Error::NoZeroSymbol => dec(0),
            Error::OutOfBounds(n) => dec(n.val()),
            Error::OutOfMemory(n) => dec(n.val()),
        }),
//@ start
    proof {
        assert forall|n: nat| n <= u128::MAX implies fits(#[trigger] dec(n)) by { crate::digital::dec_fits(n); }
        crate::digital::decimal_is_dec();
    }
//@ trait crate::UnwrapOrDecimal
    spec fn ud_spec(&self) -> Seq<char>;
    spec fn ud_req(&self) -> bool;
//@ fn crate::UnwrapOrDecimal::unwrap_or_decimal
//@ spec
    requires self.ud_req(),
    ensures r.wf(), r@ == self.ud_spec(),
//@ impl crate::<* as UnwrapOrDecimal>
    open spec fn ud_req(&self) -> bool { *self is Ok ==> self->Ok_0.wf() }
    open spec fn ud_spec(&self) -> Seq<char> {
        match self {
            Ok(s) => s@,
            Err(Error::NoZeroSymbol) => dec(0),
            Err(Error::OutOfBounds(n)) => dec(n.val()),
            Err(Error::OutOfMemory(n)) => dec(n.val()),
        }
    }
//@ trait crate::WithNominal
    spec fn wn_ok(self) -> Option<R>;
//@ fn crate::WithNominal::with_nominal
//@ spec
    ensures
        match self.wn_ok() {
            Some(v) => r == Ok::<R, Error<N>>(v),
            None => r == Err::<R, Error<N>>(Error::OutOfMemory(nominal)),
        },
//@ impl crate::<* as WithNominal<R>>
    open spec fn wn_ok(self) -> Option<R> {
        match self { Ok(v) => Some(v), Err(_) => None }
    }
//@ freedefault crate::NominalSystem::format_nominal
//@ freedefault crate::Nominal::to_nominal
//@ freedefault crate::Nominal::try_to_nominal
