//! Digit collections made up for the run.
use crate::oracle::Desc;
use crate::util::*;
use nominals::*;
use std::marker::PhantomData;

/// Fallbacks with a known description.
pub trait Known: DigitCollection + Default + Clone + 'static { fn desc() -> Option<Desc>; }
impl Known for NoFallback { fn desc() -> Option<Desc> { None } }
impl Known for Decimal { fn desc() -> Option<Desc> { Some(Desc::of("0123456789", true, true, false, None)) } }

macro_rules! fallback {
    ($n:ident, $digits:expr, $zero:expr, $zbased:expr, $fixed:expr, $fb:ty) => {
        #[derive(Default, Clone)]
        pub struct $n;
        impl DigitCollection for $n {
            type Fallback = $fb;
            fn fixed(&self) -> bool { $fixed }
            fn has_zero_digit(&self) -> bool { $zero }
            fn zero_based(&self) -> bool { $zbased }
            fn len(&self) -> usize { $digits.chars().count() }
            fn digit(&self, i: usize) -> char { $digits.chars().nth(i).expect("index is in range") }
        }
        impl Known for $n { fn desc() -> Option<Desc> { Some(Desc::of($digits, $zero, $zbased, $fixed, <$fb>::desc())) } }
    };
}
fallback!(FbA, "xyz", false, true, true, Decimal);
fallback!(FbB, "αβ", false, false, true, NoFallback);
fallback!(FbC, "○●◐◑◒", true, true, true, FbA);
fallback!(FbD, "ab", false, false, false, NoFallback);

pub fn sym(base: u32, i: usize) -> char {
    char::from_u32(base + (i % 40_000) as u32).unwrap_or('?')
}

#[derive(Clone)]
pub struct Dyn<F> { pub len: usize, pub base: u32, pub zero: bool, pub zbased: bool, pub fixed: bool, pub f: PhantomData<F> }
impl<F: Known> std::fmt::Debug for Dyn<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{{{} digits from U+{:X}{}{}{}}}", self.len, self.base, if self.zero { ", zero digit" } else if self.zbased { ", zero based" } else { ", one based" },
            if self.zero && !self.zbased { " (one based)" } else { "" },
            if self.fixed { format!(", fixed, fallback {}", std::any::type_name::<F>().rsplit("::").next().unwrap()) } else { String::new() })
    }
}
impl<F: Known> DigitCollection for Dyn<F> {
    type Fallback = F;
    fn fixed(&self) -> bool { self.fixed }
    fn has_zero_digit(&self) -> bool { self.zero }
    fn zero_based(&self) -> bool { self.zbased }
    fn len(&self) -> usize { self.len }
    fn digit(&self, i: usize) -> char {
        assert!(i < self.len, "digit {i} of a collection of {}", self.len);
        sym(self.base, i)
    }
}
impl<F: Known> Dyn<F> {
    pub fn desc(&self) -> Desc {
        let b = self.base;
        Desc { len: self.len as u128, digit: std::rc::Rc::new(move |i| sym(b, i as usize)), zero: self.zero, zbased: self.zbased,
               fixed: self.fixed, fallback: F::desc().map(Box::new) }
    }
    pub fn random(rng: &mut Rng, fixed: Option<bool>) -> Self {
        let len = match rng.below(13) {
            0 => 0, 1 => 1, 2 => 2, 3 => 255 + rng.below(3), 4 => 65_535 + rng.below(3),
            5 | 6 => [1usize << 32, (1 << 32) + 1, u32::MAX as usize, 1 << 62, 1 << 40, usize::MAX, isize::MAX as usize, 300][rng.below(8)],
            _ => 1 + rng.below(70),
        };
        Dyn { len, base: [0x61, 0xa1, 0x4e00, 0x20000][rng.below(4)], zero: rng.chance(2), zbased: rng.chance(2),
              fixed: fixed.unwrap_or_else(|| rng.chance(3)), f: PhantomData }
    }
}

pub fn chain(a: &Desc, b: &Desc) -> Desc {
    let (da, db, l) = (a.digit.clone(), b.digit.clone(), a.len);
    Desc { len: a.len + b.len, digit: std::rc::Rc::new(move |i| if i < l { da(i) } else { db(i - l) }), zero: a.zero, zbased: a.zbased, fixed: false, fallback: None }
}
pub fn restrict(k: usize, a: &Desc) -> Desc { let mut d = a.clone(); d.len = d.len.min(k as u128); d }
pub fn one_based(a: &Desc) -> Desc { let mut d = a.clone(); d.zbased = false; d }

/// longest text worth building
pub fn cap(d: &Desc) -> u128 { if d.len == 1 && !d.zero { 700 } else { u128::MAX } }
