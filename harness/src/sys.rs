//! Systems under test, callable for every integer type.
use crate::util::*;
use nominals::*;

pub const TYPES: [(&str, u128); 6] = [("u8", u8::MAX as u128), ("u16", u16::MAX as u128), ("u32", u32::MAX as u128),
    ("u64", u64::MAX as u128), ("u128", u128::MAX), ("usize", usize::MAX as u128)];

/// Everything the caller sees of one formatting.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Out { pub res: Res, pub carried: Option<u128> }

pub trait Sys {
    fn name(&self) -> String;
    /// largest nominal whose text is worth building
    fn cap(&self) -> u128;
    fn expect(&self, n: u128) -> Res;
    /// with the allocation feature off, the text that is pending when the error is noticed
    fn partial(&self, _n: u128) -> usize { 0 }
    /// how many steps formatting takes, if that is worth knowing
    fn work(&self, _n: u128) -> usize { 0 }
    fn eval(&self, ty: usize, n: u128) -> Out;
    fn infallible(&self, ty: usize, n: u128) -> String;
    /// other ways to ask for the same; Err for the infallible ones
    fn routes(&self, ty: usize, n: u128) -> Vec<(&'static str, Result<Out, String>)>;
}

pub fn out<T: TryInto<u128>>(r: Result<NominalString, Error<T>>) -> Out {
    let c = |t: T| t.try_into().ok();
    match r {
        Ok(s) => Out { res: Res::Text(s.to_string()), carried: None },
        Err(Error::NoZeroSymbol) => Out { res: Res::NoZero, carried: None },
        Err(Error::OutOfBounds(t)) => Out { res: Res::Oob, carried: c(t) },
        Err(Error::OutOfMemory(t)) => Out { res: Res::Oom, carried: c(t) },
        Err(_) => Out { res: Res::Oob, carried: None },
    }
}

pub struct S {
    pub name: String, pub cap: u128, pub oracle: Box<dyn Fn(u128) -> Res>, pub partial: Option<Box<dyn Fn(u128) -> (usize, usize)>>,
    pub b: Six<Holder<u8>, Holder<u16>, Holder<u32>, Holder<u64>, Holder<u128>, Holder<usize>>,
}
pub struct Six<A, B, C, D, E, F>(pub A, pub B, pub C, pub D, pub E, pub F);

/// One system behind each kind of pointer.
pub struct Holder<T> { pub b: Box<dyn NominalSystem<T>>, pub r: std::rc::Rc<dyn NominalSystem<T>>, pub a: std::sync::Arc<dyn NominalSystem<T>> }
/// A sized system that only forwards.
struct W<'a, T>(&'a dyn NominalSystem<T>);
impl<T: Nominal> NominalSystem<T> for W<'_, T> {
    fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> { self.0.try_format_nominal(n) }
}
pub fn six<D>(f: &dyn Fn() -> D) -> Six<Holder<u8>, Holder<u16>, Holder<u32>, Holder<u64>, Holder<u128>, Holder<usize>>
where D: NominalSystem<u8> + NominalSystem<u16> + NominalSystem<u32> + NominalSystem<u64> + NominalSystem<u128> + NominalSystem<usize> + 'static
{
    macro_rules! h { () => { Holder { b: Box::new(f()), r: std::rc::Rc::new(f()), a: std::sync::Arc::new(f()) } } }
    Six(h!(), h!(), h!(), h!(), h!(), h!())
}

macro_rules! by_type {
    ($s:expr, $ty:expr, $n:expr, $x:ident, $h:ident => $e:expr) => {
        match $ty {
            0 => { let $h = &$s.b.0; let $x = $n as u8; $e } 1 => { let $h = &$s.b.1; let $x = $n as u16; $e }
            2 => { let $h = &$s.b.2; let $x = $n as u32; $e } 3 => { let $h = &$s.b.3; let $x = $n as u64; $e }
            4 => { let $h = &$s.b.4; let $x = $n as u128; $e } _ => { let $h = &$s.b.5; let $x = $n as usize; $e }
        }
    };
}

fn out_us(o: Result<NominalString, Error<usize>>) -> Out { out_conv(o, |x| x as u128) }
fn out_conv<T>(r: Result<NominalString, Error<T>>, f: impl Fn(T) -> u128) -> Out {
    match r {
        Ok(s) => Out { res: Res::Text(s.to_string()), carried: None },
        Err(Error::NoZeroSymbol) => Out { res: Res::NoZero, carried: None },
        Err(Error::OutOfBounds(t)) => Out { res: Res::Oob, carried: Some(f(t)) },
        Err(Error::OutOfMemory(t)) => Out { res: Res::Oom, carried: Some(f(t)) },
        Err(_) => Out { res: Res::Oob, carried: None },
    }
}
trait Conv: Sized { fn conv(r: Result<NominalString, Error<Self>>) -> Out; }
macro_rules! conv { ($($t:ty),*) => { $(impl Conv for $t { fn conv(r: Result<NominalString, Error<Self>>) -> Out { out(r) } })* } }
conv!(u8, u16, u32, u64, u128);
impl Conv for usize { fn conv(r: Result<NominalString, Error<Self>>) -> Out { out_us(r) } }
fn cv<T: Conv>(r: Result<NominalString, Error<T>>) -> Out { T::conv(r) }

impl Sys for S {
    fn name(&self) -> String { self.name.clone() }
    fn cap(&self) -> u128 { self.cap }
    fn expect(&self, n: u128) -> Res { (self.oracle)(n) }
    fn partial(&self, n: u128) -> usize { self.partial.as_ref().map_or(0, |p| p(n).0) }
    fn work(&self, n: u128) -> usize { self.partial.as_ref().map_or(0, |p| p(n).1) }
    fn eval(&self, ty: usize, n: u128) -> Out {
        by_type!(self, ty, n, x, h => cv((*h.b).try_format_nominal(x)))
    }
    fn infallible(&self, ty: usize, n: u128) -> String {
        by_type!(self, ty, n, x, h => (*h.b).format_nominal(x).to_string())
    }
    fn routes(&self, ty: usize, n: u128) -> Vec<(&'static str, Result<Out, String>)> {
        by_type!(self, ty, n, x, h => {
            let d = &*h.b;
            let w = W(d);
            let mut v = vec![
                ("try_to_nominal", Ok(cv(x.try_to_nominal(d)))),
                ("to_nominal", Err(x.to_nominal(&w).to_string())),
                ("try_to_nominal of a sized system", Ok(cv(x.try_to_nominal(&w)))),
                ("unwrap_or_decimal", Err(d.try_format_nominal(x).unwrap_or_decimal().to_string())),
            ];
            #[allow(unused_mut)]
            let mut _w = &mut v;
            #[cfg(feature = "alloc")]
            {
                _w.push(("Box try_format_nominal", Ok(cv(NominalSystem::try_format_nominal(&h.b, x)))));
                _w.push(("Rc try_format_nominal", Ok(cv(NominalSystem::try_format_nominal(&h.r, x)))));
                _w.push(("Arc try_format_nominal", Ok(cv(NominalSystem::try_format_nominal(&h.a, x)))));
                _w.push(("Box format_nominal", Err(NominalSystem::format_nominal(&h.b, x).to_string())));
                _w.push(("Rc format_nominal", Err(NominalSystem::format_nominal(&h.r, x).to_string())));
                _w.push(("Arc format_nominal", Err(NominalSystem::format_nominal(&h.a, x).to_string())));
                _w.push(("Box try_to_nominal", Ok(cv(x.try_to_nominal(&h.b)))));
                _w.push(("Rc to_nominal", Err(x.to_nominal(&h.r).to_string())));
                _w.push(("Arc to_nominal", Err(x.to_nominal(&h.a).to_string())));
            }
            v.push(("format_nominal behind Rc", Err((*h.r).format_nominal(x).to_string())));
            v.push(("format_nominal behind Arc", Err((*h.a).format_nominal(x).to_string())));
            v
        })
    }
}

/// Compares one formatting with what it has to be.
pub fn check_one(cx: &mut Cx, s: &dyn Sys, ty: usize, n: u128) {
    let (tn, _) = TYPES[ty];
    let case = || format!("{}.try_format_nominal({n}_{tn}) [{}]", s.name(), if ALLOC { "alloc" } else { "no alloc" });
    let got = match cx.guard(case, || s.eval(ty, n)) {
        Ok(o) => o,
        Err(p) => { cx.fail(case(), format!("panicked: {p}")); return }
    };
    let want = s.expect(n);
    let mut ok = vec![want.clone()];
    if !ALLOC {
        match &want {
            Res::Text(t) if t.len() > 62 => ok = vec![Res::Oom],
            Res::Oob if s.partial(n) > 62 => ok.push(Res::Oom),
            _ => {}
        }
    }
    if !ok.contains(&got.res) {
        cx.fail(case(), format!("got {:?}, expected {:?}", got.res, ok[0]));
    } else if matches!(got.res, Res::Oob | Res::Oom) && got.carried != Some(n) {
        cx.fail(case(), format!("the error carries {:?}", got.carried));
    }
    let key = hash(&s.name(), n);
    cx.seen(key, n > 0);
    cx.sample(|| format!("{} = {:?}", case(), got.res));
}
