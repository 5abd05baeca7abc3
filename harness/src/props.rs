use crate::coll::{self, *};
use crate::oracle::{self, *};
use crate::sys::*;
use crate::util::*;
use nominals::*;

type B = Box<dyn Sys>;

fn mk<D, M, O>(name: &str, cap: u128, make: M, oracle: O) -> B
where D: NominalSystem<u8> + NominalSystem<u16> + NominalSystem<u32> + NominalSystem<u64> + NominalSystem<u128> + NominalSystem<usize> + 'static,
    M: Fn() -> D + 'static, O: Fn(u128) -> Res + 'static
{
    Box::new(S { name: name.to_string(), cap, b: six(&make), oracle: Box::new(oracle), partial: None })
}
fn mkp<D, M, O>(name: &str, cap: u128, make: M, oracle: O, partial: impl Fn(u128) -> (usize, usize) + 'static) -> B
where D: NominalSystem<u8> + NominalSystem<u16> + NominalSystem<u32> + NominalSystem<u64> + NominalSystem<u128> + NominalSystem<usize> + 'static,
    M: Fn() -> D + 'static, O: Fn(u128) -> Res + 'static
{
    Box::new(S { name: name.to_string(), cap, b: six(&make), oracle: Box::new(oracle), partial: Some(Box::new(partial)) })
}

fn coll_sys<D: DigitCollection + Clone + 'static>(name: String, d: D, desc: Desc) -> B {
    let c = coll::cap(&desc);
    mk(&name, c, move || d.clone(), move |n| desc.format(n))
}

// ---- the built-in systems -------------------------------------------------------------------------

fn digit_tables() -> Vec<(String, Desc, u8)> {
    let mut v = vec![];
    for (n, s) in crate::tables::NUMERIC { v.push((n.to_string(), Desc::of(s, true, true, false, None), 0)) }
    for (n, s) in crate::tables::ALPHABETIC { v.push((n.to_string(), Desc::of(s, false, true, false, None), 1)) }
    let cjk = Desc::of("〇一二三四五六七八九", true, true, false, None);
    for (n, s) in crate::tables::FIXED { v.push((n.to_string(), Desc::of(s, false, false, true, Some(cjk.clone())), 2)) }
    v
}

fn digit_systems(kind: Option<u8>) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    macro_rules! one { ($n:ident) => {
        let (name, desc, k) = digit_tables().into_iter().find(|t| t.0 == stringify!($n)).unwrap();
        if kind.map_or(true, |x| x == k) {
            let d2 = desc.clone();
            v.push(mk(&name, u128::MAX, || $n, move |n| d2.format(n)));
            let d3 = coll::one_based(&desc);
            v.push(mk(&format!("{name}.one_based()"), u128::MAX, || $n.one_based(), move |n| d3.format(n)));
        }
    } }
    crate::tables::each_digit_system!(one);
    if kind.map_or(true, |x| x == 0) {
        let d = |n: &str| digit_tables().into_iter().find(|t| t.0 == n).unwrap().1;
        let (a, b) = (d("Persian"), d("Cambodian"));
        v.push(mk("Urdu", u128::MAX, || Urdu, move |n| a.format(n)));
        v.push(mk("Khmer", u128::MAX, || Khmer, move |n| b.format(n)));
    }
    v
}

/// digit sets with const parameters
fn digit_sets(zero: bool) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    macro_rules! sets { ($($n:expr),*) => { $( {
        let arr = || { let mut a = ['?'; $n]; for i in 0..$n { a[i] = sym(0x4e00, i); } a };
        let s: String = arr().iter().collect();
        if zero {
            let d = Desc::of(&s, true, true, false, None);
            let o = coll::one_based(&d);
            let c = coll::cap(&d);
            v.push(mk(&format!("DigitSet::<{}>::new", $n), c, move || DigitSet::<$n, true>::new(arr()), move |n| d.format(n)));
            v.push(mk(&format!("OneBased(DigitSet::<{}>::new)", $n), c, move || OneBased::new(DigitSet::<$n, true>::new(arr())), move |n| o.format(n)));
        } else {
            let d = Desc::of(&s, false, true, false, None);
            let o = coll::one_based(&d);
            let c = coll::cap(&d);
            v.push(mk(&format!("DigitSet::<{}>::zeroless", $n), c, move || DigitSet::<$n, false>::zeroless(arr()), move |n| d.format(n)));
            v.push(mk(&format!("OneBased(DigitSet::<{}>::zeroless)", $n), c, move || OneBased::new(DigitSet::<$n, false>::zeroless(arr())), move |n| o.format(n)));
        }
    } )* } }
    sets!(0, 1, 2, 3, 7, 16, 60, 255, 256, 257, 1000);
    v
}

fn random_colls(rng: &mut Rng, count: usize, fixed: Option<bool>, zero: Option<bool>) -> Vec<B> {
    let mut v = vec![];
    macro_rules! one { ($f:ty) => { {
        let mut d = Dyn::<$f>::random(rng, fixed);
        if let Some(z) = zero { d.zero = z; }
        let desc = d.desc();
        v.push(coll_sys(format!("{d:?}"), d, desc));
    } } }
    for i in 0..count {
        match i % 6 { 0 => one!(NoFallback), 1 => one!(Decimal), 2 => one!(FbA), 3 => one!(FbB), 4 => one!(FbC), _ => one!(FbD) }
    }
    v
}

fn compositions(rng: &mut Rng, count: usize) -> Vec<B> {
    let mut v = vec![];
    for i in 0..count {
        let mut a = Dyn::<FbA>::random(rng, None);
        a.len = a.len.min(1 << 62);
        let mut b = Dyn::<FbC>::random(rng, None);
        if b.len > 1 << 40 { b.len = 5 }
        let k = match rng.below(5) { 0 => rng.below(4), 1 => a.len, 2 => a.len.saturating_add(1 + rng.below(9)), 3 => usize::MAX, _ => rng.below(a.len.min(90) + 3) };
        let (da, db) = (a.desc(), b.desc());
        let nm = |s: &str| s.replace("$K", &k.to_string()).replace("$A", &format!("{a:?}")).replace("$B", &format!("{b:?}"));
        let (a1, b1) = (a.clone(), b.clone());
        v.push(match i % 12 {
            0 => coll_sys(nm("Chain::new($A, $B)"), Chain::new(a1, b1), coll::chain(&da, &db)),
            1 => coll_sys(nm("$A.and($B)"), a1.and(b1), coll::chain(&da, &db)),
            2 => coll_sys(nm("Restrict::new($K, $A)"), Restrict::new(k, a1), coll::restrict(k, &da)),
            3 => coll_sys(nm("$A.one_based()"), a1.one_based(), coll::one_based(&da)),
            4 => coll_sys(nm("OneBased::new($A)"), OneBased::new(a1), coll::one_based(&da)),
            5 => coll_sys(nm("Restrict::new($K, Chain::new($A, $B))"), Restrict::new(k, Chain::new(a1, b1)), coll::restrict(k, &coll::chain(&da, &db))),
            6 => coll_sys(nm("Restrict::new($K, $A).one_based()"), Restrict::new(k, a1).one_based(), coll::one_based(&coll::restrict(k, &da))),
            7 => coll_sys(nm("Restrict::new($K, $A.one_based())"), Restrict::new(k, a1.one_based()), coll::restrict(k, &coll::one_based(&da))),
            8 => coll_sys(nm("Restrict::new($K, $A).and($B)"), Restrict::new(k, a1).and(b1), coll::chain(&coll::restrict(k, &da), &db)),
            9 => coll_sys(nm("$A.one_based().and($B)"), a1.one_based().and(b1), coll::chain(&coll::one_based(&da), &db)),
            10 => coll_sys(nm("$A.and($B.one_based()).one_based()"), a1.and(b1.one_based()).one_based(), coll::one_based(&coll::chain(&da, &db))),
            _ => coll_sys(nm("Restrict::new($K, Restrict::new(7, $A))"), Restrict::new(k, Restrict::new(7, a1)), coll::restrict(k, &coll::restrict(7, &da))),
        });
    }
    v
}

fn additive_cap(top: u128) -> u128 { if ALLOC { top.saturating_mul(600) } else { u128::MAX } }

fn roman() -> Vec<B> {
    let c = additive_cap(1_000_000);
    vec![mk("RomanUpper", c, || RomanUpper, |n| oracle::roman(n, true)), mk("RomanLower", c, || RomanLower, |n| oracle::roman(n, false))]
}
fn letters() -> Vec<B> {
    let c = additive_cap(10_000);
    vec![mk("ArmenianUpper", c, || ArmenianUpper, |n| armenian(n, true)), mk("ArmenianLower", c, || ArmenianLower, |n| armenian(n, false)),
         mk("Georgian", c, || Georgian, georgian)]
}
fn markers() -> Vec<B> {
    let c = additive_cap(9000);
    vec![mk("JapaneseFormal", c, || JapaneseFormal, |n| japanese_korean(n, &JA_FORMAL)),
         mk("JapaneseInformal", c, || JapaneseInformal, |n| japanese_korean(n, &JA_INFORMAL)),
         mk("HangeulFormal", c, || HangeulFormal, |n| japanese_korean(n, &KO_HANGUL_FORMAL)),
         mk("HanjaInformal", c, || HanjaInformal, |n| japanese_korean(n, &KO_HANJA_INFORMAL)),
         mk("HanjaFormal", c, || HanjaFormal, |n| japanese_korean(n, &KO_HANJA_FORMAL))]
}
fn hebrew_() -> Vec<B> { vec![mk("Hebrew", additive_cap(400), || Hebrew, hebrew)] }
fn ethiopic_() -> Vec<B> { vec![mk("Ethiopic", u128::MAX, || Ethiopic, ethiopic)] }
fn enumerated() -> Vec<B> {
    let mut v = vec![mk("CircledNumber", u128::MAX, || CircledNumber, circled), mk("DoubleCircledNumber", u128::MAX, || DoubleCircledNumber, double_circled)];
    macro_rules! sets { ($($n:expr),*) => { $( {
        let arr = || { let mut a = [""; $n]; for i in 0..$n { a[i] = WORDS[i % WORDS.len()]; } a };
        v.push(mk(&format!("EnumeratedSet::<{}>::new", $n), u128::MAX, move || EnumeratedSet::<$n, true>::new(arr()),
            |n| if n < $n { Res::Text(WORDS[n as usize % WORDS.len()].to_string()) } else { Res::Oob }));
        v.push(mk(&format!("EnumeratedSet::<{}>::zeroless", $n), u128::MAX, move || EnumeratedSet::<$n, false>::zeroless(arr()),
            |n| if n == 0 { Res::NoZero } else if n <= $n { Res::Text(WORDS[(n - 1) as usize % WORDS.len()].to_string()) } else { Res::Oob }));
    } )* } }
    sets!(0, 1, 2, 5, 12, 255, 256, 257, 300);
    v
}
pub const WORDS: [&str; 13] = ["first", "second", "", "q", "ß", "第三", "😀", "a longer symbol with several words in it, still less than 62", "x",
    "sixty-two bytes of text, which is exactly what fits inline: 62", "and one more than that: sixty-three bytes of text, on the heap!", "n", "t"];

fn chinese(scales: &[Scale]) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    macro_rules! one { ($t:ident, $trad:expr, $formal:expr) => {
        for financial in [false, true] { for &scale in scales {
            let z = Zh { traditional: $trad, formal: $formal, financial, scale };
            let make = move || { let mut s = $t::default(); if financial { s = s.financial() }
                match scale { Scale::Short => s.short_scale(), Scale::Myriad => s, Scale::Mid => s.mid_scale(), Scale::Long => s.long_scale() } };
            let name = format!("{}::default(){}{}", stringify!($t), if financial { ".financial()" } else { "" },
                match scale { Scale::Short => ".short_scale()", Scale::Myriad => "", Scale::Mid => ".mid_scale()", Scale::Long => ".long_scale()" });
            v.push(mk(&name, u128::MAX, make, move |n| z.format(n)));
        } }
    } }
    one!(SimplifiedChineseInformal, false, false);
    one!(SimplifiedChineseFormal, false, true);
    one!(TraditionalChineseInformal, true, false);
    one!(TraditionalChineseFormal, true, true);
    v
}
const ALL: [Scale; 4] = [Scale::Short, Scale::Myriad, Scale::Mid, Scale::Long];

fn intern(pool: usize) -> &'static str { ["I", "V", "xx", "ßß", "第", "😀!", "long-symbol", "·", "M̅", "ab", "Z", "k", "w", "é"][pool % 14] }

/// the symbols of a set: mostly different, now and then the same twice or nothing at all
fn symbols(rng: &mut Rng, syms: &mut [(&'static str, u128)]) {
    for i in 0..syms.len() {
        syms[i].0 = match rng.below(16) { 0 | 1 => "", 2 if i > 0 => syms[i - 1].0, _ => intern(i + rng.below(3)) };
    }
}

/// additive sets with descending values, well formed or not expressing everything
fn additive_sets(rng: &mut Rng, count: usize) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    macro_rules! one { ($n:expr) => { {
        let mut vals = std::collections::BTreeSet::new();
        let big = rng.below(5);
        while vals.len() < $n {
            vals.insert(match (big, rng.below(6)) { (_, 0) => 0u128, (_, 1) => 1, (0, 2) => rng.u128() >> rng.below(127), (1, 2) => [256u128, 65536, 1 << 32, 1 << 64, u128::MAX, 255, 65535][rng.below(7)],
                (2, _) => rng.below(40) as u128, _ => rng.below(2000) as u128 });
        }
        if rng.chance(2) { vals.remove(&0); while vals.len() < $n { vals.insert(1 + rng.below(100) as u128); } }
        let mut syms: Vec<(&'static str, u128)> = vals.into_iter().rev().map(|x| (intern(rng.below(14)), x)).collect();
        symbols(rng, &mut syms);
        let arr: [(&'static str, u128); $n] = syms.clone().try_into().unwrap();
        let (s1, s2) = (syms.clone(), syms.clone());
        let cap = syms.first().map_or(u128::MAX, |s| if s.1 == 0 { u128::MAX } else { additive_cap(s.1) });
        v.push(mkp(&format!("AdditiveSet::new({syms:?})"), cap, move || AdditiveSet::new(arr), move |n| greedy(&s1, n), move |n| (greedy_size(&s2, n), greedy_work(&s2, n))));
    } } }
    for i in 0..count {
        match i % 7 { 0 => one!(0), 1 => one!(1), 2 => one!(2), 3 => one!(3), 4 => one!(4), 5 => one!(6), _ => one!(9) }
    }
    v
}

/// creation of additive sets, well formed or not
fn additive_new(cx: &mut Cx) {
    fn one<const N: usize>(cx: &mut Cx) {
        let mut vals = [0u128; N];
        for x in &mut vals { *x = match cx.rng.below(4) { 0 => cx.rng.u128() >> cx.rng.below(128), _ => cx.rng.below(6) as u128 }; }
        match cx.rng.below(4) {
            0 => {} // as drawn
            1 | 2 => { vals.sort_unstable(); vals.reverse(); if cx.rng.chance(2) && N > 1 { let i = cx.rng.below(N); let j = cx.rng.below(N); vals.swap(i, j); } }
            _ => { let mut x = 0; for v in vals.iter_mut().rev() { *v = x; x += 1 + cx.rng.below(9) as u128; } if cx.rng.chance(2) { for v in &mut vals { *v += 1; } }
                   if N > 1 && cx.rng.chance(2) { let i = cx.rng.below(N - 1); vals[i] = vals[i + 1] - cx.rng.below(2).min(vals[i + 1] as usize) as u128; } }
        }
        let arr: [(&'static str, u128); N] = std::array::from_fn(|i| (intern(i), vals[i]));
        let descending = vals.windows(2).all(|w| w[0] > w[1]);
        let case = || format!("AdditiveSet::new({arr:?})");
        match cx.guard(case, || AdditiveSet::new(arr)) {
            Ok(set) => {
                if !descending { cx.fail(case(), "accepted although the values are not strictly descending".into()); return }
                let want = match arr.last() { Some((z, 0)) => Res::Text(z.to_string()), _ => Res::NoZero };
                let case = || format!("AdditiveSet::new({arr:?}).try_format_nominal(0)");
                match cx.guard(case, || out(set.try_format_nominal(0u32))) {
                    Ok(o) if o.res == want => {}
                    Ok(o) => cx.fail(case(), format!("got {:?}, expected {:?}", o.res, want)),
                    Err(p) => cx.fail(case(), format!("panicked: {p}")),
                }
            }
            Err(p) => if descending { cx.fail(case(), format!("rejected although the values are strictly descending: {p}")) },
        }
        let h = vals.iter().fold(N as u128, |a, v| a.wrapping_mul(0x1_0000_01b3).wrapping_add(*v));
        cx.seen(hash("new", h), N > 1);
        cx.sample(|| format!("AdditiveSet::new({arr:?}) {}", if descending { "accepted" } else { "rejected" }));
    }
    for _ in 0..cx.scale(4000, 60_000) {
        one::<0>(cx); one::<1>(cx); one::<2>(cx); one::<3>(cx); one::<4>(cx); one::<7>(cx); one::<26>(cx);
        if cx.failed() { return }
    }
}

// ---- drivers ---------------------------------------------------------------------------------------

fn sweep(cx: &mut Cx, systems: &[B], dense: u128, random: usize) {
    sweep_from(cx, systems, 0, u128::MAX, dense, random)
}
fn sweep_from(cx: &mut Cx, systems: &[B], lo: u128, hi: u128, dense: u128, random: usize) {
    for s in systems {
        for n in values(&mut cx.rng, s.cap().min(hi), dense, random) {
            if n < lo { continue }
            for ty in 0..6 {
                // the dense range need not be repeated for every type
                if n > TYPES[ty].1 || (n > 1000 && n < dense && ty != 1 && ty != 4 && n % 7 != ty as u128) { continue }
                if s.work(n) > 2000 { continue }
                check_one(cx, s.as_ref(), ty, n);
                if cx.failed() { return }
            }
        }
    }
}

fn everything(cx: &mut Cx, random: usize) -> Vec<B> {
    let mut v = digit_systems(None);
    v.extend(digit_sets(true));
    v.extend(digit_sets(false));
    v.extend(roman()); v.extend(letters()); v.extend(markers()); v.extend(hebrew_()); v.extend(ethiopic_()); v.extend(enumerated());
    v.extend(chinese(&ALL));
    v.extend(random_colls(&mut cx.rng, random, None, None));
    v.extend(compositions(&mut cx.rng, random));
    v.extend(additive_sets(&mut cx.rng, random));
    v
}

fn infallible(cx: &mut Cx) {
    let n = cx.scale(60, 600);
    let systems = everything(cx, n);
    for s in &systems {
        let k = cx.scale(20, 400);
        for n in values(&mut cx.rng, s.cap(), 60, k).into_iter().enumerate().filter(|(i, n)| *n < 60 || i % 5 == 0).map(|x| x.1) {
            if s.work(n) > 2000 { continue }
            for ty in 0..6 {
                if n > TYPES[ty].1 { continue }
                let t = TYPES[ty].0;
                let case = || format!("{}.format_nominal({n}_{t}) [{}]", s.name(), if ALLOC { "alloc" } else { "no alloc" });
                let r = cx.guard(case, || {
                    let direct = s.eval(ty, n);
                    let dec = if direct.res == Res::NoZero { "0".to_string() } else { n.to_string() };
                    let want = match &direct.res { Res::Text(t) => t.clone(), _ => dec };
                    let got = s.infallible(ty, n);
                    if got != want { return Some(format!("got {got:?}, expected {want:?}")) }
                    if matches!(direct.res, Res::Oob | Res::Oom) && direct.carried != Some(n) { return Some(format!("the error carries {:?}", direct.carried)) }
                    for (route, r) in s.routes(ty, n) {
                        match r {
                            Ok(o) if o != direct => return Some(format!("{route} gives {o:?}, a direct call {direct:?}")),
                            Err(x) if x != want => return Some(format!("{route} gives {x:?}, expected {want:?}")),
                            _ => {}
                        }
                    }
                    None
                });
                match r {
                    Ok(None) => {}
                    Ok(Some(w)) => cx.fail(case(), w),
                    Err(p) => cx.fail(case(), format!("panicked: {p}")),
                }
                cx.seen(hash(&s.name(), n), n > 0);
                cx.sample(|| format!("{} = {:?}", case(), s.infallible(ty, n)));
                if cx.failed() { return }
            }
        }
    }
    // the conversions on their own
    for n in values(&mut cx.rng, u128::MAX, 300, 300) {
        macro_rules! t { ($($t:ty),*) => { $( if n <= <$t>::MAX as u128 {
            let x = n as $t;
            for e in [Error::OutOfBounds(x), Error::OutOfMemory(x), Error::NoZeroSymbol] {
                let want = if e == Error::NoZeroSymbol { "0".to_string() } else { n.to_string() };
                let case = || format!("{e:?}.into_decimal()");
                match cx.guard(case, || (e.into_decimal().to_string(), Err::<NominalString, _>(e).unwrap_or_decimal().to_string())) {
                    Ok((a, b)) if a == want && b == want => {}
                    Ok(g) => cx.fail(case(), format!("got {g:?}, expected {want:?}")),
                    Err(p) => cx.fail(case(), format!("panicked: {p}")),
                }
            }
            let w: Result<(), Error<$t>> = Err(OutOfMemoryError).with_nominal(x);
            if w != Err(Error::OutOfMemory(x)) { cx.fail(format!("Err(OutOfMemoryError).with_nominal({x})"), format!("got {w:?}")); }
            let w: Result<u8, Error<$t>> = Ok(7).with_nominal(x);
            if w != Ok(7) { cx.fail(format!("Ok(7).with_nominal({x})"), format!("got {w:?}")); }
        } )* } }
        t!(u8, u16, u32, u64, u128, usize);
        if cx.failed() { return }
    }
}

fn widths(cx: &mut Cx) {
    let n = cx.scale(80, 2500);
    let systems = everything(cx, n);
    for s in &systems {
        let k = cx.scale(60, 1500);
        for n in values(&mut cx.rng, s.cap(), 300, k) {
            if s.work(n) > 2000 { continue }
            let case = |ty: usize| format!("{}.try_format_nominal({n}) as {} and as u128", s.name(), TYPES[ty].0);
            let wide = match cx.guard(|| case(4), || s.eval(4, n)) { Ok(o) => o, Err(p) => { cx.fail(case(4), format!("panicked: {p}")); return } };
            for ty in [0, 1, 2, 3, 5] {
                if n > TYPES[ty].1 { continue }
                match cx.guard(|| case(ty), || s.eval(ty, n)) {
                    Ok(o) if o == wide => {}
                    Ok(o) => cx.fail(case(ty), format!("got {:?} and {:?}", o.res, wide.res)),
                    Err(p) => cx.fail(case(ty), format!("panicked: {p}")),
                }
            }
            cx.seen(hash(&s.name(), n), n > 0);
            cx.sample(|| format!("{} = {:?} in every type", case(0), wide.res));
            if cx.failed() { return }
        }
    }
}

pub fn run(prop: &str, cx: &mut Cx) {
    let t = cx.thorough;
    let dense = |q, th| if t { th } else { q };
    match prop {
        "C01" | "C02" | "C03" | "C04" => crate::nstr::run(prop, cx),
        "C05" => {
            let mut v = digit_systems(Some(0));
            v.extend(digit_sets(true));
            v.extend(random_colls(&mut cx.rng, dense(90, 2000), Some(false), Some(true)));
            sweep(cx, &v, dense(700, 20_000) as u128, dense(400, 4000));
        }
        "C06" => {
            let mut v = digit_systems(Some(1));
            v.extend(digit_sets(false));
            v.extend(random_colls(&mut cx.rng, dense(90, 2000), Some(false), Some(false)));
            sweep(cx, &v, dense(700, 20_000) as u128, dense(400, 4000));
        }
        "C07" => {
            let mut v = digit_systems(Some(2));
            v.extend(random_colls(&mut cx.rng, dense(250, 4000), Some(true), None));
            sweep(cx, &v, dense(400, 20_000) as u128, dense(200, 2000));
        }
        "C08" => {
            let mut v = compositions(&mut cx.rng, dense(240, 8000));
            v.extend(digit_systems(Some(0)).into_iter().filter(|s| s.name().starts_with("Hex")));
            sweep(cx, &v, dense(300, 5000) as u128, dense(150, 1500));
        }
        "C09" => { let v = digit_systems(None); sweep(cx, &v, dense(5000, 70_000) as u128, dense(300, 5000)) }
        "C10" => {
            let mut v = additive_sets(&mut cx.rng, dense(140, 6000));
            v.extend(roman()); v.extend(letters()); v.extend(markers());
            sweep(cx, &v, dense(300, 4000) as u128, dense(100, 1500));
        }
        "C11" => additive_new(cx),
        "C12" => { let v = roman(); sweep(cx, &v, dense(20_000, 300_000) as u128, dense(1500, 10_000)) }
        "C13" => { let v = letters(); sweep(cx, &v, dense(20_100, 60_000) as u128, dense(1500, 10_000)) }
        "C14" => { let v = markers(); sweep(cx, &v, dense(10_100, 60_000) as u128, dense(1500, 10_000)) }
        "C15" => { let v = hebrew_(); sweep(cx, &v, dense(20_000, 66_000) as u128, dense(3000, 20_000)) }
        "C16" => { let v = ethiopic_(); sweep(cx, &v, dense(66_000, 2_000_000) as u128, dense(20_000, 400_000)) }
        "C17" => { let v = chinese(&ALL); sweep_from(cx, &v, 0, 9999, 9999, 0) }
        "C18" => { let v = chinese(&[Scale::Myriad, Scale::Mid, Scale::Long]); sweep_from(cx, &v, 10_000, u128::MAX, dense(12_000, 200_000) as u128, dense(3000, 60_000)) }
        "C19" => {
            let v = chinese(&[Scale::Short]);
            sweep_from(cx, &v, 10_000, u128::MAX, dense(20_000, 300_000) as u128, dense(3000, 60_000));
            sweep_from(cx, &v, 10_000, 10u128.pow(15) + 5, 10_000, dense(3000, 60_000));
        }
        "C20" => { let v = enumerated(); sweep(cx, &v, dense(5000, 70_000) as u128, dense(500, 5000)) }
        "C21" => infallible(cx),
        "C22" => widths(cx),
        "C23" | "C24" => {
            let n = dense(60, 3000);
            let v = everything(cx, n);
            sweep(cx, &v, dense(270, 3000) as u128, dense(40, 1000));
            if prop == "C24" && !cx.failed() { infallible(cx) }
        }
        _ => panic!("unknown property"),
    }
}
