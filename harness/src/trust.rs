//! The contracts that `spec/prelude.rs` assumes of the standard library, tried on the standard library.
use crate::util::*;
use std::cmp::Ordering;
use std::mem::MaybeUninit;

/// UTF-8 by its definition.
fn utf8(c: u32) -> Vec<u8> {
    match c {
        0..=0x7f => vec![c as u8],
        0x80..=0x7ff => vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8],
        0x800..=0xffff => vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
        _ => vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
    }
}
fn byte_order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() { return if i == b.len() { Ordering::Equal } else { Ordering::Less } }
        if i == b.len() { return Ordering::Greater }
        if a[i] < b[i] { return Ordering::Less }
        if a[i] > b[i] { return Ordering::Greater }
        i += 1;
    }
}

pub fn run(seed: u64) -> String {
    let mut rng = Rng(seed);
    let mut done: Vec<(&str, u64)> = vec![];
    let mut bad: Vec<String> = vec![];
    macro_rules! check { ($what:expr, $n:ident => $body:block) => { {
        let mut $n = 0u64;
        let ok: Result<(), String> = (|| { $body; Ok(()) })();
        if let Err(e) = ok { bad.push(format!("{}: {e}", $what)); }
        done.push(($what, $n));
    } } }
    macro_rules! must { ($n:ident, $c:expr, $($f:tt)*) => { { $n += 1; if !$c { return Err(format!($($f)*)); } } } }

    check!("char::encode_utf8, str::from_utf8_unchecked and String::insert(0), every character", n => {
        for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
            let want = utf8(c as u32);
            let mut buf = [0xaau8; 4];
            c.encode_utf8(&mut buf);
            must!(n, buf[..want.len()] == want[..] && buf[want.len()..].iter().all(|b| *b == 0xaa) && c.len_utf8() == want.len(), "{c:?}");
            let s = unsafe { std::str::from_utf8_unchecked(&want) };
            must!(n, s.chars().eq([c]), "{c:?} decoded");
            let mut t = String::from("x");
            t.insert(0, c);
            must!(n, t.as_bytes()[..want.len()] == want[..] && t.len() == want.len() + 1, "{c:?} inserted");
        }
    });
    check!("order, concatenation, conversions and mutable views of strings", n => {
        for _ in 0..30_000 {
            let a = rng.text(7);
            let b = match rng.below(3) { 0 => rng.text(7), 1 => format!("{a}{}", rng.text(2)), _ => a.chars().take(rng.below(5)).chain(rng.text(2).chars()).collect() };
            let bytes: Vec<u8> = a.chars().flat_map(|c| utf8(c as u32)).collect();
            must!(n, a.as_bytes() == bytes && a.len() <= isize::MAX as usize, "bytes of {a:?}");
            must!(n, a.as_str().cmp(&b) == byte_order(a.as_bytes(), b.as_bytes()), "{a:?} {b:?}");
            must!(n, a.as_str().partial_cmp(b.as_str()) == Some(byte_order(a.as_bytes(), b.as_bytes())), "{a:?} {b:?}");
            must!(n, (a.as_bytes() == b.as_bytes()) == (byte_order(a.as_bytes(), b.as_bytes()) == Ordering::Equal), "{a:?} {b:?}");
            must!(n, (a.as_str() == b.as_str()) == (a.as_bytes() == b.as_bytes()), "{a:?} {b:?}");
            let mut c = String::from(a.as_str());
            must!(n, c == a && String::with_capacity(a.len()).is_empty(), "{a:?}");
            let upper: String = a.chars().map(|c| if c.is_ascii() { c.to_ascii_uppercase() } else { c }).collect();
            c.as_mut_str().make_ascii_uppercase();
            must!(n, c == upper, "as_mut_str of {a:?}");
            let mut v = bytes.clone();
            unsafe { std::str::from_utf8_unchecked_mut(&mut v) }.make_ascii_uppercase();
            must!(n, v == upper.as_bytes() && v.len() == bytes.len(), "from_utf8_unchecked_mut of {a:?}");
        }
    });
    check!("slice::copy_within on possibly uninitialised bytes, every range and target", n => {
        for lo in 0..=62usize { for hi in lo..=62 { for dest in 0..=62 - (hi - lo) {
            let mut b: [MaybeUninit<u8>; 62] = std::array::from_fn(|i| MaybeUninit::new(i as u8));
            b.copy_within(lo..hi, dest);
            let ok = (0..62).all(|i| unsafe { b[i].assume_init() } as usize == if i >= dest && i < dest + (hi - lo) { i - dest + lo } else { i });
            must!(n, ok, "{lo}..{hi} to {dest}");
        } } }
    });
    check!("raw pointers: as_ptr, cast, add, copy_from, from_raw_parts(_mut), every offset and length", n => {
        let src: [u8; 62] = std::array::from_fn(|i| 100 + i as u8);
        for off in 0..=62usize { for len in 0..=62 - off { for from in [0, 1, (62 - len) / 2, 62 - len] { if from + len <= 62 {
            let mut b: [MaybeUninit<u8>; 62] = std::array::from_fn(|i| MaybeUninit::new(i as u8));
            unsafe { b.as_mut_ptr().cast::<u8>().add(off).copy_from(src.as_ptr().add(from), len) };
            let all = unsafe { std::slice::from_raw_parts(b.as_ptr().cast::<u8>(), 62) };
            must!(n, (0..62).all(|i| all[i] == if i >= off && i < off + len { src[i - off + from] } else { i as u8 }), "{off} {len} {from}");
            let part = unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr().cast::<u8>().add(off), len) };
            must!(n, part == &src[from..from + len], "{off} {len} {from}");
            for p in part.iter_mut() { *p = 7; }
            must!(n, (0..62).all(|i| unsafe { b[i].assume_init() } == if i >= off && i < off + len { 7 } else { i as u8 }), "{off} {len} written");
            if len < 62 { b[len].write(9); must!(n, unsafe { b[len].assume_init() } == 9, "write"); }
        } } } }
    });
    check!("u128::pow", n => {
        for b in 0..2000u128 {
            let mut p = Some(1u128);
            for e in 0..130u32 { if let Some(x) = p { must!(n, b.pow(e) == x, "{b}^{e}"); } p = p.and_then(|x| x.checked_mul(b)); }
        }
    });
    check!("conversions between integer types, Option::flatten and copied, usize::from(bool), arrays", n => {
        for _ in 0..20_000 {
            let x = rng.u128() >> rng.below(128);
            macro_rules! pair { ($($s:ty => $($t:ty),*;)*) => { $( { let y = x as $s; $( {
                must!(n, <$t>::try_from(y) == Ok(<$t>::from(y)) && <$t>::from(y) as u128 == y as u128, "{y}");
            } )* must!(n, <$s>::from(y) == y, "{y}"); } )* } }
            pair! { u8 => u8, u16, u32, u64, u128, usize; u16 => u16, u32, u64, u128, usize; u32 => u32, u64, u128; u64 => u64, u128; u128 => u128; usize => usize; }
            macro_rules! narrow { ($($t:ty),*) => { $(
                must!(n, <$t>::try_from(x).ok() == (x <= <$t>::MAX as u128).then(|| x as $t), "{x}");
                must!(n, usize::try_from(x as $t).ok() == ((x as $t) as u128 <= usize::MAX as u128).then(|| x as $t as usize), "{x}");
            )* } }
            narrow!(u8, u16, u32, u64, u128, usize);
            let o = [None, Some(None), Some(Some(x))][rng.below(3)];
            must!(n, o.flatten() == match o { Some(x) => x, None => None }, "{o:?}");
            must!(n, Some(&x).copied() == Some(x) && None::<&u128>.copied().is_none(), "{x}");
            let a: [u128; 3] = vec![x, x ^ 1, 5].try_into().unwrap();
            must!(n, a == [x, x ^ 1, 5], "{x}");
        }
        must!(n, usize::from(true) == 1 && usize::from(false) == 0, "bool");
    });
    check!("as_ref of Box, Rc and Arc", n => {
        let (b, r, a) = (Box::new(5), std::rc::Rc::new(5), std::sync::Arc::new(5));
        must!(n, std::ptr::eq(b.as_ref(), &*b) && std::ptr::eq(r.as_ref(), &*r) && std::ptr::eq(a.as_ref(), &*a), "target");
    });
    let done: Vec<String> = done.iter().map(|(w, n)| format!("{}: {n}", json(w))).collect();
    format!("{{\"tried\": {{{}}}, \"failed\": [{}]}}", done.join(", "), bad.iter().map(|b| json(b)).collect::<Vec<_>>().join(", "))
}
