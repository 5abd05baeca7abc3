//! Histories of operations on nominal strings.
use crate::util::*;
use nominals::*;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum Op { Push(char), Str(String), Front(char), Upper, Clone, IntoString }

struct Model { text: String, inline: bool }

fn start(kind: usize, text: &str, ch: char) -> (String, NominalString, Model) {
    let m = |t: &str, i: bool| Model { text: t.to_string(), inline: i };
    match kind {
        0 => ("new()".into(), NominalString::new(), m("", true)),
        1 => ("new_reverse()".into(), NominalString::new_reverse(), m("", true)),
        2 => ("default()".into(), NominalString::default(), m("", true)),
        3 => (format!("from({ch:?})"), NominalString::from(ch), m(&ch.to_string(), true)),
        #[cfg(feature = "alloc")]
        5 => (format!("from(String {text:?})"), NominalString::from(text.to_string()), m(text, false)),
        #[cfg(feature = "alloc")]
        6 => (format!("from(&String {text:?})"), NominalString::from(&text.to_string()), m(text, text.len() <= 62)),
        _ => {
            let mut t = text.to_string();
            while !ALLOC && t.len() > 62 { t.pop(); }
            (format!("from({t:?})"), NominalString::from(t.as_str()), m(&t, t.len() <= 62))
        }
    }
}

/// Applies one operation to the string and to the model; returns what is wrong.
fn apply(s: NominalString, m: &mut Model, op: &Op) -> Result<NominalString, String> {
    let mut s = s;
    let (want, res) = match op {
        Op::Push(c) => (format!("{}{c}", m.text), Some(s.try_push(*c))),
        Op::Str(x) => (format!("{}{x}", m.text), Some(s.try_push_str(x))),
        Op::Front(c) => (format!("{c}{}", m.text), Some(s.try_push_front(*c))),
        Op::Upper => { s.make_ascii_uppercase(); (m.text.to_ascii_uppercase(), None) }
        Op::Clone => {
            #[cfg(feature = "alloc")]
            {
                let t = s.clone();
                if t != s || t.is_inline() != s.is_inline() { return Err("a clone differs".into()) }
                s = t;
            }
            (m.text.clone(), None)
        }
        Op::IntoString => {
            #[cfg(feature = "alloc")]
            {
                let owned = String::from(s.clone());
                if owned != m.text { return Err(format!("String::from gives {owned:?}")) }
                match s.try_into_string() {
                    Ok(x) if !m.inline && x == m.text => s = NominalString::from(x),
                    Err(e) if m.inline => s = e,
                    Ok(x) => return Err(format!("try_into_string gives Ok({x:?})")),
                    Err(_) => return Err("try_into_string gives an error for a heap string".into()),
                }
            }
            (m.text.clone(), None)
        }
    };
    if let Some(r) = res {
        let fits = want.len() <= 62;
        match r {
            Ok(()) if ALLOC || fits => { m.text = want; m.inline = m.inline && fits }
            Ok(()) => return Err("succeeded although the text does not fit".into()),
            Err(_) if !ALLOC && !fits => {}
            Err(_) => return Err("failed although there is room".into()),
        }
    } else { m.text = want }
    Ok(s)
}

fn look(s: &NominalString, m: &Model) -> Option<String> {
    let b = s.as_bytes();
    if b != m.text.as_bytes() { return Some(format!("text is {:02x?}, expected {:02x?} ({:?})", b, m.text.as_bytes(), m.text)) }
    if &**s != m.text.as_str() || s.len() != m.text.len() { return Some("the str view differs".into()) }
    if s.is_inline() != m.inline { return Some(format!("is_inline() is {}", s.is_inline())) }
    None
}

fn compare(a: &NominalString, b: &NominalString, x: &str, y: &str, rng: &mut Rng) -> Option<String> {
    if (a == b) != (x == y) || (a != b) != (x != y) { return Some(format!("== is {}", a == b)) }
    if a.cmp(b) != x.cmp(y) || a.partial_cmp(b) != Some(x.cmp(y)) { return Some(format!("cmp is {:?}", a.cmp(b))) }
    if (a < b) != (x < y) || (a <= b) != (x <= y) || (a > b) != (x > y) || (a >= b) != (x >= y) { return Some("comparison operators disagree with the text".into()) }
    if (*a == *y) != (x == y) || (*a == y) != (x == y) { return Some("== str disagrees with the text".into()) }
    if a.partial_cmp(y) != Some(x.cmp(y)) || (*a < *y) != (x < y) { return Some(format!("partial_cmp(str) is {:?}", a.partial_cmp(y))) }
    #[cfg(feature = "alloc")]
    {
        let yo = y.to_string();
        if (*a == yo) != (x == y) { return Some("== String disagrees with the text".into()) }
        if a.partial_cmp(&yo) != Some(x.cmp(y)) { return Some("partial_cmp(String) disagrees with the text".into()) }
    }
    if a.to_string() != x { return Some(format!("displays as {:?}", a.to_string())) }
    let w = rng.below(90);
    let p = rng.below(20);
    let (mut l, mut r) = (String::new(), String::new());
    let _ = write!(l, "{a:w$}|{a:>w$}|{a:*^w$}|{a:.p$}|{a:#<w$.p$}|");
    let _ = write!(r, "{x:w$}|{x:>w$}|{x:*^w$}|{x:.p$}|{x:#<w$.p$}|");
    if l != r { return Some(format!("displays as {l:?}, expected {r:?}")) }
    None
}

fn build(kind: usize, text: &str, ch: char, ops: &[Op]) -> Result<(NominalString, Model), String> {
    let (_, mut s, mut m) = start(kind, text, ch);
    if let Some(w) = look(&s, &m) { return Err(format!("after construction: {w}")) }
    for (i, op) in ops.iter().enumerate() {
        s = apply(s, &mut m, op).map_err(|w| format!("operation {i} ({op:?}): {w}"))?;
        if let Some(w) = look(&s, &m) { return Err(format!("after operation {i} ({op:?}): {w}")) }
    }
    Ok((s, m))
}

fn history(cx: &mut Cx, prop: &str, kind: usize, text: &str, ch: char, ops: &[Op]) -> Option<(NominalString, Model)> {
    let case = || if cfg!(miri) { brief(kind, text, ch, ops) } else { format!("NominalString::{} then {ops:?} [{}]", start_name(kind, text, ch), if ALLOC { "alloc" } else { "no alloc" }) };
    let r = cx.guard(case, || build(kind, text, ch, ops));
    let out = match r {
        Ok(Ok(x)) => Some(x),
        Ok(Err(w)) => { cx.fail(case(), w); None }
        Err(p) => { cx.fail(case(), format!("panicked: {p}")); None }
    };
    let _ = prop;
    if cfg!(miri) { return out }
    let key = hash(&format!("{kind}{text}{ch}{ops:?}"), 0);
    cx.seen(key, ops.len() > 1);
    cx.sample(|| format!("{} -> {:?}", case(), out.as_ref().map(|o| &o.1.text)));
    out
}
/// The case without the escapes of `{:?}`, which take an interpreter long.
fn brief(kind: usize, text: &str, ch: char, ops: &[Op]) -> String {
    let mut o = String::from(match kind { 0 => "new()", 1 => "new_reverse()", 2 => "default()", 3 => "from char ", 5 => "from String ", 6 => "from &String ", _ => "from " });
    if kind == 3 { o.push(ch) } else if kind > 3 { o.push_str(text) }
    for op in ops {
        match op {
            Op::Push(c) => { o.push_str(", push "); o.push(*c) }
            Op::Front(c) => { o.push_str(", front "); o.push(*c) }
            Op::Str(s) => { o.push_str(", str "); o.push_str(s) }
            Op::Upper => o.push_str(", upper"), Op::Clone => o.push_str(", clone"), Op::IntoString => o.push_str(", into string"),
        }
    }
    o
}
fn start_name(kind: usize, text: &str, ch: char) -> String {
    match kind { 0 => "new()".into(), 1 => "new_reverse()".into(), 2 => "default()".into(), 3 => format!("from({ch:?})"),
        5 => format!("from(String {text:?})"), 6 => format!("from(&String {text:?})"), _ => format!("from({text:?})") }
}

fn random_ops(rng: &mut Rng, n: usize) -> Vec<Op> {
    let ascii = rng.chance(4);
    let mut v = vec![];
    for _ in 0..n {
        let c = if ascii { 'a' } else { rng.ch() };
        v.push(match rng.below(9) {
            0..=2 => Op::Push(c), 3..=5 => Op::Front(c),
            6 => Op::Str(match rng.below(5) { 0 => String::new(), 1 => rng.text(30), _ => rng.text(3) }),
            7 => match rng.below(3) { 0 => Op::Upper, 1 => Op::Clone, _ => Op::IntoString },
            _ => Op::Push(c),
        });
    }
    v
}

/// a text of exactly n bytes
fn sized(rng: &mut Rng, n: usize) -> String {
    let mut t = String::new();
    while t.len() < n {
        let c = rng.ch();
        if t.len() + c.len_utf8() <= n { t.push(c) } else { t.push('z') }
    }
    t
}

pub fn run(prop: &str, cx: &mut Cx) {
    // every pair of operations on every length around the boundary, in both layouts
    let chars = ['a', '\0', 'é', '第', '😀'];
    for len in (0..=6).chain(50..=70) {
        for kind in [1, 0, 4, 5, 6] {
            let t = sized(&mut cx.rng, len);
            let mut prefix = vec![];
            if kind < 2 {
                // reach the length by pushes at both ends
                let cut = t.char_indices().map(|x| x.0).chain([t.len()]).nth(cx.rng.below(t.chars().count() + 1)).unwrap();
                for c in t[..cut].chars().rev() { prefix.push(Op::Front(c)) }
                if cx.rng.chance(2) { prefix.push(Op::Str(t[cut..].to_string())) } else { for c in t[cut..].chars() { prefix.push(Op::Push(c)) } }
            }
            for c in chars {
                for second in 0..6 {
                    for first in 0..3 {
                        // interpreted runs are slow: a sample of these
                        if cfg!(miri) && !cx.rng.chance(40) { continue }
                        let op = |k: usize, c: char| match k { 0 => Op::Push(c), 1 => Op::Front(c), 2 => Op::Str(format!("{c}{c}")), 3 => Op::Upper, 4 => Op::IntoString, _ => Op::Clone };
                        let mut ops = prefix.clone();
                        ops.push(op(first, c));
                        ops.push(op(second, chars[cx.rng.below(5)]));
                        ops.push(op(first, 'q'));
                        history(cx, prop, kind, &t, c, &ops);
                        if cx.failed() { return }
                    }
                }
            }
        }
    }
    let mut pool: Vec<(NominalString, Model)> = vec![];
    for i in 0..cx.scale(60_000, 1_500_000) {
        let n = match cx.rng.below(4) { 0 => cx.rng.below(4), 1 => cx.rng.below(80), _ => cx.rng.below(25) };
        let ops = random_ops(&mut cx.rng, n);
        let t = match cx.rng.below(4) { 0 => { let n = 56 + cx.rng.below(12); sized(&mut cx.rng, n) } 1 => { let n = cx.rng.below(320); sized(&mut cx.rng, n) } _ => cx.rng.text(20) };
        let c = cx.rng.ch();
        let kind = if i % 3 == 0 { 1 } else { cx.rng.below(7) };
        let got = history(cx, prop, kind, &t, c, &ops);
        if cx.failed() { return }
        if prop == "C03" {
            let Some((s, m)) = got else { return };
            // against itself in another layout, a near miss, and an earlier one
            let mut others: Vec<(NominalString, String)> = vec![];
            let mut r = NominalString::new_reverse();
            if ALLOC || m.text.len() <= 62 {
                for c in m.text.chars().rev() { let _ = r.try_push_front(c); }
                others.push((r, m.text.clone()));
            }
            let mut near = m.text.clone();
            match cx.rng.below(3) { 0 => { near.pop(); } 1 => if near.len() < 62 { near.push('a') }, _ => near = near.replacen('a', "b", 1) }
            if ALLOC || near.len() <= 62 { others.push((NominalString::from(near.as_str()), near)) }
            #[cfg(feature = "alloc")]
            others.push((NominalString::from(m.text.clone()), m.text.clone()));
            if let Some((s, m)) = pool.pop() { others.push((s, m.text)) }
            for (o, ot) in others {
                let case = || format!("{:?} ({}) against {:?} ({})", m.text, if m.inline { "inline" } else { "heap" }, ot, if o.is_inline() { "inline" } else { "heap" });
                let mut rng = Rng(cx.rng.next());
                match cx.guard(case, || compare(&s, &o, &m.text, &ot, &mut rng).or_else(|| compare(&o, &s, &ot, &m.text, &mut rng))) {
                    Ok(None) => {}
                    Ok(Some(w)) => cx.fail(case(), w),
                    Err(p) => cx.fail(case(), format!("panicked: {p}")),
                }
            }
            if cx.failed() { return }
            pool.push((s, m));
        }
    }
}
