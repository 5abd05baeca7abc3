//! What each system has to write, stated from its description and not from the crate.
use crate::util::Res;

/// more repetitions than any text that is compared has
const MANY: u128 = if crate::util::ALLOC { 4000 } else { 100 };

fn text(s: String) -> Res { Res::Text(s) }

// ---- digit collections ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct Desc {
    pub len: u128,
    pub digit: std::rc::Rc<dyn Fn(u128) -> char>,
    pub zero: bool,
    pub zbased: bool,
    pub fixed: bool,
    pub fallback: Option<Box<Desc>>,
}

impl Desc {
    pub fn of(digits: &str, zero: bool, zbased: bool, fixed: bool, fallback: Option<Desc>) -> Desc {
        let d: Vec<char> = digits.chars().collect();
        Desc { len: d.len() as u128, digit: std::rc::Rc::new(move |i| d[i as usize]), zero, zbased, fixed, fallback: fallback.map(Box::new) }
    }
    pub fn format(&self, n: u128) -> Res {
        let counts_from_zero = self.zero || self.zbased;
        if self.fixed && (n > self.len || counts_from_zero && n == self.len) {
            return match &self.fallback {
                Some(f) if f.len > 0 => f.format(n),
                _ => Res::Oob,
            };
        }
        if self.len == 0 || self.len == 1 && self.zero && n != 0 { return Res::Oob }
        let mut o = vec![];
        let mut r = n;
        if self.zero {
            loop { o.push((self.digit)(r % self.len)); r /= self.len; if r == 0 { break } }
        } else {
            // the (n+1)-th, or n-th, string by length and then symbol order
            if !self.zbased && n == 0 { return Res::NoZero }
            let mut first = self.zbased;
            while r > 0 || first {
                // position r counts from 1, except that the very first step of a zero-based
                // collection counts from 0
                let k = if first { r } else { r - 1 };
                first = false;
                o.push((self.digit)(k % self.len));
                r = k / self.len;
            }
        }
        o.reverse();
        text(o.into_iter().collect())
    }
}

// ---- additive ---------------------------------------------------------------------------------------

pub fn greedy(symbols: &[(&str, u128)], n: u128) -> Res {
    if n == 0 {
        return match symbols.last() { Some((z, 0)) => text(z.to_string()), _ => Res::NoZero };
    }
    if !crate::util::ALLOC && greedy_size(symbols, n) > 200 {
        // only its length matters
        let rest = symbols.iter().filter(|s| s.1 > 0).fold(n, |r, s| r % s.1);
        return if rest == 0 { text("x".repeat(200)) } else { Res::Oob };
    }
    let (s, rest) = greedy_partial(symbols, n);
    if rest == 0 { text(s) } else { Res::Oob }
}
pub fn greedy_partial(symbols: &[(&str, u128)], n: u128) -> (String, u128) {
    let (mut o, mut r) = (String::new(), n);
    for (s, v) in symbols {
        if *v == 0 { break }
        for _ in 0..(r / v).min(MANY * 50) { o.push_str(s); }
        r %= v;
    }
    (o, r)
}
/// bytes of the text that is written before the end is reached
pub fn greedy_size(symbols: &[(&str, u128)], n: u128) -> usize {
    let (mut o, mut r) = (0u128, n);
    for (s, v) in symbols {
        if *v == 0 { break }
        o = o.saturating_add((r / v).saturating_mul(s.len() as u128));
        r %= v;
    }
    o.min(1 << 40) as usize
}
/// how many symbols are pushed before the end, or before the text no longer fits
pub fn greedy_work(symbols: &[(&str, u128)], n: u128) -> usize {
    let (mut work, mut size, mut r) = (0u128, 0u128, n);
    for (s, v) in symbols {
        if *v == 0 { break }
        let (k, l) = (r / v, s.len() as u128);
        let room = if crate::util::ALLOC || l == 0 { u128::MAX } else { (62 - size) / l };
        work = work.saturating_add(k.min(room));
        if k > room { break }
        size = size.saturating_add(k.saturating_mul(l));
        r %= v;
    }
    work.min(1 << 40) as usize
}

pub fn roman(n: u128, upper: bool) -> Res {
    let mut o = String::new();
    if n == 0 { o.push('N'); }
    let ov = |s: &str| s.chars().flat_map(|c| [c, '\u{305}']).collect::<String>();
    for _ in 0..(n / 1_000_000).min(MANY) { o += &ov("M"); }
    let digit = |d: u128, i: &str, v: &str, x: &str| match d {
        0 => String::new(), 1..=3 => i.repeat(d as usize), 4 => format!("{i}{v}"),
        5..=8 => format!("{v}{}", i.repeat(d as usize - 5)), _ => format!("{i}{x}"),
    };
    let r = n % 1_000_000;
    o += &ov(&digit(r / 100_000, "C", "D", "M"));
    o += &ov(&digit(r / 10_000 % 10, "X", "L", "C"));
    let t = r / 1000 % 10;
    o += &match t { 1..=3 => "M".repeat(t as usize), 4 => ov("IV"), 5..=8 => ov("V") + &"M".repeat(t as usize - 5), 9 => ov("IX"), _ => String::new() };
    o += &digit(r / 100 % 10, "C", "D", "M");
    o += &digit(r / 10 % 10, "X", "L", "C");
    o += &digit(r % 10, "I", "V", "X");
    text(if upper { o } else { o.to_lowercase() })
}

/// one letter per decimal place; `letters[9 * place + digit - 1]`
fn letters_by_place(n: u128, letters: &[char], top: u128) -> Res {
    if n == 0 { return Res::NoZero }
    let mut o = String::new();
    let mut r = n;
    // values above the largest letter repeat it
    for _ in 0..(r / top).min(MANY) { o.push(letters[letters.len() - 1]); }
    r %= top;
    for place in (0..4).rev() {
        let d = r / 10u128.pow(place) % 10;
        if d > 0 { o.push(letters[(9 * place as u128 + d - 1) as usize]); }
    }
    text(o)
}
pub fn armenian(n: u128, upper: bool) -> Res {
    // the 36 letters of the alphabet in order
    let base = if upper { 0x531 } else { 0x561 };
    let l: Vec<char> = (0..36).map(|i| char::from_u32(base + i).unwrap()).collect();
    letters_by_place(n, &l, 9000)
}
pub const GEORGIAN: &str = "აბგდევზჱთიკლმნჲოპჟრსტჳფქღყშჩცძწჭხჴჯჰჵ";
pub fn georgian(n: u128) -> Res {
    let l: Vec<char> = GEORGIAN.chars().collect();
    letters_by_place(n, &l, 10_000)
}

pub struct Markers { pub digits: &'static str, pub thousand: char, pub hundred: char, pub ten: char, pub formal: bool }
pub const JA_FORMAL: Markers = Markers { digits: "零壱弐参四伍六七八九", thousand: '阡', hundred: '百', ten: '拾', formal: true };
pub const JA_INFORMAL: Markers = Markers { digits: "〇一二三四五六七八九", thousand: '千', hundred: '百', ten: '十', formal: false };
pub const KO_HANGUL_FORMAL: Markers = Markers { digits: "영일이삼사오육칠팔구", thousand: '천', hundred: '백', ten: '십', formal: true };
pub const KO_HANJA_INFORMAL: Markers = Markers { digits: "零一二三四五六七八九", thousand: '千', hundred: '百', ten: '十', formal: false };
pub const KO_HANJA_FORMAL: Markers = Markers { digits: "零壹貳參四五六七八九", thousand: '仟', hundred: '百', ten: '拾', formal: true };
pub fn japanese_korean(n: u128, m: &Markers) -> Res {
    let d: Vec<char> = m.digits.chars().collect();
    if n == 0 { return text(d[0].to_string()) }
    let mut o = String::new();
    let mut r = n;
    while r >= 9000 { // repeats the 9,000 group
        if o.len() > 8 * MANY as usize { break }
        o.push(d[9]); o.push(m.thousand); r -= 9000;
    }
    for (v, c) in [(1000, Some(m.thousand)), (100, Some(m.hundred)), (10, Some(m.ten)), (1, None)] {
        let k = r / v % 10;
        if k == 0 { continue }
        if c.is_none() || m.formal || k != 1 { o.push(d[k as usize]); }
        o.extend(c);
    }
    text(o)
}

// ---- Hebrew, Ethiopic -------------------------------------------------------------------------------

pub fn hebrew(n: u128) -> Res {
    if n == 0 { return Res::NoZero }
    let mut o = String::new();
    for _ in 0..(n / 400).min(MANY) { o.push('ת'); }
    let r = n % 400;
    if r >= 100 { o.push(['ק', 'ר', 'ש'][(r / 100 - 1) as usize]); }
    match r % 100 {
        15 => o += "ט\u{5f4}ו",
        16 => o += "ט\u{5f4}ז",
        t => {
            if t >= 10 { o.push(['י', 'כ', 'ל', 'מ', 'נ', 'ס', 'ע', 'פ', 'צ'][(t / 10 - 1) as usize]); }
            if t % 10 > 0 { o.push(['א', 'ב', 'ג', 'ד', 'ה', 'ו', 'ז', 'ח', 'ט'][(t % 10 - 1) as usize]); }
        }
    }
    if o.chars().count() == 1 { o = format!("\u{5f3}{o}\u{5f4}"); }
    text(o)
}

pub fn ethiopic(n: u128) -> Res {
    if n == 0 { return Res::NoZero }
    let mut groups = vec![];
    let mut r = n;
    while r > 0 { groups.push((r % 100) as u32); r /= 100; }
    let mut o = String::new();
    for i in (0..groups.len()).rev() {
        let g = groups[i];
        let dropped = g == 0 || g == 1 && i > 0 && (i % 2 == 1 || i == groups.len() - 1);
        if !dropped {
            if g / 10 > 0 { o.push(char::from_u32(0x1371 + g / 10).unwrap()); }
            if g % 10 > 0 { o.push(char::from_u32(0x1368 + g % 10).unwrap()); }
        }
        if i % 2 == 1 && g != 0 { o.push('\u{137B}'); }
        if i % 2 == 0 && i > 0 { o.push('\u{137C}'); }
    }
    text(o)
}

// ---- Chinese ----------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scale { Short, Myriad, Mid, Long }
#[derive(Clone, Copy, Debug)]
pub struct Zh { pub traditional: bool, pub financial: bool, pub formal: bool, pub scale: Scale }

impl Zh {
    pub fn chars(&self) -> (Vec<char>, Vec<char>) {
        let c = match (self.traditional, self.financial) {
            (_, false) => "零一二三四五六七八九十百千",
            (false, true) => "零壹贰叁肆伍陆柒捌玖拾佰仟",
            (true, true) => "零壹貳參肆伍陸柒捌玖拾佰仟",
        };
        let l = if self.traditional { "萬億兆京垓秭穰溝澗正載" } else { "万亿兆京垓秭穰沟涧正载" };
        (c.chars().collect(), l.chars().collect())
    }
    pub fn format(&self, n: u128) -> Res {
        let (c, l) = self.chars();
        if n == 0 { return text(c[0].to_string()) }
        if self.scale == Scale::Short && n >= 10u128.pow(15) { return Res::Oob }
        let mut m = vec![(1, c[10]), (2, c[11]), (3, c[12])];
        m.extend(match self.scale {
            Scale::Short => (4..=14).map(|e| (e, l[e as usize - 4])).collect(),
            Scale::Myriad => (1..=9).map(|i| (4 * i, l[i as usize - 1])).collect(),
            Scale::Mid => vec![(4, l[0]), (8, l[1]), (16, l[2]), (24, l[3]), (32, l[4])],
            Scale::Long => vec![(4, l[0]), (8, l[1]), (16, l[2]), (32, l[3])],
        });
        let mut o = String::new();
        self.write(n, &c, &m, &mut o);
        text(o)
    }
    fn write(&self, n: u128, c: &[char], m: &[(u32, char)], o: &mut String) {
        let Some(&(e, mark)) = m.iter().rev().find(|x| 10u128.pow(x.0) <= n) else {
            o.push(c[n as usize]);
            return;
        };
        let (high, rest) = (n / 10u128.pow(e), n % 10u128.pow(e));
        if !(o.is_empty() && e == 1 && high == 1 && !self.formal) { self.write(high, c, m, o); }
        o.push(mark);
        if rest > 0 {
            if rest < 10u128.pow(e - 1) { o.push(c[0]); }
            self.write(rest, c, m, o);
        }
    }
}

// ---- enumerated ---------------------------------------------------------------------------------------

pub fn circled(n: u128) -> Res {
    let c = match n { 0 => 0x24EA, 1..=20 => 0x245F + n, 21..=35 => 0x3251 + n - 21, 36..=50 => 0x32B1 + n - 36, _ => return Res::Oob };
    text(char::from_u32(c as u32).unwrap().to_string())
}
pub fn double_circled(n: u128) -> Res {
    match n { 0 => Res::NoZero, 1..=10 => text(char::from_u32(0x24F4 + n as u32).unwrap().to_string()), _ => Res::Oob }
}
