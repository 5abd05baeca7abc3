//@ const chinese::*_SCALE
//@ spec
    ensures forall|i: int| 0 <= i < $Name@.len() ==> #[trigger] $Name@[i] == scale_$Name()[i],
//@ start
    proof { pow10_values(); }
//@ mod chinese
    pub proof fn pow10_values()
        ensures
            ipow(10, 4) == 10000, ipow(10, 5) == 100000, ipow(10, 6) == 1000000, ipow(10, 7) == 10000000,
            ipow(10, 8) == 100000000, ipow(10, 9) == 1000000000, ipow(10, 10) == 10000000000, ipow(10, 11) == 100000000000,
            ipow(10, 12) == 1000000000000, ipow(10, 13) == 10000000000000, ipow(10, 14) == 100000000000000,
            ipow(10, 16) == 10000000000000000, ipow(10, 20) == 100000000000000000000, ipow(10, 24) == 1000000000000000000000000,
            ipow(10, 28) == 10000000000000000000000000000, ipow(10, 32) == 100000000000000000000000000000000,
            ipow(10, 36) == 1000000000000000000000000000000000000,
            ipow(2, 0) == 1, ipow(2, 1) == 2, ipow(2, 2) == 4, ipow(2, 3) == 8,
    {
        assert(ipow(10, 4) == 10000) by(compute);
        assert(ipow(10, 5) == 100000) by(compute);
        assert(ipow(10, 6) == 1000000) by(compute);
        assert(ipow(10, 7) == 10000000) by(compute);
        assert(ipow(10, 8) == 100000000) by(compute);
        assert(ipow(10, 9) == 1000000000) by(compute);
        assert(ipow(10, 10) == 10000000000) by(compute);
        assert(ipow(10, 11) == 100000000000) by(compute);
        assert(ipow(10, 12) == 1000000000000) by(compute);
        assert(ipow(10, 13) == 10000000000000) by(compute);
        assert(ipow(10, 14) == 100000000000000) by(compute);
        assert(ipow(10, 16) == 10000000000000000) by(compute);
        assert(ipow(10, 20) == 100000000000000000000) by(compute);
        assert(ipow(10, 24) == 1000000000000000000000000) by(compute);
        assert(ipow(10, 28) == 10000000000000000000000000000) by(compute);
        assert(ipow(10, 32) == 100000000000000000000000000000000) by(compute);
        assert(ipow(10, 36) == 1000000000000000000000000000000000000) by(compute);
        assert(ipow(2, 0) == 1 && ipow(2, 1) == 2 && ipow(2, 2) == 4 && ipow(2, 3) == 8) by(compute);
    }
    // ---- characters
    pub open spec fn cn_digits(traditional: bool, financial: bool) -> Seq<char> {
        if financial {
            if traditional { seq!['\u{96F6}', '\u{58F9}', '\u{8CB3}', '\u{53C3}', '\u{8086}', '\u{4F0D}', '\u{9678}', '\u{67D2}', '\u{634C}', '\u{7396}', '\u{62FE}', '\u{4F70}', '\u{4EDF}'] } else { seq!['\u{96F6}', '\u{58F9}', '\u{8D30}', '\u{53C1}', '\u{8086}', '\u{4F0D}', '\u{9646}', '\u{67D2}', '\u{634C}', '\u{7396}', '\u{62FE}', '\u{4F70}', '\u{4EDF}'] }
        } else {
            seq!['\u{96F6}', '\u{4E00}', '\u{4E8C}', '\u{4E09}', '\u{56DB}', '\u{4E94}', '\u{516D}', '\u{4E03}', '\u{516B}', '\u{4E5D}', '\u{5341}', '\u{767E}', '\u{5343}']
        }
    }
    pub open spec fn cn_large(traditional: bool) -> Seq<char> {
        if traditional { seq!['\u{842C}', '\u{5104}', '\u{5146}', '\u{4EAC}', '\u{5793}', '\u{79ED}', '\u{7A70}', '\u{6E9D}', '\u{6F97}', '\u{6B63}', '\u{8F09}'] } else { seq!['\u{4E07}', '\u{4EBF}', '\u{5146}', '\u{4EAC}', '\u{5793}', '\u{79ED}', '\u{7A70}', '\u{6C9F}', '\u{6DA7}', '\u{6B63}', '\u{8F7D}'] }
    }
    /// The characters of a variant: digits and small markers, large markers, what each large marker is worth, and whether a leading ten keeps its digit.
    pub struct Cn { pub ch: Seq<char>, pub lg: Seq<char>, pub sc: Seq<nat>, pub formal: bool }
    pub open spec fn scale_values(s: ChineseScale) -> Seq<nat> {
        match s {
            ChineseScale::Short => seq![10000nat, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000,
                10000000000000, 100000000000000],
            ChineseScale::Myriad => seq![10000nat, 100000000, 1000000000000, 10000000000000000, 100000000000000000000, 1000000000000000000000000,
                10000000000000000000000000000, 100000000000000000000000000000000, 1000000000000000000000000000000000000],
            ChineseScale::Mid => seq![10000nat, 100000000, 10000000000000000, 1000000000000000000000000, 100000000000000000000000000000000],
            ChineseScale::Long => seq![10000nat, 100000000, 10000000000000000, 100000000000000000000000000000000],
        }
    }
    pub open spec fn scale_SHORT_SCALE() -> Seq<nat> { scale_values(ChineseScale::Short) }
    pub open spec fn scale_MYRIAD_SCALE() -> Seq<nat> { scale_values(ChineseScale::Myriad) }
    pub open spec fn scale_MID_SCALE() -> Seq<nat> { scale_values(ChineseScale::Mid) }
    pub open spec fn scale_LONG_SCALE() -> Seq<nat> { scale_values(ChineseScale::Long) }
    // ---- what is written
    pub open spec fn zero_if(ch: Seq<char>, b: bool) -> Seq<char> { if b { seq![ch[0]] } else { Seq::<char>::empty() } }
    /// What follows a marker worth b: nothing, or the rest, after a zero if it is less than a tenth of the marker.
    pub open spec fn small_rest(ch: Seq<char>, formal: bool, r: nat, b: nat) -> Seq<char>
        decreases r, 1nat,
    {
        if r == 0 { Seq::<char>::empty() } else { zero_if(ch, r * 10 < b) + small(ch, formal, r, false) }
    }
    /// Below 10,000; `first` when nothing is written before it.
    pub open spec fn small(ch: Seq<char>, formal: bool, n: nat, first: bool) -> Seq<char>
        decreases n, 0nat,
    {
        if n == 0 { Seq::<char>::empty() }
        else if n < 10 { seq![ch[n as int]] }
        else if n < 100 {
            (if first && n < 20 && !formal { seq![ch[10]] } else { seq![ch[n as int / 10], ch[10]] }) + small_rest(ch, formal, n % 10, 10)
        }
        else if n < 1000 { seq![ch[n as int / 100], ch[11]] + small_rest(ch, formal, n % 100, 100) }
        else { seq![ch[n as int / 1000], ch[12]] + small_rest(ch, formal, n % 1000, 1000) }
    }
    /// The largest marker below position i worth no more than n.
    pub open spec fn top(sc: Seq<nat>, n: nat, i: nat) -> nat
        decreases i,
    {
        if i == 0 { 0 } else if sc[i as int - 1] <= n { (i - 1) as nat } else { top(sc, n, (i - 1) as nat) }
    }
    /// How often the largest marker fits, the marker, and the rest, after a zero if it is less than a tenth of the marker.
    pub open spec fn wr(c: Cn, n: nat, first: bool) -> Seq<char>
        decreases n,
    {
        if n < 10000 { small(c.ch, c.formal, n, first) } else {
            let j = top(c.sc, n, c.sc.len());
            let v = c.sc[j as int];
            // (v is 10,000 or more: both are smaller than n)
            let q: nat = if 0 <= n / v < n { (n / v) as nat } else { 0 };
            let r: nat = if 0 <= n % v < n { (n % v) as nat } else { 0 };
            wr(c, q, first) + (seq![c.lg[j as int]] + (if r == 0 { Seq::<char>::empty() } else { zero_if(c.ch, r * 10 < v) + wr(c, r, false) }))
        }
    }
    pub open spec fn cn_spec(c: Cn, s: ChineseScale, n: nat) -> SRes {
        if n == 0 { SRes::Text(seq![c.ch[0]]) }
        else if s is Short && n >= 1000000000000000 { SRes::Bounds(Seq::<char>::empty()) }
        else { SRes::Text(wr(c, n, true)) }
    }
    /// What a part adds to what is already written: a zero when the place before it is empty and no zero was written for it yet.
    pub open spec fn zero_before(n: nat, b: nat, first: bool, zero: bool) -> bool { !first && !zero && n > 0 && n * 10 < b }
    pub open spec fn part(c: Cn, n: nat, b: nat, first: bool, zero: bool) -> Seq<char> {
        zero_if(c.ch, zero_before(n, b, first, zero)) + wr(c, n, first)
    }
    pub open spec fn small_part(ch: Seq<char>, formal: bool, n: nat, first: bool, zero: bool) -> Seq<char> {
        zero_if(ch, zero_before(n, 10000, first, zero)) + small(ch, formal, n, first)
    }
    pub open spec fn cn(ch: Seq<char>, lg: Seq<char>, sc: Seq<nat>, formal: bool) -> Cn { Cn { ch: ch.subrange(0, 13), lg, sc, formal } }
    // ---- below 10,000
    /// One decimal place after p.
    pub open spec fn st_text(ch: Seq<char>, formal: bool, first: bool, p: Seq<char>, zero: bool, e: int, d: nat, next: nat) -> Seq<char> {
        let begun = p.len() > 0 || !first;
        if d > 0 {
            if e == 0 { p + seq![ch[d as int]] }
            else if e == 1 && !formal && !begun && !zero && d == 1 { p + seq![ch[10]] }
            else { (p + seq![ch[d as int]]) + seq![ch[9 + e]] }
        } else if begun && !zero && next > 0 { p + seq![ch[0]] } else { p }
    }
    pub open spec fn st_zero(first: bool, p: Seq<char>, zero: bool, d: nat, next: nat) -> bool {
        if d > 0 { false } else { zero || (p.len() > 0 || !first) && next > 0 }
    }
    /// p followed by what is still to be written.
    pub open spec fn st_goal(ch: Seq<char>, formal: bool, first: bool, p: Seq<char>, zero: bool, n: nat, b: nat) -> Seq<char> {
        let begun = p.len() > 0 || !first;
        p + (zero_if(ch, begun && !zero && n > 0 && n * 10 < b) + small(ch, formal, n, !begun))
    }
    pub proof fn st_3(ch: Seq<char>, formal: bool, first: bool, p: Seq<char>, zero: bool, n: nat)
        requires n < 10000, !(p.len() > 0 || !first) ==> !zero,
        ensures ({
            let p1 = st_text(ch, formal, first, p, zero, 3, n / 1000, n / 100 % 10);
            let z1 = st_zero(first, p, zero, n / 1000, n / 100 % 10);
            st_goal(ch, formal, first, p, zero, n, 10000) == st_goal(ch, formal, first, p1, z1, n % 1000, 1000) && (!(p1.len() > 0 || !first) ==> !z1)
        }),
    {
        let p1 = st_text(ch, formal, first, p, zero, 3, n / 1000, n / 100 % 10);
        let z1 = st_zero(first, p, zero, n / 1000, n / 100 % 10);
        assert(st_goal(ch, formal, first, p, zero, n, 10000) =~= st_goal(ch, formal, first, p1, z1, n % 1000, 1000));
    }
    pub proof fn st_2(ch: Seq<char>, formal: bool, first: bool, p: Seq<char>, zero: bool, n: nat)
        requires n < 1000, !(p.len() > 0 || !first) ==> !zero,
        ensures ({
            let p1 = st_text(ch, formal, first, p, zero, 2, n / 100, n / 10 % 10);
            let z1 = st_zero(first, p, zero, n / 100, n / 10 % 10);
            st_goal(ch, formal, first, p, zero, n, 1000) == st_goal(ch, formal, first, p1, z1, n % 100, 100) && (!(p1.len() > 0 || !first) ==> !z1)
        }),
    {
        let p1 = st_text(ch, formal, first, p, zero, 2, n / 100, n / 10 % 10);
        let z1 = st_zero(first, p, zero, n / 100, n / 10 % 10);
        assert(st_goal(ch, formal, first, p, zero, n, 1000) =~= st_goal(ch, formal, first, p1, z1, n % 100, 100));
    }
    pub proof fn st_1(ch: Seq<char>, formal: bool, first: bool, p: Seq<char>, zero: bool, n: nat)
        requires n < 100, !(p.len() > 0 || !first) ==> !zero,
        ensures ({
            let p1 = st_text(ch, formal, first, p, zero, 1, n / 10, n / 1 % 10);
            let z1 = st_zero(first, p, zero, n / 10, n / 1 % 10);
            st_goal(ch, formal, first, p, zero, n, 100) == st_goal(ch, formal, first, p1, z1, n % 10, 10) && (!(p1.len() > 0 || !first) ==> !z1)
        }),
    {
        let p1 = st_text(ch, formal, first, p, zero, 1, n / 10, n / 1 % 10);
        let z1 = st_zero(first, p, zero, n / 10, n / 1 % 10);
        assert(st_goal(ch, formal, first, p, zero, n, 100) =~= st_goal(ch, formal, first, p1, z1, n % 10, 10));
    }
    pub proof fn st_0(ch: Seq<char>, formal: bool, first: bool, p: Seq<char>, zero: bool, n: nat)
        requires n < 10, !(p.len() > 0 || !first) ==> !zero,
        ensures ({
            let p1 = st_text(ch, formal, first, p, zero, 0, n / 1, 0);
            let z1 = st_zero(first, p, zero, n / 1, 0);
            st_goal(ch, formal, first, p, zero, n, 10) == st_goal(ch, formal, first, p1, z1, n % 1, 1) && (!(p1.len() > 0 || !first) ==> !z1)
        }),
    {
        let p1 = st_text(ch, formal, first, p, zero, 0, n / 1, 0);
        let z1 = st_zero(first, p, zero, n / 1, 0);
        assert(st_goal(ch, formal, first, p, zero, n, 10) =~= st_goal(ch, formal, first, p1, z1, n % 1, 1));
    }
    pub proof fn small_text(ch: Seq<char>, formal: bool, n: nat, first: bool, zero: bool)
        requires n < 10000, first ==> !zero,
        ensures ({
            let (k, h, t, o) = (n / 10 / 10 / 10, n / 10 / 10 % 10, n / 10 % 10, n % 10);
            let p0 = Seq::<char>::empty();
            let p1 = st_text(ch, formal, first, p0, zero, 3, k, h);
            let z1 = st_zero(first, p0, zero, k, h);
            let p2 = st_text(ch, formal, first, p1, z1, 2, h, t);
            let z2 = st_zero(first, p1, z1, h, t);
            let p3 = st_text(ch, formal, first, p2, z2, 1, t, o);
            let z3 = st_zero(first, p2, z2, t, o);
            let p4 = st_text(ch, formal, first, p3, z3, 0, o, 0);
            let z4 = st_zero(first, p3, z3, o, 0);
            p4 == small_part(ch, formal, n, first, zero) && z4 == (zero && n == 0)
                && p4 == st_text(ch, formal, first, p3, false, 0, o, 0)
        }),
    {
        let (k, h, t, o) = (n / 10 / 10 / 10, n / 10 / 10 % 10, n / 10 % 10, n % 10);
        assert(k == n / 1000 && n % 1000 / 100 == h && n % 1000 % 100 / 10 == t && n % 1000 % 100 % 10 == o && n / 100 % 10 == h);
        assert(n % 1000 / 10 % 10 == t && n % 1000 % 100 / 1 % 10 == o && o / 1 == o && o % 1 == 0);
        let p0 = Seq::<char>::empty();
        let p1 = st_text(ch, formal, first, p0, zero, 3, k, h);
        let z1 = st_zero(first, p0, zero, k, h);
        let p2 = st_text(ch, formal, first, p1, z1, 2, h, t);
        let z2 = st_zero(first, p1, z1, h, t);
        let p3 = st_text(ch, formal, first, p2, z2, 1, t, o);
        let z3 = st_zero(first, p2, z2, t, o);
        let p4 = st_text(ch, formal, first, p3, z3, 0, o, 0);
        st_3(ch, formal, first, p0, zero, n);
        st_2(ch, formal, first, p1, z1, n % 1000);
        st_1(ch, formal, first, p2, z2, n % 1000 % 100);
        st_0(ch, formal, first, p3, z3, o);
        assert(st_goal(ch, formal, first, p0, zero, n, 10000) =~= small_part(ch, formal, n, first, zero));
        assert(st_goal(ch, formal, first, p4, st_zero(first, p3, z3, o, 0), 0, 1) =~= p4);
    }
//@ fn chinese::format_chinese_inner | spinoff
//@ spec
    requires $p1.val() < 10000, $p2 ==> !*old($p3),
    ensures
        r is Ok ==> r->Ok_0.wf() && fits(r->Ok_0@) && r->Ok_0@ == small_part($p0@.subrange(0, 13), FORMAL, $p1.val(), $p2, *old($p3))
            && *final($p3) == (*old($p3) && $p1.val() == 0),
        r is Err ==> !fits(small_part($p0@.subrange(0, 13), FORMAL, $p1.val(), $p2, *old($p3))),
//@ start
    let ghost ch = $p0@.subrange(0, 13);
    let ghost n = $p1.val();
    let ghost k = n / 10 / 10 / 10;
    let ghost h = n / 10 / 10 % 10;
    let ghost t = n / 10 % 10;
    let ghost o = n % 10;
    let ghost z0 = *$p3;
    let ghost p0 = Seq::<char>::empty();
    let ghost p1 = st_text(ch, FORMAL, $p2, p0, z0, 3, k, h);
    let ghost z1 = st_zero($p2, p0, z0, k, h);
    let ghost p2 = st_text(ch, FORMAL, $p2, p1, z1, 2, h, t);
    let ghost z2 = st_zero($p2, p1, z1, h, t);
    let ghost p3 = st_text(ch, FORMAL, $p2, p2, z2, 1, t, o);
    let ghost p4 = st_text(ch, FORMAL, $p2, p3, false, 0, o, 0);
    proof {
        small_text(ch, FORMAL, n, $p2, z0);
        fits_small(p0);
        assert forall|p: Seq<char>, c: char| #[trigger] fits(p + seq![c]) implies fits(p) by { fits_part(p, seq![c]); }
        assert(fits(p4) ==> fits(p3));
        assert(fits(p3) ==> fits(p2));
        assert(fits(p2) ==> fits(p1));
    }
//@ mod chinese
    // ---- the markers of a scale
    pub open spec fn known(sc: Seq<nat>) -> bool {
        sc == scale_values(ChineseScale::Myriad) || sc == scale_values(ChineseScale::Mid) || sc == scale_values(ChineseScale::Long)
    }
    /// Every marker that fits the type, and no other.
    pub open spec fn marks<T: Nominal>(s: Seq<Option<T>>, sc: Seq<nat>) -> bool {
        s.len() == sc.len() && forall|i: int| 0 <= i < s.len() ==> match #[trigger] s[i] { Some(v) => v.val() == sc[i], None => sc[i] > T::maxv() }
    }
    /// What n has to stay below when the marker at `rank` is the next higher one.
    pub open spec fn below(sc: Seq<nat>, rank: int, n: nat) -> bool { rank < sc.len() ==> n < sc[rank] }
    pub open spec fn bound(sc: Seq<nat>, rank: int) -> nat { if rank < sc.len() { sc[rank] } else { 0 } }
    pub open spec fn max_of_type(m: nat) -> bool {
        m == u8::MAX || m == u16::MAX || m == u32::MAX || m == u64::MAX || m == u128::MAX
    }
    /// How many of one marker make the next.
    pub open spec fn factor(s: ChineseScale, r: int) -> nat {
        match s {
            ChineseScale::Short => 10,
            ChineseScale::Myriad => 10000,
            ChineseScale::Mid => if r == 0 { 10000 } else { 100000000 },
            ChineseScale::Long => if r == 0 { 10000 } else if r == 1 { 100000000 } else { 10000000000000000 },
        }
    }
    pub proof fn scale_step(s: ChineseScale, r: int)
        requires 0 <= r, r + 1 < scale_values(s).len(),
        ensures
            scale_values(s)[r + 1] == factor(s, r) * scale_values(s)[r],
            scale_values(s)[r + 1] / scale_values(s)[r] == factor(s, r),
            scale_values(s)[r] >= 10000,
    {
        let sc = scale_values(s);
        match s {
            ChineseScale::Short => {
                if r == 0 { assert(sc[0] == 10000 && sc[1] == 100000); }
                else if r == 1 { assert(sc[1] == 100000 && sc[2] == 1000000); }
                else if r == 2 { assert(sc[2] == 1000000 && sc[3] == 10000000); }
                else if r == 3 { assert(sc[3] == 10000000 && sc[4] == 100000000); }
                else if r == 4 { assert(sc[4] == 100000000 && sc[5] == 1000000000); }
                else if r == 5 { assert(sc[5] == 1000000000 && sc[6] == 10000000000); }
                else if r == 6 { assert(sc[6] == 10000000000 && sc[7] == 100000000000); }
                else if r == 7 { assert(sc[7] == 100000000000 && sc[8] == 1000000000000); }
                else if r == 8 { assert(sc[8] == 1000000000000 && sc[9] == 10000000000000); }
                else if r == 9 { assert(sc[9] == 10000000000000 && sc[10] == 100000000000000); }
            }
            ChineseScale::Myriad => {
                if r == 0 { assert(sc[0] == 10000 && sc[1] == 100000000); }
                else if r == 1 { assert(sc[1] == 100000000 && sc[2] == 1000000000000); }
                else if r == 2 { assert(sc[2] == 1000000000000 && sc[3] == 10000000000000000); }
                else if r == 3 { assert(sc[3] == 10000000000000000 && sc[4] == 100000000000000000000); }
                else if r == 4 { assert(sc[4] == 100000000000000000000 && sc[5] == 1000000000000000000000000); }
                else if r == 5 { assert(sc[5] == 1000000000000000000000000 && sc[6] == 10000000000000000000000000000); }
                else if r == 6 { assert(sc[6] == 10000000000000000000000000000 && sc[7] == 100000000000000000000000000000000); }
                else if r == 7 { assert(sc[7] == 100000000000000000000000000000000 && sc[8] == 1000000000000000000000000000000000000); }
            }
            ChineseScale::Mid => {
                if r == 0 { assert(sc[0] == 10000 && sc[1] == 100000000); }
                else if r == 1 { assert(sc[1] == 100000000 && sc[2] == 10000000000000000); }
                else if r == 2 { assert(sc[2] == 10000000000000000 && sc[3] == 1000000000000000000000000); }
                else if r == 3 { assert(sc[3] == 1000000000000000000000000 && sc[4] == 100000000000000000000000000000000); }
            }
            ChineseScale::Long => {
                if r == 0 { assert(sc[0] == 10000 && sc[1] == 100000000); }
                else if r == 1 { assert(sc[1] == 100000000 && sc[2] == 10000000000000000); }
                else if r == 2 { assert(sc[2] == 10000000000000000 && sc[3] == 100000000000000000000000000000000); }
            }
        }
        let (a, f) = (sc[r], factor(s, r));
        match s {
            ChineseScale::Short => { assert(sc[r + 1] == 10 * a); }
            ChineseScale::Myriad => { assert(sc[r + 1] == 10000 * a); }
            _ => { if f == 10000 { assert(sc[r + 1] == 10000 * a); } else if f == 100000000 { assert(sc[r + 1] == 100000000 * a); } else { assert(sc[r + 1] == 10000000000000000 * a); } }
        }
        crate::vfw::dm(sc[r + 1], a, f, 0);
    }
    pub proof fn scale_steps(sc: Seq<nat>, r: int)
        requires known(sc) || sc == scale_values(ChineseScale::Short), 0 <= r < sc.len(),
        ensures
            sc[r] >= 10000, sc[0] == 10000,
            r + 1 < sc.len() ==> sc[r + 1] == (sc[r + 1] / sc[r]) * sc[r] && sc[r + 1] / sc[r] >= 10 && (sc[r + 1] / sc[r]) % 10 == 0 && sc[r] < sc[r + 1],
            r + 1 < sc.len() && known(sc) ==> sc[r + 1] / sc[r] >= 10000,
    {
        let s = which(sc);
        if r + 1 < sc.len() { scale_step(s, r); let (a, f) = (sc[r], factor(s, r)); assert(a < f * a) by(nonlinear_arith) requires a >= 1, f >= 10; }
        if r > 0 { scale_step(s, r - 1); let (a, f) = (sc[r - 1], factor(s, r - 1)); assert(a < f * a) by(nonlinear_arith) requires a >= 1, f >= 10; }
    }
    pub open spec fn which(sc: Seq<nat>) -> ChineseScale {
        if sc == scale_values(ChineseScale::Myriad) { ChineseScale::Myriad } else if sc == scale_values(ChineseScale::Mid) { ChineseScale::Mid }
        else if sc == scale_values(ChineseScale::Long) { ChineseScale::Long } else { ChineseScale::Short }
    }
    /// Ranks above the values a coefficient can have are left out.
    pub proof fn coefficient_rank(sc: Seq<nat>, r: int, v: int)
        requires known(sc), 0 <= v <= r, r + 1 < sc.len(), v == 0 || sc[v - 1] < sc[r + 1] / sc[r], v == r || sc[v] >= sc[r + 1] / sc[r],
        ensures sc[v] == sc[r + 1] / sc[r],
    {
        let s = which(sc);
        scale_step(s, r);
        if s is Myriad { assert(sc[0] == 10000); assert(sc[1] == 100000000); assert(sc[2] == 1000000000000); assert(sc[3] == 10000000000000000); assert(sc[4] == 100000000000000000000); assert(sc[5] == 1000000000000000000000000); assert(sc[6] == 10000000000000000000000000000); assert(sc[7] == 100000000000000000000000000000000); assert(sc[8] == 1000000000000000000000000000000000000); }
        if s is Mid { assert(sc[0] == 10000); assert(sc[1] == 100000000); assert(sc[2] == 10000000000000000); assert(sc[3] == 1000000000000000000000000); assert(sc[4] == 100000000000000000000000000000000); }
        if s is Long { assert(sc[0] == 10000); assert(sc[1] == 100000000); assert(sc[2] == 10000000000000000); assert(sc[3] == 100000000000000000000000000000000); }
    }
    /// The largest marker of a type is never needed as often as the next one would be worth.
    pub proof fn largest_marker(sc: Seq<nat>, r: int, m: nat)
        requires known(sc), 0 <= r < sc.len(), max_of_type(m), sc[r] <= m, r + 1 < sc.len() ==> sc[r + 1] > m,
        ensures m / sc[r] < sc[r], r > 0 ==> m / sc[r] < sc[r] / sc[r - 1],
    {
        let s = which(sc);
        let (a, f) = (sc[r], if r == 0 { 10000 } else { factor(s, r - 1) });
        if r > 0 { scale_step(s, r - 1); }
        if s is Myriad { assert(sc[0] == 10000); assert(sc[1] == 100000000); assert(sc[2] == 1000000000000); assert(sc[3] == 10000000000000000); assert(sc[4] == 100000000000000000000); assert(sc[5] == 1000000000000000000000000); assert(sc[6] == 10000000000000000000000000000); assert(sc[7] == 100000000000000000000000000000000); assert(sc[8] == 1000000000000000000000000000000000000); }
        if s is Mid { assert(sc[0] == 10000); assert(sc[1] == 100000000); assert(sc[2] == 10000000000000000); assert(sc[3] == 1000000000000000000000000); assert(sc[4] == 100000000000000000000000000000000); }
        if s is Long { assert(sc[0] == 10000); assert(sc[1] == 100000000); assert(sc[2] == 10000000000000000); assert(sc[3] == 100000000000000000000000000000000); }
        assert(a >= 10000 && f <= a);
        assert(m < f * a) by {
            if f == 10000 { assert(m < 10000 * a); } else if f == 100000000 { assert(m < 100000000 * a); } else { assert(m < 10000000000000000 * a); }
        }
        crate::vfw::dm_lt(m, a, f);
    }
    pub open spec fn sc_of(n: nat) -> Seq<nat> {
        if n == 9 { scale_values(ChineseScale::Myriad) } else if n == 5 { scale_values(ChineseScale::Mid) } else { scale_values(ChineseScale::Long) }
    }
    pub open spec fn any(sc: Seq<nat>) -> bool { known(sc) || sc == scale_values(ChineseScale::Short) }
    pub proof fn increasing(sc: Seq<nat>, i: int, j: int)
        requires any(sc), 0 <= i <= j < sc.len(),
        ensures sc[i] <= sc[j], i < j ==> sc[i] < sc[j],
        decreases j - i,
    {
        if i < j { scale_steps(sc, i); increasing(sc, i + 1, j); }
    }
    pub proof fn top_is(sc: Seq<nat>, n: nat, r: nat, i: nat)
        requires any(sc), r < i <= sc.len(), sc[r as int] <= n, r + 1 < sc.len() ==> n < sc[r as int + 1],
        ensures top(sc, n, i) == r,
        decreases i,
    {
        if i > r + 1 { increasing(sc, r as int + 1, i as int - 1); top_is(sc, n, r, (i - 1) as nat); }
    }
    /// How n is written when its largest marker is the one at r.
    pub proof fn wr_at(c: Cn, n: nat, r: nat, first: bool)
        requires any(c.sc), r < c.sc.len(), c.sc[r as int] <= n, below(c.sc, r as int + 1, n),
        ensures
            wr(c, n, first) == wr(c, n / c.sc[r as int], first) + (seq![c.lg[r as int]] + (if n % c.sc[r as int] == 0 { Seq::<char>::empty() }
                else { zero_if(c.ch, n % c.sc[r as int] * 10 < c.sc[r as int]) + wr(c, n % c.sc[r as int], false) })),
    {
        scale_steps(c.sc, r as int);
        top_is(c.sc, n, r, c.sc.len());
        crate::vfw::dmx(n, c.sc[r as int]);
    }
    pub proof fn written(c: Cn, n: nat, first: bool)
        requires n > 0,
        ensures wr(c, n, first).len() > 0,
    {
    }
    pub proof fn tenth(n: nat, v: nat, f: nat)
        requires v > 0, f % 10 == 0, n < f * v,
        ensures n / v < f, n / v * 10 < f <==> n * 10 < f * v,
    {
        let (q, r, g) = (n / v, n % v, f / 10);
        crate::vfw::dmx(n, v);
        crate::vfw::dm_lt(n, v, f);
        assert(f == 10 * g);
        assert(f * v == 10 * (g * v)) by(nonlinear_arith) requires f == 10 * g;
        assert(q < g ==> n < g * v) by(nonlinear_arith) requires n == q * v + r, r < v;
        assert(q >= g ==> n >= g * v) by(nonlinear_arith) requires n == q * v + r, r >= 0;
    }
    /// What a part returns when its text is t.
    pub open spec fn part_ok(r: Result<NominalString, ChineseFormatError>, t: Seq<char>) -> bool {
        match r {
            Ok(s) => s.wf() && fits(s@) && s@ == t,
            Err(e) => e is OutOfMemory && !fits(t),
        }
    }
    impl vstd::std_specs::convert::FromSpecImpl<OutOfMemoryError> for ChineseFormatError {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: OutOfMemoryError) -> Self { ChineseFormatError::OutOfMemory }
    }
//@ fn chinese::<ChineseScale>::format_next_scaled_rank | spinoff
//@ spec
    requires
        $p0 <= 10, $p4.val() > 0, N == 9 || N == 5 || N == 4, marks($p1@, sc_of($p1@.len())),
        $p5 ==> !*old($p6), below(sc_of($p1@.len()), $p0 as int, $p4.val()),
        $p5 || $p0 < $p1@.len() && sc_of($p1@.len())[$p0 as int] <= T::maxv(),
    ensures
        part_ok(r, part(cn($p2@, $p3@, sc_of($p1@.len()), FORMAL), $p4.val(), bound(sc_of($p1@.len()), $p0 as int), $p5, *old($p6))),
        r is Ok ==> !*final($p6),
    decreases 2 * $p0,
//@ start
    proof { scale_steps(sc_of($p1@.len()), 0); }
//@ fn chinese::<ChineseScale>::format_scaled_inner | spinoff
//@ spec
    requires
        $p3.val() > 0, N == 9 || N == 5 || N == 4, marks($p0@, sc_of($p0@.len())), $p4, !*old($p5),
    ensures
        part_ok(r, wr(cn($p1@, $p2@, sc_of($p0@.len()), FORMAL), $p3.val(), true)),
        r is Ok ==> !*final($p5),
//@ start
    proof {
        let w = wr(cn($p1@, $p2@, sc_of($p0@.len()), FORMAL), $p3.val(), true);
        assert(Seq::<char>::empty() + w =~= w);
    }
//@ fn chinese::<ChineseScale>::format_scaled | spinoff
//@ spec
    requires
        $p3.val() > 0, N == 9 || N == 5 || N == 4, forall|i: int| 0 <= i < N ==> (#[trigger] $p0@[i]) == sc_of(N as nat)[i],
    ensures
        part_ok(r, wr(cn($p1@, $p2@, sc_of(N as nat), FORMAL), $p3.val(), true)),
//@ start
    let ghost raw = $p0@;
//@ loop 0
    invariant
        __vec0@.len() == __i0, __i0 <= N,
        forall|j: int| 0 <= j < __i0 ==> match #[trigger] __vec0@[j] { Some(v) => v.val() == raw[j], None => raw[j] > T::maxv() },
    decreases N - __i0,
//@ mod chinese
    pub proof fn ranks_below(sc: Seq<nat>, k: int)
        requires known(sc), 0 <= k < sc.len(),
        ensures forall|i: int| 0 <= i <= k ==> 10000 <= #[trigger] sc[i] <= sc[k],
    {
        assert forall|i: int| 0 <= i <= k implies 10000 <= #[trigger] sc[i] <= sc[k] by { increasing(sc, i, k); scale_steps(sc, i); }
    }
//@ fn chinese::<ChineseScale>::format_scaled_rank | spinoff hide=wr,small,scale_values
//@ spec
    requires
        $p0 <= 10, $p4.val() > 0, N == 9 || N == 5 || N == 4, marks($p1@, sc_of($p1@.len())),
        $p5 ==> !*old($p6), below(sc_of($p1@.len()), $p0 + 1, $p4.val()),
        $p5 || $p0 + 1 < $p1@.len() && sc_of($p1@.len())[$p0 + 1] <= T::maxv(),
    ensures
        part_ok(r, part(cn($p2@, $p3@, sc_of($p1@.len()), FORMAL), $p4.val(), bound(sc_of($p1@.len()), $p0 + 1), $p5, *old($p6))),
        r is Ok ==> !*final($p6),
    decreases 2 * $p0 + 1,
//@ start
    let ghost sc = sc_of($p1@.len());
    let ghost c = cn($p2@, $p3@, sc, FORMAL);
    let ghost n = $p4.val();
    let ghost k = $p0 as int;
    let ghost goal = part(c, n, bound(sc, k + 1), $p5, *$p6);
    proof {
        fits_small(Seq::<char>::empty());
        if k < sc.len() { ranks_below(sc, k); }
        if k + 1 < sc.len() { ranks_below(sc, k + 1); scale_steps(sc, k); }
        if k < sc.len() && sc[k] <= T::maxv() {
            let v = sc[k];
            let (q, r) = (n / v, n % v);
            scale_steps(sc, k);
            crate::vfw::dmx(n, v);
            if k + 1 < sc.len() && sc[k + 1] <= T::maxv() {
                let f = sc[k + 1] / sc[k];
                assert(f * v >= 10 * v) by(nonlinear_arith) requires f >= 10;
                tenth(n, v, sc[k + 1] / sc[k]);
            } else {
                largest_marker(sc, k, T::maxv());
                vstd::arithmetic::div_mod::lemma_div_is_ordered(n as int, T::maxv() as int, v as int);
            }
            if q > 0 { scaled_step(c, n, k, bound(sc, k + 1), $p5, *$p6); }
            else {
                assert(n < v) by { if n >= v { scaled_step(c, n, k, bound(sc, k + 1), $p5, *$p6); } }
                scaled_none(c, n, v, bound(sc, k + 1), $p5, *$p6);
            }
        }
    }
//@ loop 0
    invariant
        $cnt <= $p0, $p0 as int == k,
        $cnt == $p0 || sc[$cnt as int] >= sc[k + 1] / sc[k],
    decreases $cnt,
//@ loopafter 0
    proof { coefficient_rank(sc, k, $cnt as int); }
//@ mod chinese
    /// One marker of the short scale: its digit and itself, or at most a zero.
    pub proof fn short_step(c: Cn, m: nat, k: int, a: Seq<char>, zero: bool)
        requires c.sc == scale_values(ChineseScale::Short), c.ch.len() == 13, 0 <= k <= 10, m > 0, m < 10 * c.sc[k], a.len() == 0 ==> !zero,
        ensures ({
            let (v, first) = (c.sc[k], a.len() == 0);
            let p = part(c, m, 10 * v, first, zero);
            let (q, r) = (m / v, m % v);
            let b = (a + seq![c.ch[q as int]]) + seq![c.lg[k]];
            let z = a + seq![c.ch[0]];
            q < 10 && r < v && (q == 0 ==> r == m)
            && (q > 0 ==> a + p == b + part(c, r, v, false, false) && (fits(a + p) ==> fits(b) && fits(a + seq![c.ch[q as int]])))
            && (q == 0 ==> a + p == a + part(c, m, v, first, zero) || !first && !zero)
            && (q == 0 && !first && !zero ==> a + p == z + part(c, m, v, first, true) && (fits(a + p) ==> fits(z)))
        }),
    {
        let (v, first) = (c.sc[k], a.len() == 0);
        let p = part(c, m, 10 * v, first, zero);
        let (q, r) = (m / v, m % v);
        scale_steps(c.sc, k);
        crate::vfw::dmx(m, v);
        crate::vfw::dm_lt(m, v, 10);
        if q > 0 {
            if k < 10 { scale_step(ChineseScale::Short, k); }
            wr_at(c, m, k as nat, first);
            let (d, l) = (seq![c.ch[q as int]], seq![c.lg[k]]);
            let tail = if r == 0 { Seq::<char>::empty() } else { zero_if(c.ch, r * 10 < v) + wr(c, r, false) };
            assert(wr(c, q, first) =~= d);
            assert(m >= v);
            assert(p =~= d + (l + tail));
            assert(wr(c, 0, false) =~= Seq::<char>::empty());
            assert(tail =~= part(c, r, v, false, false));
            assert(a + p =~= ((a + d) + l) + tail);
            fits_part((a + d) + l, tail);
            fits_part(a + d, l);
        } else {
            assert(m < v) by { assert(q * v == 0) by(nonlinear_arith) requires q == 0; }
            let (z, w) = (seq![c.ch[0]], wr(c, m, first));
            assert(part(c, m, v, first, true) =~= w);
            if !first && !zero {
                assert(p =~= z + w);
                assert(a + p =~= (a + z) + w);
                fits_part(a + z, w);
            } else {
                assert(p =~= w);
                assert(part(c, m, v, first, zero) =~= w);
            }
        }
    }
    /// One marker of the other scales: its coefficient, itself and the rest.
    pub proof fn scaled_step(c: Cn, n: nat, k: int, b: nat, first: bool, zero: bool)
        requires any(c.sc), 0 <= k < c.sc.len(), n >= c.sc[k], below(c.sc, k + 1, n), c.ch.len() == 13,
        ensures ({
            let v = c.sc[k];
            let (q, r) = (n / v, n % v);
            let y = zero_if(c.ch, zero_before(n, b, first, zero));
            let a = y + wr(c, q, first);
            let m = seq![c.lg[k]];
            let tail = part(c, r, v, false, false);
            let p = part(c, n, b, first, zero);
            q > 0 && a.len() > 0 && r < v && p == (a + m) + tail && (r == 0 ==> p == a + m) && (fits(p) ==> fits(a + m) && fits(a) && fits(y) && fits(tail))
        }),
    {
        let v = c.sc[k];
        let (q, r) = (n / v, n % v);
        let y = zero_if(c.ch, zero_before(n, b, first, zero));
        let a = y + wr(c, q, first);
        let m = seq![c.lg[k]];
        let tail = part(c, r, v, false, false);
        let p = part(c, n, b, first, zero);
        scale_steps(c.sc, k);
        crate::vfw::dmx(n, v);
        assert(q > 0) by { if q == 0 { assert(q * v == 0) by(nonlinear_arith) requires q == 0; } }
        written(c, q, first);
        wr_at(c, n, k as nat, first);
        assert(wr(c, 0, false) =~= Seq::<char>::empty());
        assert(tail =~= if r == 0 { Seq::<char>::empty() } else { zero_if(c.ch, r * 10 < v) + wr(c, r, false) });
        assert(p =~= (a + m) + tail);
        assert(r == 0 ==> p =~= a + m);
        fits_part(a + m, tail);
        fits_part(a, m);
        fits_part(y, wr(c, q, first));
    }
//@ mod chinese
    /// A marker worth more: at most a zero.
    pub proof fn scaled_none(c: Cn, n: nat, v: nat, b: nat, first: bool, zero: bool)
        requires n < v, n > 0, first || b >= 10 * v, first ==> !zero, c.ch.len() == 13,
        ensures ({
            let e = Seq::<char>::empty();
            let z = e + seq![c.ch[0]];
            let p = part(c, n, b, first, zero);
            n / v == 0 && n % v == n
            && (first || zero ==> p == e + part(c, n, v, first, zero) && (fits(p) ==> fits(part(c, n, v, first, zero))))
            && (!first && !zero ==> p == z + part(c, n, v, false, true) && (fits(p) ==> fits(z) && fits(part(c, n, v, false, true))))
        }),
    {
        let e = Seq::<char>::empty();
        let z = e + seq![c.ch[0]];
        let p = part(c, n, b, first, zero);
        crate::vfw::dm(n, v, 0, n);
        if first || zero { assert(p =~= e + part(c, n, v, first, zero)); fits_part(e, part(c, n, v, first, zero)); }
        else {
            assert(p =~= z + part(c, n, v, false, true));
            fits_part(z, part(c, n, v, false, true));
        }
    }
//@ fn chinese::<ChineseScale>::format_short_rank | spinoff
//@ spec
    requires
        $p0 <= 10, $p3.val() >= 10000, $p0 < 10 ==> scale_values(ChineseScale::Short)[$p0 + 1] > T::maxv(),
    ensures
        $p3.val() >= 1000000000000000 ==> r is Err && r->Err_0 is OutOfBounds,
        $p3.val() < 1000000000000000 ==> part_ok(r, wr(cn($p1@, $p2@, scale_values(ChineseScale::Short), FORMAL), $p3.val(), true)),
    decreases $p0,
//@ start
    let ghost sc = scale_values(ChineseScale::Short);
    let ghost c = cn($p1@, $p2@, sc, FORMAL);
    let ghost n = $p3.val();
    let ghost goal = wr(c, n, true);
    proof {
        fits_small(Seq::<char>::empty());
        assert(Seq::<char>::empty() + (Seq::<char>::empty() + goal) =~= goal);
        assert(sc[0] == 10000 && sc[10] == 100000000000000);
        if $p0 < 10 { scale_step(ChineseScale::Short, $p0 as int); }
        T::laws();
        let (v, q) = (sc[$p0 as int], n / sc[$p0 as int]);
        scale_steps(sc, $p0 as int);
        crate::vfw::dmx(n, v);
        assert(q >= 10 ==> n >= 10 * v) by(nonlinear_arith) requires v * q <= n, v >= 0;
        assert(n >= 10 * v ==> q >= 10) by { if q < 10 && n >= 10 * v { assert(q * v <= 9 * v) by(nonlinear_arith) requires q <= 9, v >= 0; } }
    }
//@ loophead 0
    #[verifier::loop_isolation(true)]
//@ loop 0
    invariant_except_break
        $p0 <= 10, $okmut.val() == sc[$p0 as int],
        n < 1000000000000000 || $p0 == 10 && $acc@.len() == 0,
        n < 1000000000000000 ==> $rem.val() < 10 * sc[$p0 as int],
        $acc@.len() == 0 ==> $rem.val() == n && !$flag,
        n < 1000000000000000 ==> goal =~= $acc@ + part(c, $rem.val(), 10 * sc[$p0 as int], $acc@.len() == 0, $flag),
    invariant
        sc == scale_values(ChineseScale::Short), c == cn($p1@, $p2@, sc, FORMAL), n == $p3.val(), n >= 10000, goal == wr(c, n, true),
        $acc.wf(), fits($acc@),
    ensures
        $rem.val() < 10000, $acc@.len() > 0, n < 1000000000000000,
        goal =~= $acc@ + part(c, $rem.val(), 10000, false, $flag),
    decreases $p0,
//@ loopstart 0
    proof {
        T::laws();
        let k = $p0 as int;
        scale_steps(sc, k);
        assert(sc[0] == 10000 && sc[10] == 100000000000000);
        if k > 0 { scale_step(ChineseScale::Short, k - 1); }
        if n < 1000000000000000 { short_step(c, $rem.val(), k, $acc@, $flag); }
        else {
            let (v, q) = (sc[k], n / sc[k]);
            crate::vfw::dmx(n, v);
            assert(q >= 10) by { if q < 10 { assert(q * v <= 9 * v) by(nonlinear_arith) requires q <= 9; } }
        }
    }
//@ loopafter 0
    proof {
        let m = $rem.val();
        let w = small_part(c.ch, FORMAL, m, false, $flag);
        assert(goal =~= $acc@ + w);
        assert($acc@ + Seq::<char>::empty() =~= $acc@);
        if m == 0 { assert(w =~= Seq::<char>::empty()); }
        fits_part($acc@, w);
    }
//@ fn chinese::<ChineseScale>::format
//@ spec
    requires $p2.val() >= 10000,
    ensures
        self is Short && $p2.val() >= 1000000000000000 ==> r is Err && r->Err_0 is OutOfBounds,
        !(self is Short && $p2.val() >= 1000000000000000) ==> part_ok(r, wr(cn($p0@, $p1@, scale_values(self), FORMAL), $p2.val(), true)),
//@ fn chinese::format_chinese
//@ spec
    ensures
        gives(r, cn_spec(cn($p0@, $p1@, scale_values($p3), FORMAL), $p3, $p2.val())),
        carries(r, $p2),
//@ start
    proof {
        let w = small($p0@.subrange(0, 13), FORMAL, $p2.val(), true);
        assert(Seq::<char>::empty() + w =~= w);
        fits_small(seq![$p0@[0]]);
    }
//@ impl chinese::<SimplifiedChineseInformal as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { cn_system(false, false, self.0, n) }
//@ fn chinese::<SimplifiedChineseInformal as NominalSystem<T>>::try_format_nominal
//@ start
    proof { tables(); }
//@ fn chinese::<SimplifiedChineseInformal>::financial
//@ spec
    ensures r.0.usage is Financial, r.0.scale == self.0.scale,
//@ fn chinese::<SimplifiedChineseInformal>::short_scale
//@ spec
    ensures r.0.scale is Short, r.0.usage == self.0.usage,
//@ fn chinese::<SimplifiedChineseInformal>::mid_scale
//@ spec
    ensures r.0.scale is Mid, r.0.usage == self.0.usage,
//@ fn chinese::<SimplifiedChineseInformal>::long_scale
//@ spec
    ensures r.0.scale is Long, r.0.usage == self.0.usage,
//@ impl chinese::<SimplifiedChineseFormal as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { cn_system(false, true, self.0, n) }
//@ fn chinese::<SimplifiedChineseFormal as NominalSystem<T>>::try_format_nominal
//@ start
    proof { tables(); }
//@ fn chinese::<SimplifiedChineseFormal>::financial
//@ spec
    ensures r.0.usage is Financial, r.0.scale == self.0.scale,
//@ fn chinese::<SimplifiedChineseFormal>::short_scale
//@ spec
    ensures r.0.scale is Short, r.0.usage == self.0.usage,
//@ fn chinese::<SimplifiedChineseFormal>::mid_scale
//@ spec
    ensures r.0.scale is Mid, r.0.usage == self.0.usage,
//@ fn chinese::<SimplifiedChineseFormal>::long_scale
//@ spec
    ensures r.0.scale is Long, r.0.usage == self.0.usage,
//@ impl chinese::<TraditionalChineseInformal as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { cn_system(true, false, self.0, n) }
//@ fn chinese::<TraditionalChineseInformal as NominalSystem<T>>::try_format_nominal
//@ start
    proof { tables(); }
//@ fn chinese::<TraditionalChineseInformal>::financial
//@ spec
    ensures r.0.usage is Financial, r.0.scale == self.0.scale,
//@ fn chinese::<TraditionalChineseInformal>::short_scale
//@ spec
    ensures r.0.scale is Short, r.0.usage == self.0.usage,
//@ fn chinese::<TraditionalChineseInformal>::mid_scale
//@ spec
    ensures r.0.scale is Mid, r.0.usage == self.0.usage,
//@ fn chinese::<TraditionalChineseInformal>::long_scale
//@ spec
    ensures r.0.scale is Long, r.0.usage == self.0.usage,
//@ impl chinese::<TraditionalChineseFormal as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { cn_system(true, true, self.0, n) }
//@ fn chinese::<TraditionalChineseFormal as NominalSystem<T>>::try_format_nominal
//@ start
    proof { tables(); }
//@ fn chinese::<TraditionalChineseFormal>::financial
//@ spec
    ensures r.0.usage is Financial, r.0.scale == self.0.scale,
//@ fn chinese::<TraditionalChineseFormal>::short_scale
//@ spec
    ensures r.0.scale is Short, r.0.usage == self.0.usage,
//@ fn chinese::<TraditionalChineseFormal>::mid_scale
//@ spec
    ensures r.0.scale is Mid, r.0.usage == self.0.usage,
//@ fn chinese::<TraditionalChineseFormal>::long_scale
//@ spec
    ensures r.0.scale is Long, r.0.usage == self.0.usage,
//@ mod chinese
    pub open spec fn cn_system(traditional: bool, formal: bool, o: ChineseOptions, n: nat) -> SRes {
        cn_spec(Cn { ch: cn_digits(traditional, o.usage is Financial), lg: cn_large(traditional), sc: scale_values(o.scale), formal }, o.scale, n)
    }
    pub proof fn tables()
        ensures
            SIMPLIFIED_ORDINARY@.subrange(0, 13) == cn_digits(false, false),
            SIMPLIFIED_FINANCIAL@.subrange(0, 13) == cn_digits(false, true),
            TRADITIONAL_ORDINARY@.subrange(0, 13) == cn_digits(true, false),
            TRADITIONAL_FINANCIAL@.subrange(0, 13) == cn_digits(true, true),
            SIMPLIFIED_LARGE@ == cn_large(false),
            TRADITIONAL_LARGE@ == cn_large(true),
    {
        assert(SIMPLIFIED_ORDINARY@.subrange(0, 13) =~= cn_digits(false, false));
        assert(SIMPLIFIED_FINANCIAL@.subrange(0, 13) =~= cn_digits(false, true));
        assert(TRADITIONAL_ORDINARY@.subrange(0, 13) =~= cn_digits(true, false));
        assert(TRADITIONAL_FINANCIAL@.subrange(0, 13) =~= cn_digits(true, true));
        assert(SIMPLIFIED_LARGE@ =~= cn_large(false));
        assert(TRADITIONAL_LARGE@ =~= cn_large(true));
    }
//@ -- derived defaults: ordinary characters, myriad scale
//@ keep chinese::<ChineseOptions as Default>
//@ keep chinese::<ChineseUsage as Default>
//@ keep chinese::<ChineseScale as Default>
//@ keep chinese::<*Chinese*ormal as Default>
//@ fn chinese::<ChineseUsage as Default>::default
//@ spec
    ensures r is Ordinary,
//@ fn chinese::<ChineseScale as Default>::default
//@ spec
    ensures r is Myriad,
//@ fn chinese::<ChineseOptions as Default>::default
//@ spec
    ensures r.usage is Ordinary, r.scale is Myriad,
//@ fn chinese::<*Chinese*ormal as Default>::default
//@ spec
    ensures r.0.usage is Ordinary, r.0.scale is Myriad,
