SYS=[ # name, zero char or None, top
 ('JapaneseFormal','零壱弐参四伍六七八九','阡百拾',False),
 ('JapaneseInformal','〇一二三四五六七八九','千百十',True),
 ('HangeulFormal','영일이삼사오육칠팔구','천백십',False),
 ('HanjaInformal','零一二三四五六七八九','千百十',True),
 ('HanjaFormal','零壹貳參四五六七八九','仟百拾',False),
]
geo="აბგდევზჱთიკლმნჲოპჟრსტჳფქღყშჩცძწჭხჴჯჰჵ"
u=lambda c:"'\\u{%X}'"%ord(c)
o=[]
P=o.append
P('''//@ mod additive
    // ---- one letter, or digit and marker, per decimal place
    pub open spec fn at(l: spec_fn(nat, nat) -> Seq<char>, e: nat, d: nat) -> Seq<char> {
        if d == 0 { Seq::<char>::empty() } else { l(e, d) }
    }
    pub open spec fn letters(l: spec_fn(nat, nat) -> Seq<char>, n: nat) -> Seq<char> {
        at(l, 3, n / 1000 % 10) + (at(l, 2, n / 100 % 10) + (at(l, 1, n / 10 % 10) + at(l, 0, n % 10)))
    }
    /// Nine symbols worth 9p, 8p, .., 1p from position a.
    pub open spec fn place_ok(s: Seq<(&'static str, u128)>, a: int, p: nat, l: spec_fn(nat, nat) -> Seq<char>, e: nat) -> bool {
        a + 9 <= s.len() && p > 0''')
for j in range(9):
    P(f'        && s[a + {j}].1 == {9-j} * p && s[a + {j}].0@ =~= l(e, {9-j})')
P('''    }
    /// Nothing fits below p.
    pub proof fn place_skip(s: Seq<(&'static str, u128)>, a: nat, b: nat, n: nat)
        requires a <= b <= s.len(), forall|i: int| a <= i < b ==> (#[trigger] s[i]).1 > n,
        ensures greedy(s, a, n) == greedy(s, b, n),
        decreases b - a,
    {
        if a < b {
            greedy_step(s, a, n);
            place_skip(s, a + 1, b, n);
        }
    }
    /// Exactly one of the nine symbols of a place is written.
    pub proof fn place_one(s: Seq<(&'static str, u128)>, a: nat, k: nat, p: nat, n: nat)
        requires
            k <= 9, a + 9 <= s.len(), p > 0, n < (10 - k) * p,
            forall|j: int| 0 <= j < 9 ==> (#[trigger] s[a + j]).1 == (9 - j) * p,
        ensures
            n / p < 10, n < p ==> n / p == 0,
            greedy(s, a + k, n) == (if n / p == 0 { Seq::<char>::empty() } else { s[a as int + 9 - (n / p) as int].0@ }) + greedy(s, a + 9, n % p),
        decreases 9 - k,
    {
        crate::vfw::dmx(n, p);
        assert((10 - k) * p <= 10 * p) by(nonlinear_arith) requires k <= 9, p > 0;
        crate::vfw::dm_lt(n, p, 10);
        if k == 9 {
            assert(10 - k == 1);
            assert(1 * p == p);
            assert(Seq::<char>::empty() + greedy(s, a + 9, n) =~= greedy(s, a + 9, n));
        } else {
            let v = s[a + k as int].1 as nat;
            assert(v == (9 - k) * p);
            assert(v > 0) by(nonlinear_arith) requires v == (9 - k) * p, k < 9, p > 0;
            if n < v {
                greedy_step(s, a + k, n);
                place_one(s, a, k + 1, p, n);
            } else {
                let m = (n - v) as nat;
                let q = (9 - k) as nat;
                assert(m < p && m < v) by(nonlinear_arith) requires v == (9 - k) * p, m == n - v, n < (10 - k) * p, k < 9, p > 0;
                crate::vfw::dm(n, v, 1, m);
                crate::vfw::dm(n, p, q, m);
                assert forall|i: int| a + k + 1 <= i < a + 9 implies (#[trigger] s[i]).1 > m by {
                    let j = i - a;
                    assert(s[a + j].1 == (9 - j) * p);
                    assert((9 - j) * p >= p) by(nonlinear_arith) requires j < 9, p > 0;
                }
                place_skip(s, a + k + 1, a + 9, m);
                assert(rep(s[a + k as int].0@, 1) =~= s[a + k as int].0@) by { reveal_with_fuel(rep, 2); }
                assert(greedy(s, a + k, n) == rep(s[a + k as int].0@, n / v) + greedy(s, a + k + 1, n % v));
            }
        }
    }
    pub proof fn place(s: Seq<(&'static str, u128)>, a: nat, p: nat, l: spec_fn(nat, nat) -> Seq<char>, e: nat, n: nat)
        requires place_ok(s, a as int, p, l, e), n < 10 * p,
        ensures greedy(s, a, n) == at(l, e, n / p) + greedy(s, a + 9, n % p), n / p < 10,
    {
        place_one(s, a, 0, p, n);
    }
    /// Four places, starting at position a.
    pub proof fn places(s: Seq<(&'static str, u128)>, a: nat, l: spec_fn(nat, nat) -> Seq<char>, n: nat)
        requires
            place_ok(s, a as int, 1000, l, 3), place_ok(s, a as int + 9, 100, l, 2), place_ok(s, a as int + 18, 10, l, 1), place_ok(s, a as int + 27, 1, l, 0),
            n < 10000, s.len() == a + 36 || s[a as int + 36].1 == 0,
        ensures greedy(s, a, n) == letters(l, n),
    {
        place(s, a, 1000, l, 3, n);
        place(s, a + 9, 100, l, 2, n % 1000);
        place(s, a + 18, 10, l, 1, n % 1000 % 100);
        place(s, a + 27, 1, l, 0, n % 1000 % 100 % 10);
        assert(n / 1000 % 10 == n / 1000 && n % 1000 / 100 == n / 100 % 10 && n % 1000 % 100 / 10 == n / 10 % 10
            && n % 1000 % 100 % 10 == n % 10 && n % 10 / 1 == n % 10);
        assert(at(l, 0, n % 10) + Seq::<char>::empty() =~= at(l, 0, n % 10));
    }
    /// The first symbol repeats.
    pub proof fn top_places(s: Seq<(&'static str, u128)>, top: nat, a: nat, l: spec_fn(nat, nat) -> Seq<char>, n: nat)
        requires
            place_ok(s, a as int, 1000, l, 3), place_ok(s, a as int + 9, 100, l, 2), place_ok(s, a as int + 18, 10, l, 1), place_ok(s, a as int + 27, 1, l, 0),
            s.len() == a + 36 || s[a as int + 36].1 == 0,
            a == 0 && top == 9000 || a == 1 && top == 10000 && s[0].1 == 10000,
        ensures
            greedy(s, 0, n) == rep(s[0].0@, n / top) + letters(l, n % top),
            greedy_rest(s, 0, n) == 0,
    {
        let m = n % top;
        assert(m < top);
        assert(greedy(s, 0, n) == rep(s[0].0@, n / top) + greedy(s, 1, m));
        if a == 0 {
            assert(m / 9000 == 0 && m % 9000 == m);
            greedy_step(s, 0, m);
        }
        places(s, a, l, m);
        lemma_rest(s, a, n);
    }
    pub proof fn lemma_rest(s: Seq<(&'static str, u128)>, a: nat, n: nat)
        requires a + 36 <= s.len(), s[a as int + 35].1 == 1, s.len() == a + 36 || s[a as int + 36].1 == 0, forall|i: int| 0 <= i < a + 35 ==> (#[trigger] s[i]).1 > 0,
        ensures greedy_rest(s, 0, n) == 0,
    {
        rest_zero(s, 0, (a + 35) as nat, n);
    }
    pub proof fn rest_zero(s: Seq<(&'static str, u128)>, i: nat, k: nat, n: nat)
        requires i <= k < s.len(), s[k as int].1 == 1, s.len() == k + 1 || s[k as int + 1].1 == 0, forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).1 > 0,
        ensures greedy_rest(s, i, n) == 0,
        decreases k - i,
    {
        if i < k { rest_zero(s, i + 1, k, n % s[i as int].1 as nat); } else { assert(n % 1 == 0); assert(greedy_rest(s, i + 1, 0) == 0); assert(n % (s[i as int].1 as nat) == 0); }
    }
    // ---- Armenian: the 36 letters of the alphabet in order, four rows of nine
    pub open spec fn armenian(upper: bool) -> spec_fn(nat, nat) -> Seq<char> {
        |e: nat, d: nat| seq![((if upper { 0x531int } else { 0x561int }) + 9 * e + d - 1) as u32 as char]
    }
    pub open spec fn armenian_spec(upper: bool, n: nat) -> SRes {
        if n == 0 { SRes::NoZero } else { SRes::Text(rep(armenian(upper)(3, 9), n / 9000) + letters(armenian(upper), n % 9000)) }
    }
    pub open spec fn is_armenian(s: Seq<(&'static str, u128)>, upper: bool) -> bool { is_places(s, 36, armenian(upper)) }
    pub open spec fn is_places(s: Seq<(&'static str, u128)>, len: nat, l: spec_fn(nat, nat) -> Seq<char>) -> bool {
        s.len() == len && place_ok(s, 0, 1000, l, 3) && place_ok(s, 9, 100, l, 2) && place_ok(s, 18, 10, l, 1) && place_ok(s, 27, 1, l, 0)
    }
    // ---- Georgian: the 37 letters of the traditional alphabet in order''')
P('    pub open spec fn georgian_letters() -> Seq<char> { seq![' + ', '.join(u(c) for c in geo) + '] }')
P('''    pub open spec fn georgian() -> spec_fn(nat, nat) -> Seq<char> { |e: nat, d: nat| seq![georgian_letters()[9 * e + d - 1]] }
    pub open spec fn georgian_spec(n: nat) -> SRes {
        if n == 0 { SRes::NoZero } else { SRes::Text(rep(seq![georgian_letters()[36]], n / 10000) + letters(georgian(), n % 10000)) }
    }
    pub open spec fn is_georgian(s: Seq<(&'static str, u128)>) -> bool {
        let l = georgian();
        s.len() == 37 && s[0].1 == 10000 && s[0].0@ =~= seq![georgian_letters()[36]]
        && place_ok(s, 1, 1000, l, 3) && place_ok(s, 10, 100, l, 2) && place_ok(s, 19, 10, l, 1) && place_ok(s, 28, 1, l, 0)
    }
    // ---- Japanese and Korean: digit and marker
    pub open spec fn marked(digits: Seq<char>, markers: Seq<char>, informal: bool) -> spec_fn(nat, nat) -> Seq<char> {
        |e: nat, d: nat| if e == 0 { seq![digits[d as int]] } else if d == 1 && informal { seq![markers[3 - e]] } else { seq![digits[d as int], markers[3 - e]] }
    }
    pub open spec fn marked_spec(digits: Seq<char>, markers: Seq<char>, informal: bool, n: nat) -> SRes {
        SRes::Text(if n == 0 { seq![digits[0]] } else {
            rep(marked(digits, markers, informal)(3, 9), n / 9000) + letters(marked(digits, markers, informal), n % 9000)
        })
    }
    pub open spec fn is_marked(s: Seq<(&'static str, u128)>, digits: Seq<char>, markers: Seq<char>, informal: bool) -> bool {
        is_places(s, 37, marked(digits, markers, informal)) && s[36].1 == 0 && s[36].0@ =~= seq![digits[0]]
    }
    // ---- Roman
    pub open spec fn ov(c: char) -> Seq<char> { seq![c, '\\u{305}'] }
    pub open spec fn roman_char(upper: bool, c: char) -> char {
        if upper { c } else if c == 'I' { 'i' } else if c == 'V' { 'v' } else if c == 'X' { 'x' } else if c == 'L' { 'l' } else if c == 'C' { 'c' }
        else if c == 'D' { 'd' } else if c == 'M' { 'm' } else { 'n' }
    }
    /// The symbols of place e for one, four, five and nine.
    pub open spec fn roman_one(u: bool, e: nat) -> Seq<char> {
        if e == 0 { seq![roman_char(u, 'I')] } else if e == 1 { seq![roman_char(u, 'X')] } else if e == 2 { seq![roman_char(u, 'C')] }
        else if e == 3 { seq![roman_char(u, 'M')] } else if e == 4 { ov(roman_char(u, 'X')) } else { ov(roman_char(u, 'C')) }
    }
    pub open spec fn roman_five(u: bool, e: nat) -> Seq<char> {
        if e == 0 { seq![roman_char(u, 'V')] } else if e == 1 { seq![roman_char(u, 'L')] } else if e == 2 { seq![roman_char(u, 'D')] }
        else if e == 3 { ov(roman_char(u, 'V')) } else if e == 4 { ov(roman_char(u, 'L')) } else { ov(roman_char(u, 'D')) }
    }
    pub open spec fn roman_four(u: bool, e: nat) -> Seq<char> {
        (if e == 3 { ov(roman_char(u, 'I')) } else { roman_one(u, e) }) + roman_five(u, e)
    }
    pub open spec fn roman_nine(u: bool, e: nat) -> Seq<char> {
        if e == 0 { seq![roman_char(u, 'I')] + seq![roman_char(u, 'X')] } else if e == 1 { seq![roman_char(u, 'X')] + seq![roman_char(u, 'C')] }
        else if e == 2 { seq![roman_char(u, 'C')] + seq![roman_char(u, 'M')] } else if e == 3 { ov(roman_char(u, 'I')) + ov(roman_char(u, 'X')) }
        else if e == 4 { ov(roman_char(u, 'X')) + ov(roman_char(u, 'C')) } else { ov(roman_char(u, 'C')) + ov(roman_char(u, 'M')) }
    }
    pub open spec fn roman_digit(u: bool, e: nat, d: nat) -> Seq<char> {
        if d == 9 { roman_nine(u, e) } else if d >= 5 { roman_five(u, e) + rep(roman_one(u, e), (d - 5) as nat) }
        else if d == 4 { roman_four(u, e) } else { rep(roman_one(u, e), d) }
    }
    pub open spec fn roman_text(u: bool, n: nat) -> Seq<char> {
        rep(ov(roman_char(u, 'M')), n / 1000000) + (roman_digit(u, 5, n / 100000 % 10) + (roman_digit(u, 4, n / 10000 % 10) + (roman_digit(u, 3, n / 1000 % 10)
            + (roman_digit(u, 2, n / 100 % 10) + (roman_digit(u, 1, n / 10 % 10) + roman_digit(u, 0, n % 10))))))
    }
    pub open spec fn roman_spec(u: bool, n: nat) -> SRes {
        SRes::Text(if n == 0 { seq![roman_char(u, 'N')] } else { roman_text(u, n) })
    }
    pub open spec fn roman_ok(s: Seq<(&'static str, u128)>, a: int, p: nat, u: bool, e: nat) -> bool {
        s[a].1 == 9 * p && s[a].0@ =~= roman_nine(u, e) && s[a + 1].1 == 5 * p && s[a + 1].0@ =~= roman_five(u, e)
        && s[a + 2].1 == 4 * p && s[a + 2].0@ =~= roman_four(u, e) && s[a + 3].1 == p && s[a + 3].0@ =~= roman_one(u, e)
    }
    pub open spec fn is_roman(s: Seq<(&'static str, u128)>, u: bool) -> bool {
        s.len() == 26 && s[0].1 == 1000000 && s[0].0@ =~= ov(roman_char(u, 'M'))
        && roman_ok(s, 1, 100000, u, 5) && roman_ok(s, 5, 10000, u, 4) && roman_ok(s, 9, 1000, u, 3)
        && roman_ok(s, 13, 100, u, 2) && roman_ok(s, 17, 10, u, 1) && roman_ok(s, 21, 1, u, 0)
        && s[25].1 == 0 && s[25].0@ =~= seq![roman_char(u, 'N')]
    }
    pub proof fn roman_place(s: Seq<(&'static str, u128)>, a: nat, p: nat, u: bool, e: nat, n: nat)
        requires a + 4 <= s.len(), p > 0, roman_ok(s, a as int, p, u, e), n < 10 * p,
        ensures greedy(s, a, n) == roman_digit(u, e, n / p) + greedy(s, a + 4, n % p), n / p < 10,
    {
        let d = n / p;
        let r = n % p;
        crate::vfw::dmx(n, p);
        crate::vfw::dm_lt(n, p, 10);
        let (nine, five, four, one) = (s[a as int].0@, s[a as int + 1].0@, s[a as int + 2].0@, s[a as int + 3].0@);
        assert((d + 1) * p == d * p + p && (d < 9 ==> (d + 1) * p <= 9 * p) && (d == 9 ==> d * p == 9 * p)) by(nonlinear_arith);
        let n1 = n % (9 * p);
        let d1: nat = if d == 9 { 0 } else { d };
        if d == 9 { crate::vfw::dm(n, 9 * p, 1, r); } else { crate::vfw::dm(n, 9 * p, 0, n); }
        assert(n1 == d1 * p + r);
        let n2 = n1 % (5 * p);
        let d2: nat = if d1 >= 5 { (d1 - 5) as nat } else { d1 };
        assert(d1 >= 5 ==> d1 * p == 5 * p + d2 * p) by(nonlinear_arith) requires d1 >= 5 ==> d1 == 5 + d2;
        assert((d2 + 1) * p == d2 * p + p && (d2 + 1) * p <= 5 * p && (d2 < 4 ==> (d2 + 1) * p <= 4 * p) && (d2 == 4 ==> d2 * p == 4 * p)) by(nonlinear_arith)
            requires d2 < 5;
        if d1 >= 5 { crate::vfw::dm(n1, 5 * p, 1, d2 * p + r); } else { crate::vfw::dm(n1, 5 * p, 0, n1); }
        assert(n2 == d2 * p + r);
        let n3 = n2 % (4 * p);
        let d3: nat = if d2 == 4 { 0 } else { d2 };
        if d2 == 4 { crate::vfw::dm(n2, 4 * p, 1, r); } else { crate::vfw::dm(n2, 4 * p, 0, n2); }
        assert(n3 == d3 * p + r);
        crate::vfw::dm(n3, p, d3, r);
        let t = greedy(s, a + 4, r);
        assert(greedy(s, a + 3, n3) == rep(one, d3) + t);
        assert(greedy(s, a + 2, n2) == rep(four, n2 / (4 * p)) + greedy(s, a + 3, n3));
        assert(greedy(s, a + 1, n1) == rep(five, n1 / (5 * p)) + greedy(s, a + 2, n2));
        assert(greedy(s, a, n) == rep(nine, n / (9 * p)) + greedy(s, a + 1, n1));
        reveal_with_fuel(rep, 2);
        assert(greedy(s, a, n) =~= roman_digit(u, e, d) + t);
    }
    #[verifier::spinoff_prover]
    #[verifier::rlimit(100)]
    pub proof fn roman_greedy(s: Seq<(&'static str, u128)>, u: bool, n: nat)
        requires is_roman(s, u),
        ensures greedy(s, 0, n) == roman_text(u, n), greedy_rest(s, 0, n) == 0,
    {
        let m = n % 1000000;
        roman_place(s, 1, 100000, u, 5, m);
        roman_place(s, 5, 10000, u, 4, m % 100000);
        roman_place(s, 9, 1000, u, 3, m % 10000);
        roman_place(s, 13, 100, u, 2, m % 1000);
        roman_place(s, 17, 10, u, 1, m % 100);
        roman_place(s, 21, 1, u, 0, m % 10);
        roman_arith(n);
        let x = s;
        assert(greedy(s, 0, n) == rep(s[0].0@, n / 1000000) + greedy(s, 1, m));
        assert(greedy(s, 25, 0) =~= Seq::<char>::empty());
        assert(m % 1 == 0);
        assert(roman_digit(u, 0, n % 10) + Seq::<char>::empty() =~= roman_digit(u, 0, n % 10));
        rest_zero(s, 0, 24, n);
    }
    proof fn roman_arith(n: nat)
        ensures ({ let m = n % 1000000; (m % 100000 % 10000 == m % 10000 && m % 10000 % 1000 == m % 1000 && m % 1000 % 100 == m % 100 && m % 100 % 10 == m % 10) && (m / 100000 == n / 100000 % 10 && m % 100000 / 10000 == n / 10000 % 10 && m % 10000 / 1000 == n / 1000 % 10
            && m % 1000 / 100 == n / 100 % 10 && m % 100 / 10 == n / 10 % 10 && m % 10 / 1 == n % 10) }),
    {
        let m = n % 1000000;
        let (m5, m4, m3, m2) = (n % 100000, n % 10000, n % 1000, n % 100);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 100000, 10);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 10000, 100);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 1000, 1000);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 100, 10000);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 10, 100000);
        assert(m % 100000 == m5 && m % 10000 == m4 && m % 1000 == m3 && m % 100 == m2 && m % 10 == n % 10);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 10000, 10);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 1000, 10);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 100, 10);
        vstd::arithmetic::div_mod::lemma_mod_mod(n as int, 10, 10);
        assert(m5 % 10000 == m4 && m4 % 1000 == m3 && m3 % 100 == m2 && m2 % 10 == n % 10);
        nth_digit(n, 100000);
        nth_digit(n, 10000);
        nth_digit(n, 1000);
        nth_digit(n, 100);
        nth_digit(n, 10);
    }
    proof fn nth_digit(n: nat, p: nat)
        requires p > 0,
        ensures n % (p * 10) / p == n / p % 10,
    {
        vstd::arithmetic::div_mod::lemma_mod_breakdown(n as int, p as int, 10);
        let (d, r, x) = (n / p % 10, n % p, n % (p * 10));
        assert(p * 10 > 0);
        vstd::arithmetic::mul::lemma_mul_is_commutative(p as int, d as int);
        crate::vfw::dm(x, p, d, r);
    }''')
def impl(name, n, cond, spec, lemma, extra=''):
    P(f'//@ impl additive::<{name} as NominalSystem<T>>')
    P(f'    open spec fn fmt_spec(&self, n: nat) -> SRes {{ {spec("n")} }}')
    P(f'//@ fn additive::<{name} as NominalSystem<T>>::try_format_nominal | spinoff')
    P('//@ start')
    P(f'''    proof {{
        assert forall|s: AdditiveSet<{n}>| {cond} && s.zero == zero_symbol(s.symbols@) implies
            #[trigger] <AdditiveSet<{n}> as NominalSystem<T>>::fmt_spec(&s, nominal.val()) == {spec("nominal.val()")} by {{
            {lemma}
        }}
    }}''')
for name,up in (('ArmenianUpper','true'),('ArmenianLower','false')):
    impl(name,36,f'is_armenian(s.symbols@, {up})',lambda n:f'armenian_spec({up}, {n})',f'top_places(s.symbols@, 9000, 0, armenian({up}), nominal.val());')
impl('Georgian',37,'is_georgian(s.symbols@)',lambda n:f'georgian_spec({n})','top_places(s.symbols@, 10000, 1, georgian(), nominal.val());')
for name,d,m,inf in SYS:
    a=f'seq![{", ".join(map(u,d))}], seq![{", ".join(map(u,m))}], {"true" if inf else "false"}'
    P('//@ mod additive')
    P(f'    pub open spec fn tbl_{name}() -> (Seq<char>, Seq<char>, bool) {{ ({a}) }}')
    T=f'tbl_{name}()'
    a=f'{T}.0, {T}.1, {T}.2'
    impl(name,37,f'is_marked(s.symbols@, {a})',lambda n:f'marked_spec({a}, {n})',f'top_places(s.symbols@, 9000, 0, marked({a}), nominal.val());')
for name,up in (('RomanUpper','true'),('RomanLower','false')):
    impl(name,26,f'is_roman(s.symbols@, {up})',lambda n:f'roman_spec({up}, {n})',f'roman_greedy(s.symbols@, {up}, nominal.val());')
open('/verif/spec/51_additive_tables.vspec','w').write('//@ -- generated by tools/mkadditive.py\n'+'\n'.join(o)+'\n')
t='/verif/spec/99_todo.vspec'; L=open(t).read().split('\n')
oo=[];skip=False
for l in L:
    if l.startswith('//@'): skip='additive' in l
    if not skip:oo.append(l)
open(t,'w').write('\n'.join(oo))
