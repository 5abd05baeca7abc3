//@ mod hebrew
    // ---- the letters for a digit of the units, tens and hundreds
    pub open spec fn heb(e: nat, d: nat) -> Seq<char> {
        if d == 0 { Seq::<char>::empty() }
        else if e == 0 { seq![heb_units()[d - 1]] }
        else if e == 1 { seq![heb_tens()[d - 1]] }
        else { seq![heb_hundreds()[d - 1]] }
    }
    pub open spec fn heb_units() -> Seq<char> { seq!['\u{5D0}', '\u{5D1}', '\u{5D2}', '\u{5D3}', '\u{5D4}', '\u{5D5}', '\u{5D6}', '\u{5D7}', '\u{5D8}'] }
    pub open spec fn heb_tens() -> Seq<char> { seq!['\u{5D9}', '\u{5DB}', '\u{5DC}', '\u{5DE}', '\u{5E0}', '\u{5E1}', '\u{5E2}', '\u{5E4}', '\u{5E6}'] }
    pub open spec fn heb_hundreds() -> Seq<char> { seq!['\u{5E7}', '\u{5E8}', '\u{5E9}'] }
    /// 9 and 6 or 7 with gershayim between.
    pub open spec fn heb_special(m: nat) -> Seq<char> { seq!['\u{5D8}', '\u{5F4}', if m == 15 { '\u{5D5}' } else { '\u{5D6}' }] }
    pub open spec fn heb_low(m: nat) -> Seq<char> {
        if m == 15 || m == 16 { heb_special(m) } else { heb(1, m / 10) + heb(0, m % 10) }
    }
    pub open spec fn heb_body(n: nat) -> Seq<char> {
        rep(seq!['\u{5EA}'], n / 400) + (heb(2, n % 400 / 100) + heb_low(n % 100))
    }
    /// The values of the letters: the nominals written with one letter only.
    pub open spec fn one_letter(n: nat) -> bool {
        1 <= n <= 9 || n <= 90 && n % 10 == 0 || n == 100 || n == 200 || n == 300 || n == 400
    }
    pub open spec fn heb_text(n: nat) -> Seq<char> {
        if one_letter(n) { seq!['\u{5F3}'] + heb_body(n) + seq!['\u{5F4}'] } else { heb_body(n) }
    }
    pub open spec fn heb_spec(n: nat) -> SRes { if n == 0 { SRes::NoZero } else { SRes::Text(heb_text(n)) } }
    pub open spec fn is_heb(s: Seq<(char, u32)>) -> bool {
        s.len() == 22
        && s[0].1 == 400 && s[0].0 == '\u{5EA}'
        && s[1].1 == 300 && s[1].0 == '\u{5E9}'
        && s[2].1 == 200 && s[2].0 == '\u{5E8}'
        && s[3].1 == 100 && s[3].0 == '\u{5E7}'
        && s[4].1 == 90 && s[4].0 == '\u{5E6}'
        && s[5].1 == 80 && s[5].0 == '\u{5E4}'
        && s[6].1 == 70 && s[6].0 == '\u{5E2}'
        && s[7].1 == 60 && s[7].0 == '\u{5E1}'
        && s[8].1 == 50 && s[8].0 == '\u{5E0}'
        && s[9].1 == 40 && s[9].0 == '\u{5DE}'
        && s[10].1 == 30 && s[10].0 == '\u{5DC}'
        && s[11].1 == 20 && s[11].0 == '\u{5DB}'
        && s[12].1 == 10 && s[12].0 == '\u{5D9}'
        && s[13].1 == 9 && s[13].0 == '\u{5D8}'
        && s[14].1 == 8 && s[14].0 == '\u{5D7}'
        && s[15].1 == 7 && s[15].0 == '\u{5D6}'
        && s[16].1 == 6 && s[16].0 == '\u{5D5}'
        && s[17].1 == 5 && s[17].0 == '\u{5D4}'
        && s[18].1 == 4 && s[18].0 == '\u{5D3}'
        && s[19].1 == 3 && s[19].0 == '\u{5D2}'
        && s[20].1 == 2 && s[20].0 == '\u{5D1}'
        && s[21].1 == 1 && s[21].0 == '\u{5D0}'
    }
    /// What is written for n from symbol i on.
    pub open spec fn hg(s: Seq<(char, u32)>, i: nat, n: nat) -> Seq<char>
        decreases s.len() - i, n,
    {
        if i >= s.len() || s[i as int].1 == 0 { Seq::<char>::empty() }
        else if n < s[i as int].1 { hg(s, i + 1, n) }
        else if n == 15 || n == 16 { heb_special(n) }
        else { seq![s[i as int].0] + hg(s, i, (n - s[i as int].1) as nat) }
    }
    pub proof fn hg_skip(s: Seq<(char, u32)>, i: nat, j: nat, n: nat)
        requires i <= j <= s.len(), forall|k: int| i <= k < j ==> (#[trigger] s[k]).1 > n,
        ensures hg(s, i, n) == hg(s, j, n),
        decreases j - i,
    {
        if i < j { assert(s[i as int].1 > n); hg_skip(s, i + 1, j, n); }
    }
    pub proof fn hg_none(s: Seq<(char, u32)>, i: nat)
        requires i <= s.len(), is_heb(s),
        ensures hg(s, i, 0) == Seq::<char>::empty(),
        decreases s.len() - i,
    {
        if i < s.len() { assert(s[i as int].1 > 0); hg_none(s, i + 1); }
    }
    pub proof fn hg_units(s: Seq<(char, u32)>, i: nat, n: nat)
        requires is_heb(s), n < 10, i <= 13, i == 13 || s[12].1 > n,
        ensures hg(s, i, n) == heb(0, n),
    {
        if n == 0 { hg_none(s, i); } else {
            hg_skip(s, i, (22 - n) as nat, n);
            hg_none(s, (22 - n) as nat);
            assert(s[22 - n].1 == n && s[22 - n].0 == heb_units()[n - 1]);
            assert(seq![s[22 - n].0] + Seq::<char>::empty() =~= heb(0, n));
        }
    }
    pub proof fn hg_tens(s: Seq<(char, u32)>, i: nat, n: nat)
        requires is_heb(s), n < 100, i <= 4,
        ensures hg(s, i, n) == heb_low(n),
    {
        let d = n / 10;
        if d == 0 {
            hg_skip(s, i, 13, n);
            hg_units(s, 13, n);
            assert(Seq::<char>::empty() + heb(0, n) =~= heb(0, n));
        } else {
            hg_skip(s, i, (13 - d) as nat, n);
            assert(s[13 - d].1 == 10 * d && s[13 - d].0 == heb_tens()[d - 1]);
            if n != 15 && n != 16 { hg_units(s, (13 - d) as nat, n % 10); }
        }
    }
    pub proof fn hg_hundreds(s: Seq<(char, u32)>, n: nat)
        requires is_heb(s), n < 400,
        ensures hg(s, 0, n) == heb(2, n / 100) + heb_low(n % 100),
    {
        let d = n / 100;
        if d == 0 {
            hg_tens(s, 0, n);
            assert(Seq::<char>::empty() + heb_low(n) =~= heb_low(n));
        } else {
            hg_skip(s, 0, (4 - d) as nat, n);
            assert(s[4 - d].1 == 100 * d && s[4 - d].0 == heb_hundreds()[d - 1]);
            hg_tens(s, (4 - d) as nat, n % 100);
        }
    }
    pub proof fn four_hundred(n: nat, m: nat)
        requires n == m + 400,
        ensures n / 400 == m / 400 + 1, n % 400 == m % 400, n % 100 == m % 100,
    {
    }
    pub proof fn hg_all(s: Seq<(char, u32)>, n: nat)
        requires is_heb(s),
        ensures hg(s, 0, n) == heb_body(n),
        decreases n,
    {
        if n < 400 {
            hg_hundreds(s, n);
            crate::vfw::dmx(n, 400);
            assert(Seq::<char>::empty() + hg(s, 0, n) =~= hg(s, 0, n));
        } else {
            let m = (n - 400) as nat;
            hg_all(s, m);
            four_hundred(n, m);
            assert(hg(s, 0, n) == seq![s[0].0] + hg(s, 0, m));
            assert(hg(s, 0, n) =~= heb_body(n));
        }
    }
    /// When the first symbol written is worth less than n, n is not the value of any letter.
    pub proof fn several_letters(s: Seq<(char, u32)>, i: nat, n: nat)
        requires is_heb(s), i < 22, forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).1 > n, s[i as int].1 < n,
        ensures !one_letter(n),
    {
    }
    pub proof fn single_letter(s: Seq<(char, u32)>, i: nat)
        requires is_heb(s), i < 22,
        ensures one_letter(s[i as int].1 as nat), heb_body(s[i as int].1 as nat) == seq![s[i as int].0],
    {
        let v = s[i as int].1 as nat;
        hg_all(s, v);
        hg_skip(s, 0, i, v);
        hg_none(s, i);
        assert(seq![s[i as int].0] + Seq::<char>::empty() =~= seq![s[i as int].0]);
    }
//@ impl hebrew::<Hebrew as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { heb_spec(n) }
//@ fn hebrew::<Hebrew as NominalSystem<T>>::try_format_nominal | spinoff
//@ start
    let ghost n = nominal.val();
    let ghost goal = heb_text(n);
    proof { fits_small(Seq::<char>::empty()); }
//@ loophead 0
    proof {
        hg_all(__arr0@, n);
        assert(Seq::<char>::empty() + heb_body(n) =~= heb_body(n));
    }
    #[verifier::loop_isolation(true)]
//@ loop 0
    invariant_except_break
        $rem.val() == 0 ==> $acc@ == goal,
        $rem.val() > 0 ==> $acc@ + hg(__arr0@, __i0 as nat, $rem.val()) =~= heb_body(n) && (one_letter(n) ==> $acc@.len() == 0),
        $rem.val() > 0 && $acc@.len() == 0 ==> $rem.val() == n && forall|k: int| 0 <= k < __i0 ==> (#[trigger] __arr0@[k]).1 > n,
    invariant
        n == nominal.val(), n > 0, $acc.wf(), fits($acc@), __i0 <= __arr0@.len(), is_heb(__arr0@),
        goal == heb_text(n), <Self as NominalSystem<T>>::fmt_spec(self, n) == heb_spec(n),
        $c15.val() == 15,
        $c16.val() == 16,
    ensures
        $acc@ =~= goal, $acc.wf(), fits($acc@),
    decreases __arr0@.len() - __i0,
//@ loopstart 0
    proof { T::laws(); let s = __arr0@; assert(s[21].1 == 1); reveal_strlit("ט״ו"); reveal_strlit("ט״ז"); assert($acc@ + Seq::<char>::empty() =~= $acc@); }
//@ loop 1
    invariant
        $acc.wf(), fits($acc@),
        $rem.val() == 0 ==> $acc@ == goal,
        $rem.val() > 0 ==> $acc@ + hg(__arr0@, (__i0 - 1) as nat, $rem.val()) =~= heb_body(n) && (one_letter(n) ==> $acc@.len() == 0),
        $rem.val() > 0 && $acc@.len() == 0 ==> $rem.val() == n && forall|k: int| 0 <= k < __i0 - 1 ==> (#[trigger] __arr0@[k]).1 > n,
    decreases $rem.val(),
//@ loopstart 1
    proof {
        let i = (__i0 - 1) as nat;
        let s = __arr0@;
        let sym = s[i as int].0;
        let m = $rem.val();
        assert(m > 0);
        if m == 15 || m == 16 {
            if $acc@.len() == 0 { assert(m == n); }
            assert(!one_letter(n));
            assert("ט״ו"@ =~= heb_special(15) && "ט״ז"@ =~= heb_special(16));
            assert(hg(s, i, m) == heb_special(m));
            assert($acc@ + heb_special(m) =~= goal);
        } else if $acc@.len() == 0 && s[i as int].1 == m {
            single_letter(s, i);
            assert(goal =~= seq!['\u{5F3}', sym, '\u{5F4}']);
            assert($acc@ + seq!['\u{5F3}'] =~= seq!['\u{5F3}']);
            assert(seq!['\u{5F3}'] + seq![sym] =~= seq!['\u{5F3}', sym]);
            assert(seq!['\u{5F3}', sym] + seq!['\u{5F4}'] =~= goal);
            fits_small(seq!['\u{5F3}']);
            fits_small(seq!['\u{5F3}', sym]);
            fits_small(goal);
        } else {
            if $acc@.len() == 0 { several_letters(s, i, n); }
            assert(!one_letter(n));
            let rest = hg(s, i, (m - s[i as int].1) as nat);
            assert(goal =~= ($acc@ + seq![sym]) + rest);
            fits_part($acc@ + seq![sym], rest);
            if m == s[i as int].1 { hg_none(s, i); assert($acc@ + seq![sym] =~= goal); }
        }
    }
