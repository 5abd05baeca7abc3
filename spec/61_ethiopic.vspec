//@ mod ethiopic
    pub open spec fn eth_ones(d: nat) -> Seq<char> { if d == 0 { Seq::<char>::empty() } else { seq![(0x1369 + d - 1) as u32 as char] } }
    pub open spec fn eth_tens(d: nat) -> Seq<char> { if d == 0 { Seq::<char>::empty() } else { seq![(0x1372 + d - 1) as u32 as char] } }
    /// The digits of the group g at position k are not written.
    pub open spec fn eth_dropped(g: nat, k: nat, highest: bool) -> bool {
        g == 0 || g == 1 && k > 0 && (highest || k % 2 == 1)
    }
    pub open spec fn eth_sign(g: nat, k: nat) -> Seq<char> {
        if k == 0 { Seq::<char>::empty() }
        else if k % 2 == 0 { seq!['\u{137C}'] }
        else if g > 0 { seq!['\u{137B}'] }
        else { Seq::<char>::empty() }
    }
    /// The groups of two digits from position k up.
    pub open spec fn eth_from(n: nat, k: nat) -> Seq<char>
        decreases n,
    {
        if n == 0 { Seq::<char>::empty() } else {
            let g = n % 100;
            let drop = eth_dropped(g, k, n / 100 == 0);
            eth_from(n / 100, k + 1)
                + (if drop { Seq::<char>::empty() } else { eth_tens(g / 10) }
                + (if drop { Seq::<char>::empty() } else { eth_ones(g % 10) }
                + eth_sign(g, k)))
        }
    }
    pub open spec fn hpow(k: nat) -> nat
        decreases k,
    {
        if k == 0 { 1 } else { 100 * hpow((k - 1) as nat) }
    }
    pub proof fn eth_groups()
        ensures hpow(20) > u128::MAX,
    {
        assert(hpow(20) > u128::MAX) by (compute);
    }
//@ fn ethiopic::format_ethiopic | spinoff
//@ spec
    ensures
        r is Ok ==> r->Ok_0@ == eth_from(nominal.val(), 0) && r->Ok_0.wf() && fits(r->Ok_0@),
        r is Err ==> !fits(eth_from(nominal.val(), 0)),
//@ start
    let ghost goal = eth_from(nominal.val(), 0);
    proof { fits_small(Seq::<char>::empty()); eth_groups(); assert(goal + Seq::<char>::empty() =~= goal); }
//@ loophead 0
    #[verifier::loop_isolation(true)]
//@ loop 0
    invariant_except_break
        0 <= $idx <= 20,
        $rem.val() < hpow((20 - $idx) as nat),
        goal =~= eth_from($rem.val(), $idx as nat) + $acc@,
    invariant
        $acc.wf(), fits($acc@),
        goal == eth_from(nominal.val(), 0),
        $c10.val() == 10,
    ensures
        $acc.wf(), fits($acc@), goal =~= $acc@,
    decreases $rem.val(),
//@ loopstart 0
    proof {
        T::laws();
        let m = $rem.val();
        let k = $idx as nat;
        if m == 0 {
            assert(Seq::<char>::empty() + $acc@ =~= $acc@);
        } else {
            assert(k < 20);
            let g = m % 100;
            assert(m % 10 == g % 10 && m / 10 % 10 == g / 10 && m / 10 / 10 == m / 100 && m / 100 < m);
            crate::vfw::dm_lt(m, 100, hpow((19 - k) as nat));
            let high = eth_from(m / 100, k + 1);
            let drop = eth_dropped(g, k, m / 100 == 0);
            let (t, o, s) = (
                if drop { Seq::<char>::empty() } else { eth_tens(g / 10) },
                if drop { Seq::<char>::empty() } else { eth_ones(g % 10) },
                eth_sign(g, k),
            );
            let a = $acc@;
            assert(goal =~= (high + (t + o)) + (s + a));
            fits_part(high + (t + o), s + a);
            assert(goal =~= (high + t) + (o + (s + a)));
            fits_part(high + t, o + (s + a));
            assert(goal =~= high + (t + (o + (s + a))));
            fits_part(high, t + (o + (s + a)));
            assert(Seq::<char>::empty() + a =~= a);
            assert(Seq::<char>::empty() + (s + a) =~= s + a);
            assert(Seq::<char>::empty() + (o + (s + a)) =~= o + (s + a));
        }
    }
//@ impl ethiopic::<Ethiopic as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { if n == 0 { SRes::NoZero } else { SRes::Text(eth_from(n, 0)) } }
