//@ private additive::AdditiveSet
//@ mod additive
    pub open spec fn descending(s: Seq<(&'static str, u128)>) -> bool {
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 > (#[trigger] s[j]).1
    }
    pub open spec fn zero_symbol(s: Seq<(&'static str, u128)>) -> Option<&'static str> {
        if s.len() > 0 && s.last().1 == 0 { Some(s.last().0) } else { None }
    }
    impl<const N: usize> AdditiveSet<N> {
        /// Every set there is descends and has the zero symbol of its last value.
        #[verifier::type_invariant]
        spec fn inv(self) -> bool {
            descending(self.symbols@) && self.zero == zero_symbol(self.symbols@)
        }
        pub closed spec fn s_symbols(self) -> [(&'static str, u128); N] { self.symbols }
        pub closed spec fn s_zero(self) -> Option<&'static str> { self.zero }
    }
    /// What is written for n from symbol i on: each symbol as often as it still fits.
    pub open spec fn greedy(s: Seq<(&'static str, u128)>, i: nat, n: nat) -> Seq<char>
        decreases s.len() - i,
    {
        if i >= s.len() || s[i as int].1 == 0 { Seq::<char>::empty() }
        else { rep(s[i as int].0@, n / s[i as int].1 as nat) + greedy(s, i + 1, n % s[i as int].1 as nat) }
    }
    /// What is left of n after that.
    pub open spec fn greedy_rest(s: Seq<(&'static str, u128)>, i: nat, n: nat) -> nat
        decreases s.len() - i,
    {
        if i >= s.len() || s[i as int].1 == 0 { n }
        else { greedy_rest(s, i + 1, n % s[i as int].1 as nat) }
    }
    /// What the written symbols are worth.
    pub open spec fn greedy_worth(s: Seq<(&'static str, u128)>, i: nat, n: nat) -> nat
        decreases s.len() - i,
    {
        if i >= s.len() || s[i as int].1 == 0 { 0 }
        else { s[i as int].1 as nat * (n / s[i as int].1 as nat) + greedy_worth(s, i + 1, n % s[i as int].1 as nat) }
    }
    pub open spec fn additive_spec(s: Seq<(&'static str, u128)>, zero: Option<&'static str>, n: nat) -> SRes {
        if n == 0 { match zero { Some(z) => SRes::Text(z@), None => SRes::NoZero } }
        else if greedy_rest(s, 0, n) == 0 { SRes::Text(greedy(s, 0, n)) }
        else { SRes::Bounds(greedy(s, 0, n)) }
    }
    /// The written symbols are worth exactly n less what is left: no text is worth less than its nominal.
    pub proof fn greedy_exact(s: Seq<(&'static str, u128)>, i: nat, n: nat)
        ensures greedy_worth(s, i, n) + greedy_rest(s, i, n) == n,
        decreases s.len() - i,
    {
        if i < s.len() && s[i as int].1 != 0 {
            let v = s[i as int].1 as nat;
            greedy_exact(s, i + 1, n % v);
            crate::vfw::dmx(n, v);
        }
    }
    /// A set with a symbol for 1 writes every nominal.
    pub proof fn greedy_complete(s: Seq<(&'static str, u128)>, i: nat, k: nat, n: nat)
        requires i <= k < s.len(), s[k as int].1 == 1, descending(s),
        ensures greedy_rest(s, i, n) == 0,
        decreases s.len() - i,
    {
        let v = s[i as int].1 as nat;
        if i < k {
            assert(s[i as int].1 > s[k as int].1);
            greedy_complete(s, i + 1, k, n % v);
        } else {
            assert(n % 1 == 0);
            if i + 1 < s.len() { assert(s[i as int].1 > s[i as int + 1].1); }
            assert(greedy_rest(s, i + 1, 0) == 0);
            assert(n % v == 0);
        }
    }
    pub proof fn greedy_step(s: Seq<(&'static str, u128)>, i: nat, n: nat)
        requires i < s.len(),
        ensures
            n < s[i as int].1 ==> greedy(s, i, n) == greedy(s, i + 1, n) && greedy_rest(s, i, n) == greedy_rest(s, i + 1, n),
            n < s[i as int].1 ==> greedy(s, i + 1, n) == rep(s[i as int].0@, n / s[i as int].1 as nat) + greedy(s, i + 1, n % s[i as int].1 as nat),
            n < s[i as int].1 ==> n % s[i as int].1 as nat == n,
    {
        let v = s[i as int].1 as nat;
        if n < v {
            crate::vfw::dmx(n, v);
            assert(Seq::<char>::empty() + greedy(s, i + 1, n) =~= greedy(s, i + 1, n));
        }
    }
    /// Nothing more is written once nothing is left.
    pub proof fn greedy_done(s: Seq<(&'static str, u128)>, i: nat)
        ensures greedy(s, i, 0) == Seq::<char>::empty(), greedy_rest(s, i, 0) == 0,
        decreases s.len() - i,
    {
        if i < s.len() && s[i as int].1 != 0 {
            greedy_done(s, i + 1);
            crate::vfw::dmx(0, s[i as int].1 as nat);
            assert(rep(s[i as int].0@, 0) + Seq::<char>::empty() =~= Seq::<char>::empty());
        }
    }
    pub proof fn rep_step(s: Seq<char>, n: nat, v: nat)
        requires v > 0, n >= v,
        ensures rep(s, n / v) == s + rep(s, (n - v) as nat / v), n % v == (n - v) as nat % v,
    {
        let m = (n - v) as nat;
        crate::vfw::dmx(m, v);
        assert((m / v + 1) * v == (m / v) * v + v) by(nonlinear_arith);
        crate::vfw::dm(n, v, m / v + 1, m % v);
    }
    /// Whatever the integer types.
    pub proof fn width_set<A: Nominal, B: Nominal, const N: usize>(s: &AdditiveSet<N>, n: nat)
        ensures <AdditiveSet<N> as NominalSystem<A>>::fmt_spec(s, n) == <AdditiveSet<N> as NominalSystem<B>>::fmt_spec(s, n),
    {}
//@ fn additive::<AdditiveSet<N>>::new
//@ spec
    requires descending(symbols@),
    ensures r.s_symbols() == symbols, r.s_zero() == zero_symbol(symbols@),
//@ loop 0
    invariant N > 0 ==> $idx < N, N == 0 ==> $idx == 0,
    decreases N - $idx,
//@ fn additive::<AdditiveSet<N>>::new#may_panic | may_panic
//@ spec
    ensures descending(symbols@), r.s_symbols() == symbols, r.s_zero() == zero_symbol(symbols@),
//@ loop 0
    invariant
        N > 0 ==> $idx < N, N == 0 ==> $idx == 0,
        forall|a: int, b: int| 0 <= a < b <= $idx && b < N ==> (#[trigger] symbols@[a]).1 > (#[trigger] symbols@[b]).1,
    decreases N - $idx,
//@ impl additive::<AdditiveSet<N> as NominalSystem<T>>
    closed spec fn fmt_spec(&self, n: nat) -> SRes { additive_spec(self.symbols@, self.zero, n) }
//@ fn additive::<AdditiveSet<N> as NominalSystem<T>>::try_format_nominal
//@ start
    let ghost s = self.symbols@;
    let ghost n = nominal.val();
    let ghost goal = greedy(s, 0, n);
    proof {
        use_type_invariant(&*self);
        assert(Seq::<char>::empty() + goal =~= goal);
        fits_small(Seq::<char>::empty());
        assert(goal + Seq::<char>::empty() =~= goal);
        if self.zero is Some { assert(Seq::<char>::empty() + self.zero->0@ =~= self.zero->0@); }
    }
//@ loophead 0
    #[verifier::loop_isolation(true)]
//@ loop 0
    invariant_except_break
        goal == $acc@ + greedy(s, __i0 as nat, $rem.val()),
        greedy_rest(s, 0, n) == greedy_rest(s, __i0 as nat, $rem.val()),
    invariant
        n == nominal.val(), n > 0, $acc.wf(), fits($acc@), __i0 <= s.len(), __arr0@ == s, descending(s),
        goal == greedy(s, 0, n), <Self as NominalSystem<T>>::fmt_spec(self, n) == additive_spec(s, self.zero, n),
    ensures
        goal =~= $acc@, $acc.wf(), fits($acc@),
        greedy_rest(s, 0, n) == $rem.val(),
    decreases s.len() - __i0,
//@ loopstart 0
    proof {
        T::laws();
        let m = $rem.val();
        greedy_step(s, __i0 as nat, m);
        greedy_done(s, __i0 as nat);
        // a symbol for 0 is the last one
        if s[__i0 as int].1 == 0 && __i0 + 1 < s.len() {
            assert(s[__i0 as int].1 > s[__i0 + 1].1);
        }
        assert($acc@ + Seq::<char>::empty() =~= $acc@);
    }
//@ loop 1
    invariant
        $acc.wf(), fits($acc@), __arr0@[__i0 - 1].1 > 0,
        goal == $acc@ + (rep(__arr0@[__i0 - 1].0@, $rem.val() / (__arr0@[__i0 - 1].1 as nat)) + greedy(s, __i0 as nat, $rem.val() % (__arr0@[__i0 - 1].1 as nat))),
        greedy_rest(s, 0, n) == greedy_rest(s, __i0 as nat, $rem.val() % (__arr0@[__i0 - 1].1 as nat)),
    decreases $rem.val(),
//@ loopstart 1
    proof {
        let (sym, v) = (__arr0@[__i0 - 1].0@, __arr0@[__i0 - 1].1 as nat);
        let m = $rem.val();
        rep_step(sym, m, v);
        let tail = rep(sym, (m - v) as nat / v) + greedy(s, __i0 as nat, m % v);
        assert(goal =~= ($acc@ + sym) + tail);
        fits_part($acc@ + sym, tail);
        reveal(fits);
    }
//@ loopafter 1
    proof { greedy_step(s, (__i0 - 1) as nat, $rem.val()); }
