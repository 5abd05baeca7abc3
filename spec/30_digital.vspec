//@ freedefault digital::DigitCollection::and
//@ freedefault digital::DigitCollection::one_based
//@ assocbound digital::DigitCollection::Fallback
FallbackSystem
//@ copydefault digital::DigitCollection::fixed
//@ copydefault digital::DigitCollection::zero_based
//@ copydefault digital::DigitCollection::is_empty
//@ trait digital::DigitCollection
    /// Only as many nominals as digits, the rest goes to the fallback.
    spec fn s_fixed(&self) -> bool;
    /// The first digit is a zero.
    spec fn s_zero(&self) -> bool;
    /// Counting starts at 0.
    spec fn s_zbased(&self) -> bool;
    spec fn s_digits(&self) -> Seq<char>;
    /// There are no more digits than `len` can say.
    open spec fn s_wf(&self) -> bool { true }
    proof fn digits_len(&self)
        requires self.s_wf(),
        ensures self.s_digits().len() <= usize::MAX, self.s_fixed() ==> <Self::Fallback as FallbackSystem>::fb_runs();
//@ fn digital::DigitCollection::fixed
//@ spec
    ensures r == self.s_fixed(),
//@ fn digital::DigitCollection::has_zero_digit
//@ spec
    ensures r == self.s_zero(),
//@ fn digital::DigitCollection::zero_based
//@ spec
    ensures r == self.s_zbased(),
//@ fn digital::DigitCollection::len
//@ spec
    requires self.s_wf(),
    ensures r == self.s_digits().len(),
//@ fn digital::DigitCollection::is_empty
//@ spec
    requires self.s_wf(),
    ensures r == (self.s_digits().len() == 0),
//@ fn digital::DigitCollection::digit
//@ spec
    requires self.s_wf(), index < self.s_digits().len(),
    ensures r == self.s_digits()[index as int],
//@ mod digital
    /// The system a fixed collection falls back to.
    pub trait FallbackSystem: Sized {
        /// Whether it is ever run.
        spec fn fb_runs() -> bool;
        spec fn fb_default() -> Self;
        spec fn fb_empty(&self) -> bool;
        spec fn fb_fmt(&self, n: nat) -> SRes;
        fn default() -> (r: Self)
            requires Self::fb_runs(),
            ensures r == Self::fb_default();
        fn is_empty(&self) -> (r: bool)
            requires Self::fb_runs(),
            ensures r == self.fb_empty();
        fn try_format_nominal<T: Nominal>(&self, nominal: T) -> (r: Result<NominalString, Error<T>>)
            requires Self::fb_runs(), !self.fb_empty(),
            ensures
                gives(r, self.fb_fmt(nominal.val())),
                carries(r, nominal);
    }
    impl FallbackSystem for CjkDecimal {
        open spec fn fb_runs() -> bool { true }
        open spec fn fb_default() -> Self { CjkDecimal }
        open spec fn fb_empty(&self) -> bool { false }
        open spec fn fb_fmt(&self, n: nat) -> SRes { digits_spec(self, n) }
        fn default() -> Self { CjkDecimal }
        fn is_empty(&self) -> bool { <Self as DigitCollection>::is_empty(self) }
        fn try_format_nominal<T: Nominal>(&self, nominal: T) -> (r: Result<NominalString, Error<T>>) {
            <Self as NominalSystem<T>>::try_format_nominal(self, nominal)
        }
    }
    impl FallbackSystem for NoFallback {
        open spec fn fb_runs() -> bool { true }
        open spec fn fb_default() -> Self { NoFallback }
        open spec fn fb_empty(&self) -> bool { true }
        open spec fn fb_fmt(&self, n: nat) -> SRes { bounds() }
        fn default() -> Self { NoFallback }
        fn is_empty(&self) -> bool { <Self as DigitCollection>::is_empty(self) }
        fn try_format_nominal<T: Nominal>(&self, nominal: T) -> (r: Result<NominalString, Error<T>>) {
            v_panic()
        }
    }
    /// Chained collections are never fixed, so their fallback is never run.
    impl<A: FallbackSystem, B: FallbackSystem> FallbackSystem for Chain<A, B> {
        open spec fn fb_runs() -> bool { false }
        open spec fn fb_default() -> Self { Chain { a: A::fb_default(), b: B::fb_default() } }
        open spec fn fb_empty(&self) -> bool { true }
        open spec fn fb_fmt(&self, n: nat) -> SRes { bounds() }
        fn default() -> Self { v_panic() }
        fn is_empty(&self) -> bool { v_panic() }
        fn try_format_nominal<T: Nominal>(&self, nominal: T) -> (r: Result<NominalString, Error<T>>) { v_panic() }
    }
    /// Base-k expansion of n, most significant digit first; empty for 0.
    pub open spec fn positional(d: Seq<char>, n: nat) -> Seq<char>
        decreases n via pos_dec
    {
        if d.len() < 2 || n == 0 { Seq::<char>::empty() } else { positional(d, n / d.len()) + seq![d[(n % d.len()) as int]] }
    }
    #[via_fn]
    proof fn pos_dec(d: Seq<char>, n: nat) {
        let k = d.len();
        if k >= 2 && n > 0 { crate::vfw::dmx(n, k); }
    }
    /// The m-th (from 1) of all nonempty strings over d, by length and then in order of d.
    pub open spec fn bijective(d: Seq<char>, m: nat) -> Seq<char>
        decreases m via bij_dec
    {
        if d.len() < 1 || m == 0 { Seq::<char>::empty() } else {
            bijective(d, (m - 1) as nat / d.len()) + seq![d[((m - 1) as nat % d.len()) as int]]
        }
    }
    #[via_fn]
    proof fn bij_dec(d: Seq<char>, m: nat) {
        let k = d.len();
        if k >= 1 && m > 0 { let p = (m - 1) as nat; crate::vfw::dmx(p, k); }
    }
    /// The text or error for n, from the properties of the collection alone.
    pub open spec fn digits_res(d: Seq<char>, zero: bool, zbased: bool, n: nat) -> SRes {
        if d.len() == 0 || (d.len() == 1 && zero && n > 0) { bounds() }
        else if zero { SRes::Text(if n == 0 { seq![d[0]] } else { positional(d, n) }) }
        else if zbased { SRes::Text(bijective(d, n + 1)) }
        else if n == 0 { SRes::NoZero }
        else { SRes::Text(bijective(d, n)) }
    }
    pub open spec fn in_range(len: nat, zero: bool, zbased: bool, n: nat) -> bool {
        if zero || zbased { n < len } else { n <= len }
    }
    pub open spec fn digits_spec<D: DigitCollection + ?Sized>(d: &D, n: nat) -> SRes {
        if d.s_fixed() && !in_range(d.s_digits().len(), d.s_zero(), d.s_zbased(), n) {
            let f = <D::Fallback as FallbackSystem>::fb_default();
            if f.fb_empty() { bounds() } else { f.fb_fmt(n) }
        } else {
            digits_res(d.s_digits(), d.s_zero(), d.s_zbased(), n)
        }
    }
    /// Below the number of digits there is one digit.
    pub proof fn one_digit(d: Seq<char>, n: nat)
        requires n < d.len(),
        ensures
            n > 0 ==> positional(d, n) == seq![d[n as int]],
            bijective(d, n + 1) == seq![d[n as int]],
    {
        let k = d.len();
        crate::vfw::dmx(n, k);
        if n > 0 {
            assert(positional(d, 0) =~= Seq::<char>::empty());
            assert(positional(d, n) =~= seq![d[n as int]]);
        }
        assert(bijective(d, 0) =~= Seq::<char>::empty());
        assert(bijective(d, n + 1) =~= seq![d[n as int]]);
    }
    pub proof fn dec_len(n: nat, k: nat)
        requires n < ipow(10, k), k >= 1,
        ensures dec(n).len() <= k, blen(dec(n)) <= 4 * k,
        decreases k,
    {
        reveal_with_fuel(ipow, 2);
        blen_one(dec_digit(n % 10));
        if n < 10 {
            assert(n % 10 == n);
        } else {
            assert(k > 1);
            assert(n / 10 < ipow(10, (k - 1) as nat)) by(nonlinear_arith) requires n < 10 * ipow(10, (k - 1) as nat);
            dec_len(n / 10, (k - 1) as nat);
            blen_add(dec(n / 10), seq![dec_digit(n % 10)]);
        }
    }
    pub proof fn dec_digit_ascii(d: nat)
        requires d < 10,
        ensures blen(seq![dec_digit(d)]) == 1,
    {
        blen_one(dec_digit(d));
        reveal(blen);
        assert((dec_digit(d) as u32) < 128);
    }
    pub proof fn dec_blen(n: nat)
        ensures blen(dec(n)) == dec(n).len(),
        decreases n,
    {
        dec_digit_ascii(n % 10);
        if n >= 10 {
            dec_blen(n / 10);
            blen_add(dec(n / 10), seq![dec_digit(n % 10)]);
        }
    }
    /// The decimal digits of every nominal can be stored.
    pub proof fn dec_fits(n: nat)
        requires n <= u128::MAX,
        ensures fits(dec(n)),
    {
        reveal(fits);
        assert(ipow(10, 39) == 1_000_000_000_000_000_000_000_000_000_000_000_000_000int) by(compute);
        dec_len(n, 39);
        dec_blen(n);
    }
    pub proof fn positional_dec(n: nat)
        ensures n > 0 ==> positional(tbl_Decimal(), n) == dec(n), n == 0 ==> seq![tbl_Decimal()[0]] == dec(n),
        decreases n,
    {
        if n > 0 {
            positional_dec(n / 10);
            if n < 10 { one_digit(tbl_Decimal(), n); }
        }
    }
    pub proof fn decimal_is_dec()
        ensures forall|n: nat| #[trigger] digits_spec(&Decimal, n) == SRes::Text(dec(n)),
    {
        assert forall|n: nat| #[trigger] digits_spec(&Decimal, n) == SRes::Text(dec(n)) by { positional_dec(n); }
    }
//@ fn digital::<DigitSet<N,true>>::new
//@ spec
    ensures r.digits == digits,
//@ fn digital::<DigitSet<N,false>>::zeroless
//@ spec
    ensures r.digits == digits,
//@ impl digital::<DigitSet<N,true> as DigitCollection>
    open spec fn s_fixed(&self) -> bool { false }
    open spec fn s_zero(&self) -> bool { true }
    open spec fn s_zbased(&self) -> bool { true }
    open spec fn s_digits(&self) -> Seq<char> { self.digits@ }
    proof fn digits_len(&self) {}
//@ impl digital::<DigitSet<N,false> as DigitCollection>
    open spec fn s_fixed(&self) -> bool { false }
    open spec fn s_zero(&self) -> bool { false }
    open spec fn s_zbased(&self) -> bool { true }
    open spec fn s_digits(&self) -> Seq<char> { self.digits@ }
    proof fn digits_len(&self) {}
//@ impl digital::<NoFallback as DigitCollection>
    open spec fn s_fixed(&self) -> bool { false }
    open spec fn s_zero(&self) -> bool { false }
    open spec fn s_zbased(&self) -> bool { true }
    open spec fn s_digits(&self) -> Seq<char> { Seq::<char>::empty() }
    proof fn digits_len(&self) {}
//@ fn digital::<OneBased<T>>::new
//@ spec
    ensures r.0 == digits,
//@ impl digital::<OneBased<T> as DigitCollection>
    open spec fn s_fixed(&self) -> bool { self.0.s_fixed() }
    open spec fn s_zero(&self) -> bool { self.0.s_zero() }
    open spec fn s_zbased(&self) -> bool { false }
    open spec fn s_digits(&self) -> Seq<char> { self.0.s_digits() }
    open spec fn s_wf(&self) -> bool { self.0.s_wf() }
    proof fn digits_len(&self) { self.0.digits_len(); }
//@ fn digital::<Chain<A,B>>::new
//@ spec
    ensures r.a == a, r.b == b,
//@ impl digital::<Chain<A,B> as DigitCollection>
    open spec fn s_fixed(&self) -> bool { false }
    open spec fn s_zero(&self) -> bool { self.a.s_zero() }
    open spec fn s_zbased(&self) -> bool { self.a.s_zbased() }
    open spec fn s_digits(&self) -> Seq<char> { self.a.s_digits() + self.b.s_digits() }
    open spec fn s_wf(&self) -> bool {
        self.a.s_wf() && self.b.s_wf() && self.a.s_digits().len() + self.b.s_digits().len() <= usize::MAX
    }
    proof fn digits_len(&self) {}
//@ fn digital::<Chain<A,B> as DigitCollection>::len
//@ start
    proof { self.digits_len(); }
//@ fn digital::<Chain<A,B> as DigitCollection>::digit
//@ start
    proof { self.digits_len(); self.a.digits_len(); }
//@ fn digital::<Restrict<T>>::new
//@ spec
    ensures r.0 == collection, r.1 == count,
//@ impl digital::<Restrict<T> as DigitCollection>
    open spec fn s_fixed(&self) -> bool { self.0.s_fixed() }
    open spec fn s_zero(&self) -> bool { self.0.s_zero() }
    open spec fn s_zbased(&self) -> bool { self.0.s_zbased() }
    open spec fn s_digits(&self) -> Seq<char> {
        self.0.s_digits().take(if self.1 < self.0.s_digits().len() { self.1 as int } else { self.0.s_digits().len() as int })
    }
    open spec fn s_wf(&self) -> bool { self.0.s_wf() }
    proof fn digits_len(&self) { self.0.digits_len(); }
//@ fn digital::DigitCollection::and
//@ spec
    ensures r.a == vself, r.b == other,
//@ fn digital::DigitCollection::one_based
//@ spec
    ensures r.0 == vself,
//@ impl digital::<D as NominalSystem<T>>
    open spec fn sys_wf(&self) -> bool { self.s_wf() }
    open spec fn fmt_spec(&self, n: nat) -> SRes { digits_spec(self, n) }
//@ fn digital::<D as NominalSystem<T>>::try_format_nominal | rlimit=50
//@ start
    let ghost d = self.s_digits();
    let ghost n = nominal.val();
    let ghost z = self.s_zero();
    let ghost goal = if z && n == 0 { seq![d[0]] } else if z { positional(d, n) } else if self.s_zbased() { bijective(d, n + 1) } else { bijective(d, n) };
    proof {
        self.digits_len();
        if n < d.len() { one_digit(d, n); }
        if n > 0 && n - 1 < d.len() { one_digit(d, (n - 1) as nat); }
        fits_small(seq![d[n as int]]);
        fits_small(seq![d[n - 1]]);
        assert forall|s: Seq<char>| #[trigger] (Seq::<char>::empty() + s) == s by { assert(Seq::<char>::empty() + s =~= s); }
        assert(goal + Seq::<char>::empty() =~= goal);
    }
//@ loop 0
    invariant
        d.len() >= 1, count.val() == d.len(), z && n > 0 ==> d.len() >= 2,
        $acc.wf(),
        $flag ==> $rem == nominal && $acc@ == Seq::<char>::empty(),
        !$flag ==> fits($acc@),
        !$flag && z ==> goal == positional(d, $rem.val()) + $acc@,
        !$flag && !z ==> goal == bijective(d, $rem.val()) + $acc@,
        !$flag && !z && !self.s_zbased() ==> n > 0,
        !$flag && n == 0 && z ==> $rem.val() == 0,
    decreases $rem.val(), (if $flag { 1int } else { 0int }),
//@ loopstart 0
    proof {
        let m = $rem.val();
        let k = d.len();
        let m1: nat = if !z && (!self.s_zbased() || !$flag) && m > 0 { (m - 1) as nat } else { m };
        let c = d[(m1 % k) as int];
        let rest = if z { positional(d, m1 / k) } else { bijective(d, m1 / k) };
        crate::vfw::dmx(m1 as nat, k as nat);
        
        if !(!z && !self.s_zbased() && m == 0) {
            if z && n == 0 {
                assert(goal =~= rest + (seq![c] + $acc@));
            } else if z {
                assert(positional(d, m) == rest + seq![c]);
                assert(goal =~= rest + (seq![c] + $acc@));
            } else {
                assert(bijective(d, m1 + 1) == rest + seq![c]);
                assert(goal =~= rest + (seq![c] + $acc@));
            }
            fits_part(rest, seq![c] + $acc@);
        }
    }
