//@ mod digital
    // ---- what positional and bijective notation mean
    /// The value of a text read as a number in base d.len().
    pub open spec fn read_back(d: Seq<char>, s: Seq<char>) -> nat
        decreases s.len(),
    {
        if s.len() == 0 { 0 } else { read_back(d, s.drop_last()) * d.len() + d.index_of(s.last()) as nat }
    }
    pub proof fn index_of_digit(d: Seq<char>, i: int)
        requires d.no_duplicates(), 0 <= i < d.len(),
        ensures d.index_of(d[i]) == i,
    {
        assert(d.contains(d[i]));
    }
    /// Reading the digits back gives the nominal, and there is no leading zero.
    pub proof fn positional_reads_back(d: Seq<char>, n: nat)
        requires d.no_duplicates(), d.len() >= 2,
        ensures read_back(d, positional(d, n)) == n, n > 0 ==> positional(d, n).len() > 0 && positional(d, n)[0] != d[0],
        decreases n,
    {
        if n > 0 {
            let k = d.len();
            let (q, r) = (n / k, n % k);
            crate::vfw::dmx(n, k);
            assert(q < n) by(nonlinear_arith) requires n == q * k + r, k >= 2, n > 0, r >= 0;
            positional_reads_back(d, q);
            index_of_digit(d, r as int);
            let s = positional(d, n);
            assert(s.drop_last() =~= positional(d, q));
            assert(s.last() == d[r as int]);
            if q == 0 { assert(positional(d, 0) =~= Seq::<char>::empty()); assert(q * k == 0) by(nonlinear_arith) requires q == 0; assert(s[0] == d[r as int]); }
        } else {
            assert(positional(d, 0) =~= Seq::<char>::empty());
        }
    }
    /// Distinct nominals have distinct texts.
    pub proof fn positional_distinct(d: Seq<char>, m: nat, n: nat)
        requires d.no_duplicates(), d.len() >= 2, positional(d, m) == positional(d, n),
        ensures m == n,
    {
        positional_reads_back(d, m);
        positional_reads_back(d, n);
    }
    /// The string after s, by length and then by the order of d.
    pub open spec fn next_string(d: Seq<char>, s: Seq<char>) -> Seq<char>
        decreases s.len(),
    {
        if s.len() == 0 { seq![d[0]] }
        else if d.index_of(s.last()) + 1 < d.len() { s.drop_last() + seq![d[d.index_of(s.last()) + 1]] }
        else { next_string(d, s.drop_last()) + seq![d[0]] }
    }
    /// Counting from the empty string, none is skipped and none comes twice.
    pub proof fn bijective_counts(d: Seq<char>, m: nat)
        requires d.no_duplicates(), d.len() >= 1,
        ensures bijective(d, 0).len() == 0, bijective(d, m + 1) == next_string(d, bijective(d, m)),
        decreases m,
    {
        let k = d.len();
        assert(bijective(d, 0) =~= Seq::<char>::empty());
        if m == 0 {
            crate::vfw::dm(0, k, 0, 0);
            assert(bijective(d, 1) =~= seq![d[0]]);
        } else {
            let p = (m - 1) as nat;
            let (q, i) = (p / k, p % k);
            crate::vfw::dmx(p, k);
            assert(q < m) by(nonlinear_arith) requires p == q * k + i, k >= 1, i >= 0, p + 1 == m;
            index_of_digit(d, i as int);
            let s = bijective(d, m);
            assert(s.drop_last() =~= bijective(d, q));
            assert(s.last() == d[i as int]);
            if i + 1 < k {
                crate::vfw::dm(m, k, q, i + 1);
            } else {
                assert((q + 1) * k == q * k + k) by(nonlinear_arith);
                crate::vfw::dm(m, k, q + 1, 0);
                bijective_counts(d, q);
            }
        }
    }
//@ mod crate
/// Two results that meet the same specification are the same, whatever carries the nominals.
pub proof fn width_results<A: Nominal, B: Nominal>(ra: Result<NominalString, Error<A>>, rb: Result<NominalString, Error<B>>, s: SRes, a: A, b: B)
    requires gives(ra, s), carries(ra, a), gives(rb, s), carries(rb, b), a.val() == b.val(),
    ensures
        ra is Ok <==> rb is Ok,
        ra is Ok ==> ra->Ok_0@ == rb->Ok_0@,
        ra is Err ==> match (ra->Err_0, rb->Err_0) {
            (Error::NoZeroSymbol, Error::NoZeroSymbol) => true,
            (Error::OutOfBounds(x), Error::OutOfBounds(y)) => x.val() == y.val() && x.val() == a.val(),
            (Error::OutOfMemory(x), Error::OutOfMemory(y)) => x.val() == y.val() && x.val() == a.val(),
            _ => false,
        },
{
}
/// No specification depends on the type that carries the nominal.
pub proof fn width_systems<A: Nominal, B: Nominal, D: DigitCollection, const N: usize, const Z: bool>(d: &D, e: &EnumeratedSet<N, Z>, n: nat)
    ensures
        <D as NominalSystem<A>>::fmt_spec(d, n) == <D as NominalSystem<B>>::fmt_spec(d, n),
        <EnumeratedSet<N, Z> as NominalSystem<A>>::fmt_spec(e, n) == <EnumeratedSet<N, Z> as NominalSystem<B>>::fmt_spec(e, n),
        <CircledNumber as NominalSystem<A>>::fmt_spec(&CircledNumber, n) == <CircledNumber as NominalSystem<B>>::fmt_spec(&CircledNumber, n),
        <DoubleCircledNumber as NominalSystem<A>>::fmt_spec(&DoubleCircledNumber, n) == <DoubleCircledNumber as NominalSystem<B>>::fmt_spec(&DoubleCircledNumber, n),
        <Ethiopic as NominalSystem<A>>::fmt_spec(&Ethiopic, n) == <Ethiopic as NominalSystem<B>>::fmt_spec(&Ethiopic, n),
        <Hebrew as NominalSystem<A>>::fmt_spec(&Hebrew, n) == <Hebrew as NominalSystem<B>>::fmt_spec(&Hebrew, n),
{
}
pub proof fn width_additive<A: Nominal, B: Nominal, const N: usize>(s: &AdditiveSet<N>, n: nat)
    ensures
        <AdditiveSet<N> as NominalSystem<A>>::fmt_spec(s, n) == <AdditiveSet<N> as NominalSystem<B>>::fmt_spec(s, n),
        <RomanUpper as NominalSystem<A>>::fmt_spec(&RomanUpper, n) == <RomanUpper as NominalSystem<B>>::fmt_spec(&RomanUpper, n),
        <RomanLower as NominalSystem<A>>::fmt_spec(&RomanLower, n) == <RomanLower as NominalSystem<B>>::fmt_spec(&RomanLower, n),
        <ArmenianUpper as NominalSystem<A>>::fmt_spec(&ArmenianUpper, n) == <ArmenianUpper as NominalSystem<B>>::fmt_spec(&ArmenianUpper, n),
        <ArmenianLower as NominalSystem<A>>::fmt_spec(&ArmenianLower, n) == <ArmenianLower as NominalSystem<B>>::fmt_spec(&ArmenianLower, n),
        <Georgian as NominalSystem<A>>::fmt_spec(&Georgian, n) == <Georgian as NominalSystem<B>>::fmt_spec(&Georgian, n),
        <JapaneseFormal as NominalSystem<A>>::fmt_spec(&JapaneseFormal, n) == <JapaneseFormal as NominalSystem<B>>::fmt_spec(&JapaneseFormal, n),
        <JapaneseInformal as NominalSystem<A>>::fmt_spec(&JapaneseInformal, n) == <JapaneseInformal as NominalSystem<B>>::fmt_spec(&JapaneseInformal, n),
        <HangeulFormal as NominalSystem<A>>::fmt_spec(&HangeulFormal, n) == <HangeulFormal as NominalSystem<B>>::fmt_spec(&HangeulFormal, n),
        <HanjaInformal as NominalSystem<A>>::fmt_spec(&HanjaInformal, n) == <HanjaInformal as NominalSystem<B>>::fmt_spec(&HanjaInformal, n),
        <HanjaFormal as NominalSystem<A>>::fmt_spec(&HanjaFormal, n) == <HanjaFormal as NominalSystem<B>>::fmt_spec(&HanjaFormal, n),
{
    crate::additive::width_set::<A, B, N>(s, n);
}
pub proof fn width_chinese<A: Nominal, B: Nominal>(a: &SimplifiedChineseInformal, b: &SimplifiedChineseFormal, c: &TraditionalChineseInformal, d: &TraditionalChineseFormal, n: nat)
    ensures
        <SimplifiedChineseInformal as NominalSystem<A>>::fmt_spec(a, n) == <SimplifiedChineseInformal as NominalSystem<B>>::fmt_spec(a, n),
        <SimplifiedChineseFormal as NominalSystem<A>>::fmt_spec(b, n) == <SimplifiedChineseFormal as NominalSystem<B>>::fmt_spec(b, n),
        <TraditionalChineseInformal as NominalSystem<A>>::fmt_spec(c, n) == <TraditionalChineseInformal as NominalSystem<B>>::fmt_spec(c, n),
        <TraditionalChineseFormal as NominalSystem<A>>::fmt_spec(d, n) == <TraditionalChineseFormal as NominalSystem<B>>::fmt_spec(d, n),
{
}
