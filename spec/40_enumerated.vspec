//@ mod enumerated
    pub open spec fn enum_spec(s: Seq<&'static str>, has_zero: bool, n: nat) -> SRes {
        if !has_zero && n == 0 { SRes::NoZero }
        else {
            let i = if has_zero { n as int } else { n - 1 };
            if i < s.len() { SRes::Text(s[i]@) } else { bounds() }
        }
    }
    /// Circled numbers 0 to 50.
    pub open spec fn circled(n: nat) -> char {
        if n == 0 { '\u{24EA}' }
        else if n <= 20 { (0x2460 + n - 1) as u32 as char }
        else if n <= 35 { (0x3251 + n - 21) as u32 as char }
        else { (0x32B1 + n - 36) as u32 as char }
    }
    /// Double circled numbers 1 to 10.
    pub open spec fn double_circled(n: nat) -> char { (0x24F5 + n - 1) as u32 as char }
    pub open spec fn is_circled(s: Seq<&'static str>) -> bool {
        s.len() == 51
        && s[0]@ =~= seq![circled(0)]
        && s[1]@ =~= seq![circled(1)]
        && s[2]@ =~= seq![circled(2)]
        && s[3]@ =~= seq![circled(3)]
        && s[4]@ =~= seq![circled(4)]
        && s[5]@ =~= seq![circled(5)]
        && s[6]@ =~= seq![circled(6)]
        && s[7]@ =~= seq![circled(7)]
        && s[8]@ =~= seq![circled(8)]
        && s[9]@ =~= seq![circled(9)]
        && s[10]@ =~= seq![circled(10)]
        && s[11]@ =~= seq![circled(11)]
        && s[12]@ =~= seq![circled(12)]
        && s[13]@ =~= seq![circled(13)]
        && s[14]@ =~= seq![circled(14)]
        && s[15]@ =~= seq![circled(15)]
        && s[16]@ =~= seq![circled(16)]
        && s[17]@ =~= seq![circled(17)]
        && s[18]@ =~= seq![circled(18)]
        && s[19]@ =~= seq![circled(19)]
        && s[20]@ =~= seq![circled(20)]
        && s[21]@ =~= seq![circled(21)]
        && s[22]@ =~= seq![circled(22)]
        && s[23]@ =~= seq![circled(23)]
        && s[24]@ =~= seq![circled(24)]
        && s[25]@ =~= seq![circled(25)]
        && s[26]@ =~= seq![circled(26)]
        && s[27]@ =~= seq![circled(27)]
        && s[28]@ =~= seq![circled(28)]
        && s[29]@ =~= seq![circled(29)]
        && s[30]@ =~= seq![circled(30)]
        && s[31]@ =~= seq![circled(31)]
        && s[32]@ =~= seq![circled(32)]
        && s[33]@ =~= seq![circled(33)]
        && s[34]@ =~= seq![circled(34)]
        && s[35]@ =~= seq![circled(35)]
        && s[36]@ =~= seq![circled(36)]
        && s[37]@ =~= seq![circled(37)]
        && s[38]@ =~= seq![circled(38)]
        && s[39]@ =~= seq![circled(39)]
        && s[40]@ =~= seq![circled(40)]
        && s[41]@ =~= seq![circled(41)]
        && s[42]@ =~= seq![circled(42)]
        && s[43]@ =~= seq![circled(43)]
        && s[44]@ =~= seq![circled(44)]
        && s[45]@ =~= seq![circled(45)]
        && s[46]@ =~= seq![circled(46)]
        && s[47]@ =~= seq![circled(47)]
        && s[48]@ =~= seq![circled(48)]
        && s[49]@ =~= seq![circled(49)]
        && s[50]@ =~= seq![circled(50)]
    }
    pub open spec fn is_double_circled(s: Seq<&'static str>) -> bool {
        s.len() == 10
        && s[0]@ =~= seq![double_circled(1)]
        && s[1]@ =~= seq![double_circled(2)]
        && s[2]@ =~= seq![double_circled(3)]
        && s[3]@ =~= seq![double_circled(4)]
        && s[4]@ =~= seq![double_circled(5)]
        && s[5]@ =~= seq![double_circled(6)]
        && s[6]@ =~= seq![double_circled(7)]
        && s[7]@ =~= seq![double_circled(8)]
        && s[8]@ =~= seq![double_circled(9)]
        && s[9]@ =~= seq![double_circled(10)]
    }
//@ fn enumerated::<EnumeratedSet<N,true>>::new
//@ spec
    ensures r.symbols == symbols,
//@ fn enumerated::<EnumeratedSet<N,false>>::zeroless
//@ spec
    ensures r.symbols == symbols,
//@ impl enumerated::<EnumeratedSet<N,HAS_ZERO> as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { enum_spec(self.symbols@, HAS_ZERO, n) }
//@ impl enumerated::<CircledNumber as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes { if n <= 50 { SRes::Text(seq![circled(n)]) } else { bounds() } }
//@ fn enumerated::<CircledNumber as NominalSystem<T>>::try_format_nominal
//@ start
    proof {
        assert forall|s: EnumeratedSet<51, true>| is_circled(s.symbols@) implies
            #[trigger] <EnumeratedSet<51, true> as NominalSystem<T>>::fmt_spec(&s, nominal.val()) == <Self as NominalSystem<T>>::fmt_spec(self, nominal.val()) by {}
    }
//@ impl enumerated::<DoubleCircledNumber as NominalSystem<T>>
    open spec fn fmt_spec(&self, n: nat) -> SRes {
        if n == 0 { SRes::NoZero } else if n <= 10 { SRes::Text(seq![double_circled(n)]) } else { bounds() }
    }
//@ fn enumerated::<DoubleCircledNumber as NominalSystem<T>>::try_format_nominal
//@ start
    proof {
        assert forall|s: EnumeratedSet<10, false>| is_double_circled(s.symbols@) implies
            #[trigger] <EnumeratedSet<10, false> as NominalSystem<T>>::fmt_spec(&s, nominal.val()) == <Self as NominalSystem<T>>::fmt_spec(self, nominal.val()) by {}
    }
