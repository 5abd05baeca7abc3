#!/usr/bin/env python3
"""Writes spec/31_tables.vspec: the built-in digit systems as they should be, from Unicode and the
traditional orders of the alphabets (not from /repo)."""
import unicodedata, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def digits(script):
    return ''.join(unicodedata.lookup(f'{script} DIGIT {d}') for d in
        'ZERO ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE'.split())
num = {
 'Decimal': '0123456789',
 'EasternArabic': digits('ARABIC-INDIC'), 'Persian': digits('EXTENDED ARABIC-INDIC'),
 'Bengali': digits('BENGALI'), 'Cambodian': digits('KHMER'), 'Devanagari': digits('DEVANAGARI'),
 'Gujarati': digits('GUJARATI'), 'Gurmukhi': digits('GURMUKHI'), 'Kannada': digits('KANNADA'),
 'Lao': digits('LAO'), 'Malayalam': digits('MALAYALAM'), 'Mongolian': digits('MONGOLIAN'),
 'Myanmar': digits('MYANMAR'), 'Oriya': digits('ORIYA'), 'Tamil': digits('TAMIL'),
 'Telugu': digits('TELUGU'), 'Thai': digits('THAI'), 'Tibetan': digits('TIBETAN'),
 'CjkDecimal': '〇一二三四五六七八九',
 'HexUpper': '0123456789ABCDEF', 'HexLower': '0123456789abcdef',
}
for s in list(num.values())[:-3]:
    assert [unicodedata.digit(c) for c in s] == list(range(10))
assert [int(unicodedata.numeric(c)) for c in num['CjkDecimal']] == list(range(10))
greek = 'ALPHA BETA GAMMA DELTA EPSILON ZETA ETA THETA IOTA KAPPA LAMDA MU NU XI OMICRON PI RHO SIGMA TAU UPSILON PHI CHI PSI OMEGA'.split()
gojuon = 'A I U E O KA KI KU KE KO SA SI SU SE SO TA TI TU TE TO NA NI NU NE NO HA HI HU HE HO MA MI MU ME MO YA YU YO RA RI RU RE RO WA WO N'.split()
# i ro ha ni ho he to / chi ri nu ru wo / wa ka yo ta re so / tsu ne na ra mu / u wi no o ku ya ma / ke fu ko e te / a sa ki yu me mi shi / we hi mo se su
iroha = 'I RO HA NI HO HE TO TI RI NU RU WO WA KA YO TA RE SO TU NE NA RA MU U WI NO O KU YA MA KE HU KO E TE A SA KI YU ME MI SI WE HI MO SE SU'.split()
def kana(sc, l): return ''.join(unicodedata.lookup(f'{sc} LETTER {x}') for x in l)
jamo = 'KIYEOK NIEUN TIKEUT RIEUL MIEUM PIEUP SIOS IEUNG CIEUC CHIEUCH KHIEUKH THIEUTH PHIEUPH HIEUH'.split()
syl = 'GA NA DA RA MA BA SA A JA CA KA TA PA HA'.split()
alpha = {
 'LetterUpper': ''.join(chr(65+i) for i in range(26)), 'LetterLower': ''.join(chr(97+i) for i in range(26)),
 'GreekUpper': ''.join(unicodedata.lookup('GREEK CAPITAL LETTER '+x) for x in greek),
 'GreekLower': ''.join(unicodedata.lookup('GREEK SMALL LETTER '+x) for x in greek),
 'Hiragana': kana('HIRAGANA', gojuon), 'Katakana': kana('KATAKANA', gojuon),
 'HiraganaIroha': kana('HIRAGANA', iroha), 'KatakanaIroha': kana('KATAKANA', iroha),
 'HangeulJamo': ''.join(unicodedata.lookup('HANGUL LETTER '+x) for x in jamo),
 'HangeulSyllable': ''.join(unicodedata.lookup('HANGUL SYLLABLE '+x) for x in syl),
}
fixed = {'CjkHeavenlyStem': '甲乙丙丁戊己庚辛壬癸', 'CjkEarthlyBranch': '子丑寅卯辰巳午未申酉戌亥'}
def lit(s): return 'seq![' + ', '.join("'\\u{%X}'" % ord(c) for c in s) + ']'
if __name__ == '__main__':
    o = ['//@ -- generated by tools/mktables.py']
    for t, z in ((num, 'true'), (alpha, 'false')):
        for n, s in t.items():
            o += ['//@ mod digital', f'    pub open spec fn tbl_{n}() -> Seq<char> {{ {lit(s)} }}']
            o += [f'//@ const digital::DIGITS__{n}', '//@ spec', '    ensures',
              f'        DIGITS__{n}.s_digits() == tbl_{n}(), DIGITS__{n}.s_zero() == {z}, DIGITS__{n}.s_zbased(),',
              '//@ end', f'    proof {{ assert(r.s_digits() =~= tbl_{n}()); }}']
            o += [f'//@ impl digital::<{n} as DigitCollection>',
              '    open spec fn s_fixed(&self) -> bool { false }',
              f'    open spec fn s_zero(&self) -> bool {{ {z} }}',
              '    open spec fn s_zbased(&self) -> bool { true }',
              f'    open spec fn s_digits(&self) -> Seq<char> {{ tbl_{n}() }}',
              '    proof fn digits_len(&self) {}']
    for n, s in fixed.items():
        o += ['//@ mod digital', f'    pub open spec fn tbl_{n}() -> Seq<char> {{ {lit(s)} }}']
        o += [f'//@ impl digital::<{n} as DigitCollection>',
          '    open spec fn s_fixed(&self) -> bool { true }',
          '    open spec fn s_zero(&self) -> bool { false }',
          '    open spec fn s_zbased(&self) -> bool { false }',
          f'    open spec fn s_digits(&self) -> Seq<char> {{ tbl_{n}() }}',
          '    proof fn digits_len(&self) {}']
    open(os.path.join(here, 'spec/31_tables.vspec'), 'w').write('\n'.join(o) + '\n')
    # the same tables for the conformance harness
    h = ['//! Generated by tools/mktables.py.', 'pub const NUMERIC: &[(&str, &str)] = &[']
    esc = lambda s: '"' + ''.join('\\u{%X}' % ord(c) for c in s) + '"'
    h += [f'    ("{n}", {esc(s)}),' for n, s in num.items()] + ['];', 'pub const ALPHABETIC: &[(&str, &str)] = &[']
    h += [f'    ("{n}", {esc(s)}),' for n, s in alpha.items()] + ['];', 'pub const FIXED: &[(&str, &str)] = &[']
    h += [f'    ("{n}", {esc(s)}),' for n, s in fixed.items()] + ['];']
    h += ['macro_rules! each_digit_system { ($m:ident) => { ' + ' '.join(f'$m!({n});' for n in list(num) + list(alpha) + list(fixed)) + ' } }', 'pub(crate) use each_digit_system;']
    open(os.path.join(here, 'harness/src/tables.rs'), 'w').write('\n'.join(h) + '\n')
