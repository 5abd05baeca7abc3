//! Generated by tools/mktables.py.
pub const NUMERIC: &[(&str, &str)] = &[
    ("Decimal", "\u{30}\u{31}\u{32}\u{33}\u{34}\u{35}\u{36}\u{37}\u{38}\u{39}"),
    ("EasternArabic", "\u{660}\u{661}\u{662}\u{663}\u{664}\u{665}\u{666}\u{667}\u{668}\u{669}"),
    ("Persian", "\u{6F0}\u{6F1}\u{6F2}\u{6F3}\u{6F4}\u{6F5}\u{6F6}\u{6F7}\u{6F8}\u{6F9}"),
    ("Bengali", "\u{9E6}\u{9E7}\u{9E8}\u{9E9}\u{9EA}\u{9EB}\u{9EC}\u{9ED}\u{9EE}\u{9EF}"),
    ("Cambodian", "\u{17E0}\u{17E1}\u{17E2}\u{17E3}\u{17E4}\u{17E5}\u{17E6}\u{17E7}\u{17E8}\u{17E9}"),
    ("Devanagari", "\u{966}\u{967}\u{968}\u{969}\u{96A}\u{96B}\u{96C}\u{96D}\u{96E}\u{96F}"),
    ("Gujarati", "\u{AE6}\u{AE7}\u{AE8}\u{AE9}\u{AEA}\u{AEB}\u{AEC}\u{AED}\u{AEE}\u{AEF}"),
    ("Gurmukhi", "\u{A66}\u{A67}\u{A68}\u{A69}\u{A6A}\u{A6B}\u{A6C}\u{A6D}\u{A6E}\u{A6F}"),
    ("Kannada", "\u{CE6}\u{CE7}\u{CE8}\u{CE9}\u{CEA}\u{CEB}\u{CEC}\u{CED}\u{CEE}\u{CEF}"),
    ("Lao", "\u{ED0}\u{ED1}\u{ED2}\u{ED3}\u{ED4}\u{ED5}\u{ED6}\u{ED7}\u{ED8}\u{ED9}"),
    ("Malayalam", "\u{D66}\u{D67}\u{D68}\u{D69}\u{D6A}\u{D6B}\u{D6C}\u{D6D}\u{D6E}\u{D6F}"),
    ("Mongolian", "\u{1810}\u{1811}\u{1812}\u{1813}\u{1814}\u{1815}\u{1816}\u{1817}\u{1818}\u{1819}"),
    ("Myanmar", "\u{1040}\u{1041}\u{1042}\u{1043}\u{1044}\u{1045}\u{1046}\u{1047}\u{1048}\u{1049}"),
    ("Oriya", "\u{B66}\u{B67}\u{B68}\u{B69}\u{B6A}\u{B6B}\u{B6C}\u{B6D}\u{B6E}\u{B6F}"),
    ("Tamil", "\u{BE6}\u{BE7}\u{BE8}\u{BE9}\u{BEA}\u{BEB}\u{BEC}\u{BED}\u{BEE}\u{BEF}"),
    ("Telugu", "\u{C66}\u{C67}\u{C68}\u{C69}\u{C6A}\u{C6B}\u{C6C}\u{C6D}\u{C6E}\u{C6F}"),
    ("Thai", "\u{E50}\u{E51}\u{E52}\u{E53}\u{E54}\u{E55}\u{E56}\u{E57}\u{E58}\u{E59}"),
    ("Tibetan", "\u{F20}\u{F21}\u{F22}\u{F23}\u{F24}\u{F25}\u{F26}\u{F27}\u{F28}\u{F29}"),
    ("CjkDecimal", "\u{3007}\u{4E00}\u{4E8C}\u{4E09}\u{56DB}\u{4E94}\u{516D}\u{4E03}\u{516B}\u{4E5D}"),
    ("HexUpper", "\u{30}\u{31}\u{32}\u{33}\u{34}\u{35}\u{36}\u{37}\u{38}\u{39}\u{41}\u{42}\u{43}\u{44}\u{45}\u{46}"),
    ("HexLower", "\u{30}\u{31}\u{32}\u{33}\u{34}\u{35}\u{36}\u{37}\u{38}\u{39}\u{61}\u{62}\u{63}\u{64}\u{65}\u{66}"),
];
pub const ALPHABETIC: &[(&str, &str)] = &[
    ("LetterUpper", "\u{41}\u{42}\u{43}\u{44}\u{45}\u{46}\u{47}\u{48}\u{49}\u{4A}\u{4B}\u{4C}\u{4D}\u{4E}\u{4F}\u{50}\u{51}\u{52}\u{53}\u{54}\u{55}\u{56}\u{57}\u{58}\u{59}\u{5A}"),
    ("LetterLower", "\u{61}\u{62}\u{63}\u{64}\u{65}\u{66}\u{67}\u{68}\u{69}\u{6A}\u{6B}\u{6C}\u{6D}\u{6E}\u{6F}\u{70}\u{71}\u{72}\u{73}\u{74}\u{75}\u{76}\u{77}\u{78}\u{79}\u{7A}"),
    ("GreekUpper", "\u{391}\u{392}\u{393}\u{394}\u{395}\u{396}\u{397}\u{398}\u{399}\u{39A}\u{39B}\u{39C}\u{39D}\u{39E}\u{39F}\u{3A0}\u{3A1}\u{3A3}\u{3A4}\u{3A5}\u{3A6}\u{3A7}\u{3A8}\u{3A9}"),
    ("GreekLower", "\u{3B1}\u{3B2}\u{3B3}\u{3B4}\u{3B5}\u{3B6}\u{3B7}\u{3B8}\u{3B9}\u{3BA}\u{3BB}\u{3BC}\u{3BD}\u{3BE}\u{3BF}\u{3C0}\u{3C1}\u{3C3}\u{3C4}\u{3C5}\u{3C6}\u{3C7}\u{3C8}\u{3C9}"),
    ("Hiragana", "\u{3042}\u{3044}\u{3046}\u{3048}\u{304A}\u{304B}\u{304D}\u{304F}\u{3051}\u{3053}\u{3055}\u{3057}\u{3059}\u{305B}\u{305D}\u{305F}\u{3061}\u{3064}\u{3066}\u{3068}\u{306A}\u{306B}\u{306C}\u{306D}\u{306E}\u{306F}\u{3072}\u{3075}\u{3078}\u{307B}\u{307E}\u{307F}\u{3080}\u{3081}\u{3082}\u{3084}\u{3086}\u{3088}\u{3089}\u{308A}\u{308B}\u{308C}\u{308D}\u{308F}\u{3092}\u{3093}"),
    ("Katakana", "\u{30A2}\u{30A4}\u{30A6}\u{30A8}\u{30AA}\u{30AB}\u{30AD}\u{30AF}\u{30B1}\u{30B3}\u{30B5}\u{30B7}\u{30B9}\u{30BB}\u{30BD}\u{30BF}\u{30C1}\u{30C4}\u{30C6}\u{30C8}\u{30CA}\u{30CB}\u{30CC}\u{30CD}\u{30CE}\u{30CF}\u{30D2}\u{30D5}\u{30D8}\u{30DB}\u{30DE}\u{30DF}\u{30E0}\u{30E1}\u{30E2}\u{30E4}\u{30E6}\u{30E8}\u{30E9}\u{30EA}\u{30EB}\u{30EC}\u{30ED}\u{30EF}\u{30F2}\u{30F3}"),
    ("HiraganaIroha", "\u{3044}\u{308D}\u{306F}\u{306B}\u{307B}\u{3078}\u{3068}\u{3061}\u{308A}\u{306C}\u{308B}\u{3092}\u{308F}\u{304B}\u{3088}\u{305F}\u{308C}\u{305D}\u{3064}\u{306D}\u{306A}\u{3089}\u{3080}\u{3046}\u{3090}\u{306E}\u{304A}\u{304F}\u{3084}\u{307E}\u{3051}\u{3075}\u{3053}\u{3048}\u{3066}\u{3042}\u{3055}\u{304D}\u{3086}\u{3081}\u{307F}\u{3057}\u{3091}\u{3072}\u{3082}\u{305B}\u{3059}"),
    ("KatakanaIroha", "\u{30A4}\u{30ED}\u{30CF}\u{30CB}\u{30DB}\u{30D8}\u{30C8}\u{30C1}\u{30EA}\u{30CC}\u{30EB}\u{30F2}\u{30EF}\u{30AB}\u{30E8}\u{30BF}\u{30EC}\u{30BD}\u{30C4}\u{30CD}\u{30CA}\u{30E9}\u{30E0}\u{30A6}\u{30F0}\u{30CE}\u{30AA}\u{30AF}\u{30E4}\u{30DE}\u{30B1}\u{30D5}\u{30B3}\u{30A8}\u{30C6}\u{30A2}\u{30B5}\u{30AD}\u{30E6}\u{30E1}\u{30DF}\u{30B7}\u{30F1}\u{30D2}\u{30E2}\u{30BB}\u{30B9}"),
    ("HangeulJamo", "\u{3131}\u{3134}\u{3137}\u{3139}\u{3141}\u{3142}\u{3145}\u{3147}\u{3148}\u{314A}\u{314B}\u{314C}\u{314D}\u{314E}"),
    ("HangeulSyllable", "\u{AC00}\u{B098}\u{B2E4}\u{B77C}\u{B9C8}\u{BC14}\u{C0AC}\u{C544}\u{C790}\u{CC28}\u{CE74}\u{D0C0}\u{D30C}\u{D558}"),
];
pub const FIXED: &[(&str, &str)] = &[
    ("CjkHeavenlyStem", "\u{7532}\u{4E59}\u{4E19}\u{4E01}\u{620A}\u{5DF1}\u{5E9A}\u{8F9B}\u{58EC}\u{7678}"),
    ("CjkEarthlyBranch", "\u{5B50}\u{4E11}\u{5BC5}\u{536F}\u{8FB0}\u{5DF3}\u{5348}\u{672A}\u{7533}\u{9149}\u{620C}\u{4EA5}"),
];
macro_rules! each_digit_system { ($m:ident) => { $m!(Decimal); $m!(EasternArabic); $m!(Persian); $m!(Bengali); $m!(Cambodian); $m!(Devanagari); $m!(Gujarati); $m!(Gurmukhi); $m!(Kannada); $m!(Lao); $m!(Malayalam); $m!(Mongolian); $m!(Myanmar); $m!(Oriya); $m!(Tamil); $m!(Telugu); $m!(Thai); $m!(Tibetan); $m!(CjkDecimal); $m!(HexUpper); $m!(HexLower); $m!(LetterUpper); $m!(LetterLower); $m!(GreekUpper); $m!(GreekLower); $m!(Hiragana); $m!(Katakana); $m!(HiraganaIroha); $m!(KatakanaIroha); $m!(HangeulJamo); $m!(HangeulSyllable); $m!(CjkHeavenlyStem); $m!(CjkEarthlyBranch); } }
pub(crate) use each_digit_system;
