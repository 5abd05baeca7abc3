import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["return value of the public formatting call"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NS="src/nominalstring.rs"; D="src/digital.rs"; A="src/additive.rs"; C="src/chinese.rs"; L="src/lib.rs"
p("C01","A nominal string holds exactly what was pushed, whatever the push history",
 "After any sequence of pushing a character or a string at the end, or a character at the front, on a nominal string made by any constructor (including the reverse-optimised one, and strings that have spilled to the heap), its text equals the concatenation those operations describe. With allocation available every such push succeeds.",
 ["inputs","histories"],"every constructor, every finite history of push operations, every character and string argument",
 "Tests run three pushes of ASCII letters and one overflow each; multi-byte characters, the reverse layout with pushes at both ends, and lengths near the boundary are unsampled.",
 [NS],[("push / push_str / push_front of the inline buffer","InlineString in "+NS),("spill to the heap","MaybeInline::{push,push_str,push_front} in "+NS)],
 [("inline buffer","forward or reverse layout of at most 62 initialised bytes","InlineString{length,bytes}")],["text of the NominalString through Deref<str>"])
p("C02","Text of up to 62 bytes stays inline, longer text is on the heap, none is lost",
 "A nominal string built from a string slice or by pushes is stored inline exactly as long as its text has never exceeded 62 bytes, and is heap allocated from then on; its text is valid UTF-8 read only from bytes that were written. Taking the heap string out succeeds exactly for heap allocated values, and that, cloning, and conversion to and from an owned string all preserve the text.",
 ["inputs","histories"],"every text length and every push history around and beyond the inline capacity, both layouts",
 "Tests look at one length (62 plus one ASCII byte) and never at conversions, clones or multi-byte characters straddling the capacity.",
 [NS],[("capacity comparison","MaybeInline::{push,push_str,push_front}, From<&str> in "+NS),("unsafe views of initialised bytes","InlineString::{as_bytes,as_bytes_mut,as_str} in "+NS),("conversions","try_into_string, From<NominalString> for String, From<String> in "+NS)],
 None,["is_inline, try_into_string, String::from, clone"])
p("C03","Comparing and displaying a nominal string depends only on its text",
 "Equality, ordering and display of nominal strings, among themselves and against string slices and owned strings, agree with the same operation on their text, whether a value is inline, reverse or heap allocated. In-place edits made through the mutable string view are visible afterwards and change nothing else.",
 ["inputs","histories"],"all pairs of texts and of storage layouts, all formatter options for display",
 "Tests only compare equal strings; unequal, ordered, mixed-layout comparisons and padding are never exercised.",
 [NS],[("PartialEq/Eq/PartialOrd/Ord/Display/Deref impls","trait impls in "+NS)],None,["==, cmp, partial_cmp, to_string, format width"])
p("C04","Without allocation a push fails exactly when the text would exceed 62 bytes",
 "In a build without the allocation feature, a push returns the out-of-memory error exactly when the resulting text would be longer than 62 bytes, and then the text is unchanged; otherwise it succeeds with the same text as in a build with allocation. No sequence of operations, including failed ones, corrupts the text.",
 ["inputs","histories","configurations"],"every push history, including histories that continue after failures, in the no-allocation configuration",
 "The test suite is only run with all features; the no-allocation build is merely type-checked.",
 [NS],[("cfg(not(feature = \"alloc\")) branches","MaybeInline::{push,push_str,push_front} in "+NS)],None,["Result of each push and the text afterwards, default-features=false"])
p("C05","Digit sets with a zero digit write exact positional notation",
 "Formatting n with a digit collection of N >= 2 distinct digits whose first digit stands for zero yields exactly the base-N expansion of n, most significant digit first, without leading zeros, and the zero digit alone for 0. Reading the digits back as a base-N number gives n, so distinct nominals get distinct texts.",
 ["inputs"],"every nominal of every unsigned integer type and every such collection, built in or user defined",
 "Tests format 0, 1, 12, 15 and one 32-bit hexadecimal value.",
 [D,NS],[("digit loop","impl NominalSystem for D: DigitCollection in "+D)])
p("C06","Alphabet systems enumerate every string once, zero-based or one-based",
 "For a digit collection of N >= 1 distinct symbols without a zero, the nominals 0, 1, 2, ... (or 1, 2, 3, ... when one-based) are written as the symbol strings in order of length and then of symbol order: a, b, .., z, aa, ab, .. with none skipped or repeated. In the one-based form 0, and nothing else, is reported as having no zero symbol.",
 ["inputs"],"every nominal of every width, every alphabet size and both bases of counting",
 "Tests stop at 27; carries across several positions, the largest values of each type and other alphabet sizes are not sampled.",
 [D,NS],[("decrement-per-digit loop","impl NominalSystem for D: DigitCollection in "+D),("OneBased","OneBased in "+D)])
p("C07","Fixed digit collections give one symbol, then their fallback or out-of-bounds",
 "A fixed digit collection formats each nominal within its range as its single corresponding symbol and never as two or more. Beyond the range the whole nominal is formatted by the collection's fallback, or reported out of bounds with that nominal when the fallback is empty; the Heavenly Stems (10) and Earthly Branches (12) start at 1, report 0 as having no zero symbol and fall back to CJK decimal.",
 ["inputs"],"every nominal of every width; built-in and user-defined fixed collections, zero-based, one-based and with a zero digit",
 "No test formats a fixed collection at all.",
 [D],[("fixed/fallback branch","impl NominalSystem for D: DigitCollection in "+D),("stems and branches","CjkHeavenlyStem, CjkEarthlyBranch in "+D)])
p("C08","Chaining, restricting and one-basing digit collections compose as documented",
 "Chaining gives the digits of the first collection followed by those of the second and counts like the first; restricting to k keeps the first k digits (never more than the collection has) and its way of counting, including being fixed; one-basing changes only where counting starts, and changes nothing for a collection with a zero digit or one already starting at 1. Hexadecimal is the restriction of decimal-then-letters to 16 digits.",
 ["inputs","configurations"],"every composition of adapters over every collection, every digit index and every nominal",
 "Two hexadecimal values and one alphabet are tested; nested compositions and fixed collections are not.",
 [D],[("OneBased / Chain / Restrict","adapter impls in "+D)],None,["digits, lengths and formatted texts of adapted collections"])
p("C09","Every built-in digit system uses the right symbols in the right order",
 "Each built-in digit system consists of exactly the characters of its script in order: the ten Unicode decimal digits 0-9 of the script for the numeric systems, and the documented letter sequence for the alphabetic ones, with the numeric ones having a zero digit and counting from it, and the alphabetic ones not. Aliases behave as the system they alias.",
 ["inputs"],"every built-in digit system and every digit position",
 "Tests check Decimal, the two Latin alphabets and hexadecimal only, at a handful of positions; about 30 systems have none.",
 [D],[("digit tables","impl_digit_set! invocations in "+D)])
p("C10","Additive sets write a greedy sum that is worth exactly the nominal",
 "Formatting n > 0 with an additive set yields its symbols in descending order, each repeated as often as it still fits into what remains, so that the values of the written symbols add up to exactly n. Zero yields the set's zero symbol, or is reported as having no zero symbol if it has none; an n whose remainder cannot be expressed is reported out of bounds, never written as a smaller number.",
 ["inputs"],"every nominal of every width and every additive set, including sets with values beyond the nominal's type",
 "Tests sample a few small Roman numerals; user-defined sets are not tested.",
 [A],[("greedy loop","impl NominalSystem for AdditiveSet in "+A)])
p("C11","An additive set accepts exactly the strictly descending symbol lists",
 "Creating an additive set succeeds exactly when the symbol values are strictly descending and panics otherwise, for every list length including 0 and 1. The set has a zero symbol exactly when its last value is 0.",
 ["inputs"],"every symbol list",
 "No test constructs a set that must be rejected.",
 [A],[("descending check and zero detection","AdditiveSet::new in "+A)],None,["panic or success of AdditiveSet::new; formatting of 0"])
p("C12","Roman numerals are the standard subtractive form, with overlines for thousands",
 "Every n > 0 is written as n div 1,000,000 overlined M's, then for each decimal place from 100,000 to 1 the standard Roman group of that digit, using overlined letters for 4,000, 5,000, 9,000 and 10,000 upwards. Zero is N, and the lower-case system is exactly the lower case of the upper-case one.",
 ["inputs"],"every nominal of every width (as far as the text fits in memory)",
 "Tests check 0 to 5, 4000, 4001, two and 63 million.",
 [A],[("symbol tables","RomanUpper, RomanLower in "+A)])
p("C13","Armenian and Georgian numerals use one letter per decimal place",
 "Every n from 1 to 9,999 (Georgian: 19,999) is written as one letter for each nonzero decimal place, highest first, namely the letter traditionally standing for that digit at that place, with no other characters; larger values repeat the highest letter first. Zero is reported as having no zero symbol, and the upper-case Armenian system is exactly the upper case of the lower-case one.",
 ["inputs"],"every nominal of every width",
 "No test touches these systems.",
 [A],[("symbol tables","ArmenianUpper, ArmenianLower, Georgian in "+A)])
p("C14","Japanese and Korean numerals write digit and place marker per decimal place",
 "For n from 1 to 9,999 every nonzero decimal place is written as its digit followed by the marker for thousand, hundred or ten, highest first; the informal systems drop a digit 1 before a marker and the formal ones keep it, each using its own digit and marker characters. Zero is written as the system's zero character, and larger values repeat the 9,000 group first.",
 ["inputs"],"every nominal of every width for the formal/informal Japanese, Hangeul and Hanja systems",
 "No test touches these systems.",
 [A],[("symbol tables","JapaneseFormal, JapaneseInformal, HangeulFormal, HanjaInformal, HanjaFormal in "+A)])
p("C15","Hebrew numerals are letter sums with 15/16 and single-letter exceptions",
 "Every n > 0 is written as n div 400 letters for 400 followed by the letters for the remaining hundreds, tens and units, worth exactly n, except that a remainder of 15 or 16 below the hundreds is written as 9+6 or 9+7 with gershayim between. A numeral that would be a single letter, and no other, is wrapped in its geresh and gershayim marks; 0 is reported as having no zero symbol.",
 ["inputs"],"every nominal of every width",
 "Tests check 997, 1, 15, 16 and 0.",
 ["src/hebrew.rs"],[("greedy loop with exceptions","impl NominalSystem for Hebrew in src/hebrew.rs")])
p("C16","Ethiopic numerals follow the grouping algorithm for every value",
 "Every n > 0 is written by the standard Ethiopic algorithm: two-digit groups, each as its tens and units characters (dropped when the group is zero, or is 1 and either the most significant group or an odd-positioned one, other than the lowest), followed by the hundred sign for nonzero odd-positioned groups and the ten-thousand sign for every even-positioned group except the lowest. Zero is reported as having no zero symbol.",
 ["inputs"],"every nominal of every width, any number of groups",
 "Tests check five values, at most six groups.",
 ["src/ethiopic.rs"],[("group loop","format_ethiopic in src/ethiopic.rs")])
p("C17","Chinese numerals below 10,000 mark places and collapse inner zeros",
 "For n below 10,000 every nonzero digit is written with its place marker (thousand, hundred, ten), a run of zeros between two nonzero digits is written as a single zero character, leading and trailing zeros are not written, and 0 is the zero character. The informal systems drop the digit of a leading ten (10 to 19) and nothing else; simplified, traditional, ordinary and financial variants differ only in the characters used.",
 ["inputs","configurations"],"every nominal below 10,000 of every width, all variants",
 "Tests format ten values below 10,000 and never the formal systems.",
 [C],[("four-digit formatter","format_chinese_inner in "+C),("character tables","consts in "+C)])
p("C18","Chinese numerals of the myriad, middle and long scales are exact for every value",
 "Every n from 10,000 up to the largest 128-bit value is written as the coefficient and marker of the largest marker of the scale that is not above n, followed by the rest when it is not zero, coefficient and rest being written the same way; no value is out of bounds. Between a marker and a nonzero rest exactly one zero character is written when the rest is less than a tenth of what the marker is worth, and none otherwise. Only a ten at the very start loses its digit in the informal systems.",
 ["inputs","configurations"],"every nominal of every width, three scales, all variants",
 "Tests format about twelve values of 10,000 and more; the patterns of zero digits and groups are combinatorial.",
 [C],[("rank recursion","ChineseScale::{format_scaled,format_scaled_inner,format_next_scaled_rank,format_scaled_rank} in "+C),("scale tables","MYRIAD_SCALE, MID_SCALE, LONG_SCALE in "+C)])
p("C19","The Chinese short scale marks every place and rejects what it cannot name",
 "In the short scale every n from 10,000 up to below 10^15 is written with its own marker for each decimal place, one zero character for each run of zeros between two nonzero digits, and no leading or trailing zeros. Every n of 10^15 or more is reported out of bounds with that n, in every integer type.",
 ["inputs","configurations"],"every nominal of every width, all variants",
 "Tests format about ten such values, none near the bound.",
 [C],[("short-scale loop","ChineseScale::format_short_rank in "+C),("SHORT_SCALE","const in "+C)])
p("C20","Enumerated sets return exactly the symbol at that position or the right error",
 "An enumerated set with a zero formats n as its n-th symbol counting from 0, a zeroless one as its n-th symbol counting from 1; positions past the end are reported out of bounds with that n, whatever its magnitude, and 0 in a zeroless set is reported as having no zero symbol. Circled numbers cover 0 to 50 and double circled numbers 1 to 10 with the corresponding Unicode characters.",
 ["inputs"],"every nominal of every width, every enumerated set",
 "No test touches these systems.",
 ["src/enumerated.rs"],[("lookup","impl NominalSystem for EnumeratedSet in src/enumerated.rs")])
p("C21","Formatting never fails: every error falls back to plain decimal",
 "Infallible formatting returns the fallible result when there is one and otherwise the plain decimal digits of the nominal that was asked for (0 for the missing zero symbol), for every system and every error. Errors always carry the nominal that was being formatted, and calling through a boxed or reference-counted system, or through the nominal's own methods, gives the same result as calling the system directly.",
 ["inputs","configurations"],"every system, every nominal of every width, every error variant, every way of calling",
 "Tests check one value through each smart pointer and one fallback.",
 [L],[("into_decimal / unwrap_or_decimal / with_nominal","impls in "+L),("forwarding impls","Box/Rc/Arc impls in "+L)])
p("C22","The result does not depend on the integer type carrying the nominal",
 "For any two unsigned integer types that can both represent n, every system gives the same text, or the same error apart from the carried value's type. This includes symbols, scales or digit counts that do not fit in the narrower type.",
 ["inputs","configurations"],"every system, every n and every pair of integer types containing it",
 "Tests use one width per assertion and never compare widths.",
 [L,D,A,C,"src/hebrew.rs","src/ethiopic.rs","src/enumerated.rs"],[("conversions of table values into the nominal's type","T::try_from in every formatter"),("integer impls","impl_positive_integer! in "+L)])
p("C23","Formatting always terminates without panicking",
 "For every built-in system and every well-formed user-defined collection (one whose length fits a usize, that yields a digit for every index below its length, and whose chain of fallbacks ends), formatting any nominal terminates and returns a text or an error without panicking, overflowing or indexing out of range, memory permitting. Collections that cannot express a nominal at all (no digits, or a single digit standing for zero) give an out-of-bounds error.",
 ["inputs","configurations"],"every system, every nominal of every width, every well-formed collection including empty and single-symbol ones",
 "Overflow, underflow and non-termination only show at unsampled extremes of each type.",
 [L,D,A,C,"src/hebrew.rs","src/ethiopic.rs","src/enumerated.rs"],[("loop structure and checked arithmetic","every try_format_nominal")])
p("C24","Without allocation, formatting is the same text or a clean out-of-memory error",
 "In a build without the allocation feature every system returns the same text as with allocation whenever that text is at most 62 bytes long, and otherwise returns the out-of-memory error carrying the nominal; it never panics or truncates. Infallible formatting then yields the decimal digits.",
 ["inputs","configurations"],"every system and every nominal of every width in the no-allocation configuration",
 "The test suite never runs without allocation.",
 [NS,L,D,A,C,"src/hebrew.rs","src/ethiopic.rs","src/enumerated.rs"],[("error propagation","with_nominal and map_err in every formatter")],None,["results with default-features=false"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
