"""What each property depends on: functions under contract, verified modules, configurations."""
import json, os, re
from proof import match_any, ROOT

NS = 'nominalstring::'
STRING_OPS = [NS + '<NominalString>::*', NS + '<MaybeInline>::*', NS + '<InlineString>::*',
              NS + '<MaybeInline as Clone>::clone', NS + '<NominalString as Clone>::clone',
              NS + '<NominalString as Default>::default', NS + '<NominalString as From<*', NS + '<String as From<NominalString>>::from']
STRING_VIEW = [NS + '<NominalString as Deref>::deref', NS + '<NominalString as DerefMut>::deref_mut',
               NS + '<NominalString as PartialEq*', NS + '<NominalString as PartialOrd*', NS + '<NominalString as Ord*', NS + '<NominalString as Display>::fmt']
BLANKET = 'digital::<D as NominalSystem<T>>::try_format_nominal'
CN_CORE = ['chinese::format_chinese*', 'chinese::<ChineseScale>::*', 'chinese::<ChineseFormatError as *', 'chinese::*_SCALE']
CN_SYS = ['chinese::<SimplifiedChinese*', 'chinese::<TraditionalChinese*', 'chinese::SIMPLIFIED_*', 'chinese::TRADITIONAL_*',
          'chinese::<ChineseOptions*', 'chinese::<ChineseScale as *', 'chinese::<ChineseUsage as *']
CN_SHORT = ['chinese::<ChineseScale>::format_short_rank', 'chinese::SHORT_SCALE']
ADD = 'additive::<AdditiveSet<N> as NominalSystem<T>>::try_format_nominal'


def add(*names):
    return [f'additive::<{n} as NominalSystem<T>>::try_format_nominal' for n in names]


ALL = ['', 'nominalstring', 'digital', 'enumerated', 'additive', 'hebrew', 'ethiopic', 'chinese']

# obligations that say "does not panic, overflow, index out of range or loop forever"
SAFETY = ('possible arithmetic', 'possible division', 'possible bit shift', 'precondition not satisfied',
          'decreases not satisfied', 'could not prove termination', 'unreachable', 'index out of bounds', 'possible index')

BUILTIN = ['digital::DIGITS__*', 'digital::<* as DigitCollection>::*']
COMBINATORS = ['digital::<OneBased<*', 'digital::<Chain<*', 'digital::<Restrict<*', 'digital::DigitCollection::*', 'digital::DIGITS__HexLower', 'digital::DIGITS__HexUpper']
GENERIC_SETS = ['digital::<DigitSet<*', 'digital::<NoFallback as *']
FIXED = ['digital::<CjkHeavenlyStem as *', 'digital::<CjkEarthlyBranch as *', 'digital::DIGITS__CjkHeavenlyStem', 'digital::DIGITS__CjkEarthlyBranch']

PROPS = {
    'C01': dict(modules=['nominalstring'], unsafe=True, functions=STRING_OPS),
    'C02': dict(modules=['nominalstring'], unsafe=True, functions=STRING_OPS),
    'C03': dict(modules=['nominalstring'], unsafe=True, functions=STRING_VIEW + [NS + '<MaybeInline>::as_str*', NS + '<InlineString>::as_*', NS + '<InlineString>::data_offset']),
    'C04': dict(modules=['nominalstring'], unsafe=True, functions=STRING_OPS, cfgs=['noalloc'], run=['noalloc']),
    'C05': dict(modules=['digital'], functions=[BLANKET] + GENERIC_SETS, lemmas=['positional*', 'one_digit', 'index_of_digit']),
    'C06': dict(modules=['digital'], functions=[BLANKET] + GENERIC_SETS + ['digital::<OneBased<*'], lemmas=['bijective*', 'one_digit', 'index_of_digit']),
    'C07': dict(modules=['digital'], functions=[BLANKET] + FIXED, lemmas=[]),
    'C08': dict(modules=['digital'], functions=COMBINATORS),
    'C09': dict(modules=['digital'], functions=BUILTIN, exclude=COMBINATORS[:4] + GENERIC_SETS),
    'C10': dict(modules=['additive'], functions=[ADD], lemmas=['greedy*']),
    'C11': dict(modules=['additive'], functions=['additive::<AdditiveSet<N>>::new*']),
    'C12': dict(modules=['additive'], functions=add('RomanUpper', 'RomanLower'), lemmas=['roman*', 'greedy_step']),
    'C13': dict(modules=['additive'], functions=add('ArmenianUpper', 'ArmenianLower', 'Georgian'), lemmas=['place*', 'top_places', 'lemma_rest', 'rest_zero']),
    'C14': dict(modules=['additive'], functions=add('JapaneseFormal', 'JapaneseInformal', 'HangeulFormal', 'HanjaFormal', 'HanjaInformal'), lemmas=['place*', 'top_places', 'lemma_rest', 'rest_zero']),
    'C15': dict(modules=['hebrew'], functions=['hebrew::*'], lemmas=['hg_*', 'several_letters', 'single_letter']),
    'C16': dict(modules=['ethiopic'], functions=['ethiopic::*'], lemmas=['eth*']),
    'C17': dict(modules=['chinese'], functions=['chinese::format_chinese*'] + CN_SYS, lemmas=['tables', 'st_*', 'small_text']),
    'C18': dict(modules=['chinese'], functions=CN_CORE + CN_SYS, exclude=CN_SHORT, lemmas=['tables', 'wr_at', 'top_is', 'scale*', 'coefficient_rank', 'largest_marker', 'tenth']),
    'C19': dict(modules=['chinese'], functions=CN_SHORT + ['chinese::format_chinese*', 'chinese::<ChineseScale>::format'] + CN_SYS, lemmas=['tables', 'short_step', 'scale_step*']),
    'C20': dict(modules=['enumerated'], functions=['enumerated::*']),
    'C21': dict(modules=ALL, run=['alloc', 'noalloc'], functions=['crate::NominalSystem::*', 'crate::<*Box<*', 'crate::<*Rc<*', 'crate::<*Arc<*', 'crate::Nominal::*',
                                        'crate::<Error<T>>::into_decimal', 'crate::<*UnwrapOrDecimal>::*', 'crate::<*WithNominal<R>>::*']),
    'C22': dict(modules=ALL, functions=['crate::<* as UnsignedInteger>::*', 'crate::<*UnsignedInteger>*'], lemmas=['width*', 'laws', 'int_conversions'], depends=['*try_format_nominal'], every=True),
    'C23': dict(modules=ALL, functions=['*'], kinds=SAFETY, every=True),
    'C24': dict(modules=ALL, functions=['*'], kinds=None, cfgs=['alloc', 'noalloc'], run=['noalloc'], only_new_in='noalloc', every=True),
}
# properties that say which nominal an error carries
FORMATTERS = ['*try_format_nominal', 'chinese::format_chinese', 'crate::Nominal::*']
for _p in ('C07', 'C19', 'C20'):
    PROPS[_p]['carries'] = PROPS[_p]['functions']
for _p in ('C21', 'C24'):
    PROPS[_p]['carries'] = FORMATTERS
for _p, _d in PROPS.items():
    _d.setdefault('cfgs', ['alloc'])
    _d.setdefault('run', ['alloc'])
    _d.setdefault('thorough_cfgs', ['alloc', 'noalloc'])
    _d.setdefault('thorough_run', ['alloc', 'noalloc'] if _p not in ('C02', 'C04', 'C24') else _d['run'])
    if _p == 'C04':
        _d['thorough_cfgs'] = ['noalloc']


def direct(P, key):
    if key.startswith('lemma '):
        return match_any(P.get('lemmas', []), key[6:])
    return match_any(P['functions'], key) and not match_any(P.get('exclude', []), key)


def split_failures(prop, P, result, elsewhere=()):
    """(obligations whose failure breaks this property, {function: why it is only bounded}).

    elsewhere: functions that fail, or are out of reach, in the other configuration too."""
    mine, bounded = [], {}
    known = {f['key']: f for f in result.map['functions']}
    names = {}
    for f in result.map['functions']:
        names.setdefault(f['key'].split('::')[-1], []).append(f)
    for key, why in result.degraded.items():
        if direct(P, key) or match_any(P.get('depends', []) + P.get('carries', []), key):
            bounded[key] = why
    for key, fn in known.items():
        if direct(P, key) and uncontracted(fn) and not fn['external']:
            bounded[key] = 'a function without a contract'
    for f in result.failures:
        key = f['key']
        if f.get('clause', '').startswith('carries('):
            # "the error carries the nominal" is a clause of its own in every contract
            why = out_of_reach(known.get(key), names)
            if match_any(P.get('carries', []), key) and not f.get('limit') and not why:
                mine.append(f)
            elif direct(P, key) or match_any(P.get('depends', []) + P.get('carries', []), key):
                bounded[key] = 'the nominal carried by the error: ' + (why or 'not discharged')
            continue
        if not direct(P, key):
            # a lemma or a contract this property rests on
            if key.startswith('lemma ') or match_any(P.get('depends', []), key):
                bounded[key] = 'not discharged: ' + f['message']
            continue
        if f.get('limit'):
            bounded[key] = 'the solver ran out of resources'
            continue
        if key in elsewhere:
            bounded[key] = 'not discharged in either configuration: ' + f['message']
            continue
        kinds = P.get('kinds')
        if kinds and not any(f['message'].startswith(k) for k in kinds):
            bounded[key] = 'other obligations of this function are not discharged: ' + f['message']
            continue
        why = out_of_reach(known.get(key), names)
        if why:
            bounded[key] = f'{why}: {f["message"]}'
            continue
        mine.append(f)
    return mine, bounded


def out_of_reach(fn, names):
    """Why a failing proof of fn says nothing about the code, if it does not."""
    if uncontracted(fn):
        return 'a function without a contract'
    why = reshaped(fn, names)
    if why:
        return why
    helper = uncontracted_callee(fn, names)
    return f'calls {helper}, which has no contract' if helper else None


def uncontracted(fn):
    """A function that is new in the code: nothing is known about its arguments."""
    if not fn or fn['contracted'] or fn['key'].split('::')[-1].isupper():
        return False
    return ' as ' not in fn['key'] or new_trait(fn)


def new_trait(fn):
    """A method of a trait that had no implementation in the code the contracts were written for."""
    return fn['key'] not in SHAPES and trait_of(fn['key']) not in TRAITS


def trait_of(key):
    m = re.search(r' as (?:\w+::)*(\w+)', key)
    return m and m.group(1)


SHAPES = json.load(open(os.path.join(ROOT, 'spec', 'shapes.json'), encoding='utf-8'))
TRAITS = {trait_of(k) for k in SHAPES}


def reshaped(fn, names):
    """Contracts are written against the loops and the parameters the code has; with others, a
    failing proof says nothing about the code."""
    if not fn:
        return None
    was = SHAPES.get(fn['key'])
    if was and was['loops'] != fn['loop_forms']:
        return f"its loops are now ({fn['loop_forms']}), the invariants are for ({was['loops']})"
    for c in [fn] + [g for n in fn.get('calls', []) for g in names.get(n, [])]:
        was = SHAPES.get(c['key'])
        if was and was['sig'] != c['sig'] and ' as ' not in c['key']:
            return f"the parameters of {c['key']} are others than in its contract"
    return None


def uncontracted_callee(fn, names):
    """A function of the crate without a contract that `fn` calls: its caller cannot be proved."""
    if not fn:
        return None
    if fn.get('closures', 0) > (SHAPES.get(fn['key']) or {}).get('closures', 0):
        return 'a closure'
    for c in fn.get('calls', []):
        cands = names.get(c, [])
        if cands and all(new_trait(g) and ' as ' in g['key'] for g in cands):
            return cands[0]['key']
        # trait methods carry the contract of the trait
        plain = [g for g in cands if ' as ' not in g['key'] and g['key'] != fn['key']]
        if plain and not any(g['contracted'] or ' as ' in g['key'] for g in cands) and all(not g['contracted'] for g in plain):
            return plain[0]['key']
    return None


def siblings(prop, failed):
    """Other properties that depend on the functions whose obligations failed."""
    out = []
    for q, Q in PROPS.items():
        if q == prop or Q.get('every'):
            continue
        if any(direct(Q, f['key']) for f in failed):
            out.append(q)
    return out


def units(P, result):
    """Verification units of the modules this property is anchored in."""
    u = {'units': 0, 'discharged': 0, 'smt_seconds': 0.0, 'functions': []}
    smt = result.times.get('smt', {})
    for mod in smt.get('smt-run-module-times', []):
        for f in mod.get('function-breakdown', []):
            u['units'] += 1
            u['discharged'] += 1 if f.get('success') else 0
            u['smt_seconds'] += f.get('time-micros', f.get('time', 0) * 1000) / 1e6
    bad = {f['key'] for f in result.failures} | set(result.degraded)
    for f in result.map['functions']:
        if (direct(P, f['key']) or match_any(P.get('carries', []), f['key'])) and f['key'] not in bad and not f['external'] and not f['degraded'] and (f['contracted'] or ' as ' in f['key']):
            u['functions'].append(f['key'])
    return u


def canary(P, result):
    """With `assert(false)` first in every body, each body has to fail: no precondition excludes
    every call and no assumption contradicts another. One is meant to have no call."""
    hit = {f['key'] for f in result.failures if 'assertion failed' in f['message']}
    fns = [f['key'] for f in result.map['functions'] if f['sig'] and not f['external'] and not f['degraded']
           and (P['modules'] is None or (f['key'].split('::')[0] if '::' in f['key'] and not f['key'].startswith('<') else '') in P['modules'])]
    return {'bodies_with_a_false_assertion': len(fns), 'rejected': len([k for k in fns if k in hit]),
            'accepted': [k for k in fns if k not in hit]}


def _read(name):
    return open(os.path.join(ROOT, 'spec', name), encoding='utf-8').read()


def trusted(P):
    out = []
    t = _read('prelude.rs')
    for m in re.finditer(r'pub assume_specification(?:<.*?>)?\[\s*(.*?)\s*\]\(', t):
        out.append('assumed contract on the standard library: ' + m.group(1))
    for m in re.finditer(r'pub axiom fn (\w+)', t):
        out.append('axiom: ' + m.group(1))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:const )?(fn|struct) (\w+)', t):
        out.append('unverified stand-in for unsafe or unsupported code: ' + m.group(2))
    for n in sorted(os.listdir(os.path.join(ROOT, 'spec'))):
        if n.endswith('.vspec'):
            for m in re.finditer(r'(?<!\w)(?:assume|admit)\(.*', _read(n)):
                out.append(f'{n}: {m.group(0).strip()}')
    out.append('Verus, its SMT solver and rustc; the contracts vstd assumes for the standard library')
    out.append('the extraction of /verif/extract (macro expansion by rustc, rewriting rules R1-R18, listed in DESIGN.md)')
    return out


def assumptions(P):
    return [
        'integers: machine arithmetic is checked for overflow in every function under contract, nothing is treated as mathematical',
        'unsafe code of nominalstring.rs is verified through the pointer and MaybeUninit stand-ins of prelude.rs, which state the documented preconditions of the operations they replace',
        'user-defined digit collections and systems are assumed to meet the trait contracts (UnsignedInteger is sealed: its six implementors are the crate\'s, and verified)',
        'Debug implementations are outside the extraction; that what str displays is what the formatter asks for is the standard library\'s',
        'memory is not exhausted where the allocation feature is on',
    ]
