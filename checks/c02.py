"""Unicode-set patterns denote what the notation says; flattening enumerates every combination."""
import unicodedata, itertools
from collections import Counter
from hypothesis import strategies as st
import icu
from vp.core import *
from vp.gen import *
from sldr import UnicodeSets as US

# ---- patterns as data: nested lists, rendered to text and evaluated separately
# char: ["c", ch, form]; range: ["r", a, b, forma, formb]; string: ["s", [char...]]
# class: ["k", negative, [elem...], spaces]; operation: ["o", [(op, class)...], spaces]
ESC = ('raw', 'bs', 'u', 'U', 'x', 'ub')
NAMED = {'\x07': 'a', '\x08': 'b', '\t': 't', '\n': 'n', '\x0b': 'v', '\x0c': 'f', '\r': 'r'}
SYN = set('[]{}\\&-|^$: ()')


def render_char(c, form):
    cp = ord(c)
    if form == 'bs' and c in NAMED:
        return '\\' + NAMED[c]
    if form == 'u' and cp < 0x10000:
        return '\\u{:04x}'.format(cp)
    if form == 'U':
        return '\\U{:08X}'.format(cp)
    if form == 'x' and cp < 0x100:
        return '\\x{:02x}'.format(cp)
    if form == 'ub':
        return '\\u{{{:x}}}'.format(cp)
    if form == 'edge':
        return c
    if c in SYN or (form == 'bs' and not c.isalnum()):
        return '\\' + c
    return c


DASH = ['c', '-', 'edge']


def elem():
    ch = st.builds(lambda c, f: ['c', c, f], anychar(), st.sampled_from(ESC))
    rng = st.builds(lambda a, n, f, g: ['r', a, chr(ord(a) + n), f, g],
                    st.sampled_from('abkAZ05!αаक가漢\x07\x1f ([+\U00010400'), st.integers(0, 9),
                    st.sampled_from(ESC[:5]), st.sampled_from(ESC[:5]))
    s = st.lists(st.builds(lambda c, f: [c, f], anychar(), st.sampled_from(ESC[:5])), min_size=1, max_size=4).map(lambda l: ['s', l])
    return ch, rng, s


def klass(depth=2):
    ch, rng, s = elem()
    kinds = [ch, ch, rng, s]
    if depth:
        kinds.append(klass(depth - 1))
        kinds.append(oper(depth - 1))
    # a hyphen that begins or ends a set stands for itself
    dash = st.sampled_from([0, 0, 0, 0, 1, 2])
    return st.builds(lambda l, sp, d: ['k', False, ([DASH] if d == 1 else []) + l + ([DASH] if d == 2 and l else []), sp],
                     st.lists(st.one_of(*kinds), max_size=5), st.integers(0, 255), dash)


def smallset(strings=True):
    """Sets over a tiny alphabet, so that operations meet common members"""
    c = st.builds(lambda c, f: ['c', c, f], st.sampled_from('abcde-]\\'), st.sampled_from(ESC[:5]))
    r = st.builds(lambda a, n: ['r', a, chr(ord(a) + n), 'raw', 'raw'], st.sampled_from('abc'), st.integers(0, 3))
    s = st.sampled_from(['ab', 'bc', 'a]']).map(lambda t: ['s', [[x, 'raw'] for x in t]])
    return st.builds(lambda n, l, sp: ['k', n, l, sp], st.just(False), st.lists(st.one_of(c, c, r, s if strings else c), max_size=5), st.integers(0, 255))


def negset():
    return st.builds(lambda l, sp: ['k', True, [['c', c, 'raw'] for c in l], sp],
                     st.lists(st.sampled_from('abcde'), min_size=1, max_size=4, unique=True), st.integers(0, 255))


def oper(depth=1):
    # (a complement has no strings in it)
    # positive chains, plus the two forms whose operand is a complement but whose result is not
    pos = st.builds(lambda first, rest, sp: ['o', [[None, first]] + [list(r) for r in rest], sp],
                    smallset(), st.lists(st.tuples(st.sampled_from('|&-'), smallset()), min_size=1, max_size=3), st.integers(0, 255))
    neg = st.builds(lambda a, b, op, sp: ['o', [[None, a], [op, b]], sp], smallset(False), negset(), st.sampled_from('&-'), st.integers(0, 255))
    neg2 = st.builds(lambda a, b, sp: ['o', [[None, b], ['&', a]], sp], smallset(False), negset(), st.integers(0, 255))
    neg3 = st.builds(lambda a, b, sp: ['o', [[None, a], ['-', b]], sp], negset(), negset(), st.integers(0, 255))
    return st.one_of(pos, pos, neg, neg2, neg3)


class Sp(object):
    """Spreads insignificant spaces over a rendering"""
    def __init__(self, bits):
        self.bits, self.n = bits, 0

    def __call__(self):
        self.n += 1
        return ' ' if (self.bits >> (self.n % 8)) & 1 else ''


def render(e):
    k = e[0]
    if k == 'c':
        return render_char(e[1], e[2])
    if k == 'r':
        return render_char(e[1], e[3]) + '-' + render_char(e[2], e[4])
    if k == 's':
        return '{' + "".join(render_char(c, f) for c, f in e[1]) + '}'
    if k == 'k':
        sp = Sp(e[3])
        return '[' + ('^' if e[1] else '') + sp() + "".join(render(x) + sp() for x in e[2]) + ']'
    sp = Sp(e[2])
    return '[' + sp() + "".join((op or '') + sp() + render(x) + sp() for op, x in e[1]) + ']'


def value(e):
    """(negative, members)"""
    k = e[0]
    if k == 'c':
        return False, {e[1]}
    if k == 'r':
        return False, {chr(x) for x in range(ord(e[1]), ord(e[2]) + 1)}
    if k == 's':
        return False, {"".join(c for c, f in e[1])}
    if k == 'k':
        res = set()
        for x in e[2]:
            n, v = value(x)
            assert not n
            res |= v
        return e[1], res
    n, res = value(e[1][0][1])
    for op, x in e[1][1:]:
        m, v = value(x)
        if op == '|':
            assert not n and not m
            res = res | v
        elif op == '&':
            if n: n, res = False, v - res
            elif m: res = res - v
            else: res = res & v
        elif n and m:
            n, res = False, v - res
        elif m:
            res = res & v
        else:
            res = res - v
    return n, res


def usable(e):
    """No surrogates, raw characters that would join up into another token, ..."""
    return not any(0xd800 <= ord(c) < 0xe000 for c in render(e))


def seq_strategy():
    ch, rng, s = elem()
    top = st.one_of(ch, s, klass(2), oper(2), negset())
    return st.fixed_dictionaries(dict(items=st.lists(top, max_size=5), normal=st.sampled_from([None, None, 'NFC', 'NFD'])))


def flags(e, acc):
    if e[0] in 'ko':
        for x in (e[2] if e[0] == 'k' else [y for _, y in e[1]]):
            acc.add(x[0] if x[0] != 'k' else 'nested')
            flags(x, acc)
    return acc


def run_parse(case, ctx):
    text = "".join(render(e) for e in case['items'])
    want = [value(e) for e in case['items']]
    want = [(n, v) for n, v in want if v]
    ctx.nontrivial(any(flags(e, set()) for e in case['items']))
    for e in case['items']:
        for f in flags(e, set()): ctx.label(f)
    got = call(US.parse, text, normal=case['normal'])
    if case['normal'] is None:
        eq([(bool(x.negative), sorted(x)) for x in got], [(n, sorted(v)) for n, v in want], "sets in {!r}".format(text))
        for x, (n, v) in zip(got, want):
            eq(sorted(call(x.asSet)), [] if n else sorted(v), "strings of a set in {!r}".format(text))
        # a reader taking a single list sees the first set
        for x in got:
            x.add('more')
        first = call(US.us2list, text)
        first, _ = sorted(first), first.clear()
        eq(first, sorted(want[0][1]) if want else [], "first set of {!r}".format(text))
        # what is done to the sets has no effect on reading them again
        again = call(US.parse, text)
        eq([(bool(x.negative), sorted(x)) for x in again], [(n, sorted(v)) for n, v in want], "sets in {!r}, read once more".format(text))
    else:
        nf = lambda t: unicodedata.normalize(case['normal'], t)
        eq([sorted(x) for x in got], [sorted({nf(t) for t in v}) for n, v in want], "{} sets in {!r}".format(case['normal'], text))


PWS = set('\t\n\x0b\x0c\r\x85\u2028\u2029\u200e\u200f')


def run_icu(case, ctx):
    """The same pattern means the same to ICU (no '|', which ICU does not have)"""
    text = render(case)
    ctx.nontrivial(flags(case, set()))
    try:
        want = sorted(icu.UnicodeSet(text))
    except icu.ICUError as e:
        raise HarnessError("ICU rejects {!r}: {}".format(text, e))
    got = call(US.parse, text)
    eq([sorted(x) for x in got], [want] if want else [], "{!r} against ICU".format(text))


def icu_ok(e):
    def walk(e):
        if e[0] == 'c': return e[1] not in PWS
        if e[0] == 'r': return e[1] not in PWS and e[2] not in PWS
        if e[0] == 's': return not any(c in PWS for c, f in e[1])
        if e[0] == 'k': return all(walk(x) for x in e[2])
        return all(op != '|' and walk(x) for op, x in e[1])
    return walk(e)


def icu_fix(e):
    """Make the pattern one ICU reads: | becomes juxtaposition-free &, pattern whitespace letters"""
    if e[0] == 'c':         # and \\u{..} is not one of ICU's escapes
        return ['c', e[1] if e[1] not in PWS else 'w', 'u' if e[2] == 'ub' else e[2]]
    if e[0] == 'r':
        # ICU calls a range of one character an error
        return e if not any(chr(x) in PWS for x in (ord(e[1]), ord(e[2]))) and e[1] != e[2] else ['r', 'a', 'c', 'raw', 'raw']
    if e[0] == 's':
        return ['s', [[c if c not in PWS else 'w', f] for c, f in e[1]]]
    if e[0] == 'k':
        return ['k', e[1], [icu_fix(x) for x in e[2]], e[3]]
    return ['o', [[('&' if op == '|' else op), icu_fix(x)] for op, x in e[1]], e[2]]


def flat_strategy():
    ch, rng, s = elem()
    c = st.builds(lambda c, f: ['c', c, f], st.sampled_from('abcé\\]क́'), st.sampled_from(ESC[:5]))
    k = st.builds(lambda l, sp: ['k', False, l, sp], st.lists(st.one_of(c, c, s), min_size=2, max_size=5), st.integers(0, 255))
    return st.fixed_dictionaries(dict(items=st.one_of(st.lists(st.one_of(k, k, c, s, k), min_size=2, max_size=4), st.lists(st.one_of(k, c, s), max_size=4)), normal=st.sampled_from([None, None, 'NFD'])))


def run_flat(case, ctx):
    text = "".join(render(e) for e in case['items'])
    vals = [value(e)[1] for e in case['items']]
    if any(len(t) > 1 and t[0] == '\\' and t[1].isdigit() for v in vals for t in v):
        return              # the same spelling as a reference to a group
    if case['normal']:
        vals = [{unicodedata.normalize(case['normal'], t) for t in v} for v in vals]
    ctx.label('multi %d' % sum(len(v) > 1 for v in vals))
    ctx.nontrivial(sum(len(v) > 1 for v in vals) > 1)
    want = Counter("".join(t) for t in itertools.product(*vals))
    got = Counter()
    limit = sum(want.values()) + 10

    def pull():
        for n, t in enumerate(US.flatten(text, normal=case['normal'])):
            got[t] += 1
            if n > limit:
                break
    call(pull)
    eq(sorted(got.items()), sorted(want.items()), "combinations of {!r}".format(text))


def run_struni(case, ctx):
    text = "".join(render_char(c, f if f != 'ub' else 'u') for c, f in case)
    ctx.nontrivial(any(f != 'raw' for c, f in case) and any(c == '\\' for c, f in case[:-1]))
    eq(call(US.struni, text), "".join(c for c, f in case), "decoding of {!r}".format(text))


CHECK = Check('C02', 'Unicode-set patterns mean what the notation says',
    'Patterns rendered from generated syntax trees: characters in every escape form, ranges, strings, nested sets, '
    'chains of union/intersection/difference, complements, insignificant spaces; evaluated by a reference evaluator '
    'on the tree and by ICU. Non-trivial: nested content, or several multi-valued positions (flattening), or an '
    'escaped backslash (string decoding).',
    [Sub('parse', seq_strategy, run_parse, quick=1500, thorough=25000, qshards=3),
     Sub('icu', lambda: st.one_of(klass(2), oper(1)).map(icu_fix), run_icu, quick=1500, thorough=25000, qshards=2),
     Sub('flatten', flat_strategy, run_flat, quick=1500, thorough=25000, qshards=2),
     Sub('struni', lambda: st.lists(st.tuples(st.one_of(anychar(), st.sampled_from('\\\\\\ux01a4{}')),
                                                     st.sampled_from(ESC)).map(list), max_size=8), run_struni,
         quick=1500, thorough=25000, qshards=1)],
    ['ICU 74 UnicodeSet is the reference reader of the notation',
     'complements inside another set are generated only where the result is a finite set, as the representation has no others'])
