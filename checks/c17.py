"""C17: a simple sort list becomes a tailoring in which its items sort as listed."""
import functools
from hypothesis import strategies as st
from vp.core import Sub, Check, call, check, eq
from vp import tailor
import icu
from sldr.collation import Collation

LETTERS = 'abcdefghijklmnopqrstuvwxyz' + 'ɓɗŋəɨꞌ'
DEVA = 'अआइईकखगघचजटडतदनपबमयरलवशसह'
ACUTE = dict(a='á', e='é', i='í', o='ó', u='ú', n='ñ', c='ç', s='š', b='b\u0303', m='m\u0303')
DIGRAPHS = ['ch', 'ng', 'dz', 'ngy', 'gb', 'kp', 'ts', 'ny', 'ꞌb', 'aa']


def upper(s):
    return s.upper()


def cases(s):
    """The case variants a letter or several letters stand for, in order"""
    return list(dict.fromkeys(s[:i].upper() + s[i:].lower() for i in range(len(s) + 1)))


@functools.lru_cache(None)
def strategy():
    item = st.tuples(st.sampled_from(LETTERS), st.integers(0, 9), st.integers(0, 7), st.sampled_from(DIGRAPHS)).map(list)
    return st.fixed_dictionaries(dict(
        items=st.lists(item, min_size=2, max_size=14, unique_by=lambda x: x[0]),
        order=st.sampled_from(['given', 'sorted', 'nearly', 'nearly']), swap=st.integers(0, 30),
        deva=st.lists(st.sampled_from(DEVA), unique=True, max_size=6), script=st.sampled_from(['latn', 'latn', 'latn', 'deva']), strict=st.sampled_from([False, False, True])))


def lines(case):
    """The list as [[sub item variants ...] ...] per line, with the text of each line"""
    if case['script'] == 'deva':
        l = list(case['deva'])
        if case['order'] != 'given':
            l.sort()
            if case['order'] == 'nearly' and len(l) > 2:
                i = case['swap'] % (len(l) - 1)
                l[i], l[i + 1] = l[i + 1], l[i]
        return [[[c]] for c in l], l
    items = case['items']
    if case['order'] != 'given':
        items = sorted(items)
        if case['order'] == 'nearly':
            x = items.pop(case['swap'] % len(items))
            items.insert(case['swap'] * 7 % (len(items) + 1), x)
    seen = set()
    res, text = [], []

    def add(subs, t):
        res.append(subs)
        text.append(t)
    for n, (c, form, extra, di) in enumerate(items):
        if c == 'ꞌ' and n == 0:
            continue
        strict = case.get('strict')
        # several letters: alone, all forms, or the first and the last of them, which stand for all
        several = lambda d: [d, '/'.join(cases(d)), '/'.join(cases(d)[::len(cases(d)) - 1])][form % (2 if strict else 3)]
        v = cases(c)
        if form == 9:       # capital first
            v = v[::-1]
        subs, t = [v], [c, '/'.join(v), '/'.join(v), '/'.join(v), ('/' if strict else ' ').join(v)][form % 5]
        if form == 9:
            t = v[0] if extra else '/'.join(v)
        a = ACUTE.get(c)
        if extra == 1 and a and form % 5 != 4:
            subs.append(cases(a) if len(a) == 1 else [a, upper(a)])
            t = '/'.join(v) + ' ' + '/'.join(subs[-1])
        if extra == 2 and form % 5 != 4 and di not in seen and res:
            seen.add(di)
            subs.append(cases(di))
            t = '/'.join(v) + ' ' + several(di)
        if extra == 6 and form % 5 != 4 and 'tc' not in seen and res:      # variants that are other letters, all of them listed
            seen.add('tc')
            subs.append(['tc', 'tj', 'TC'][:2 + form % 2])
            t = '/'.join(v) + ' ' + '/'.join(subs[-1])
        add(subs, t)
        if extra == 7 and 'hx' not in seen and res:
            seen.add('hx')
            add([['hx', 'hs', 'HX'][:2 + form % 2]], '/'.join(['hx', 'hs', 'HX'][:2 + form % 2]))
        if extra == 3 and a:
            add([cases(a) if len(a) == 1 else [a, upper(a)]], a + '/' + upper(a))
        if extra == 4 and di not in seen:
            seen.add(di)
            add([cases(di)], di + ' ' + di.upper() if form == 8 and not strict else several(di))
    return res, text


def wanted(subs):
    """All the sort elements in order, with the level at which each differs from the one before"""
    seq = []
    for line in subs:
        for i, sub in enumerate(line):
            for j, s in enumerate(sub):
                seq.append((s, 3 if j else 2 if i else 1))
    return seq


def difference(cs, a, b):
    for l in range(3):
        d = cs[l].compare(a, b)
        if d:
            return d * (l + 1)
    return 0


def collators(text):
    base = tailor.collator(text)
    check(base is not None, "ICU does not read {!r}", text)
    res = []
    for s in (icu.Collator.PRIMARY, icu.Collator.SECONDARY, icu.Collator.TERTIARY):
        c = icu.RuleBasedCollator(text)
        c.setStrength(s)
        res.append(c)
    return res


def verify(subs, out, text, first, what):
    cs = collators(out)
    seq = wanted(subs)
    level = [x[1] for x in seq]
    for i in range(first, len(seq)):
        l = 4
        for j in range(i + 1, len(seq)):
            l = min(l, level[j])
            got = difference(cs, seq[i][0], seq[j][0])
            eq(got, -l, "{}: {!r} sorts before {!r} at level {} in {}; by {!r}".format(what, seq[i][0], seq[j][0], l, ' ; '.join(text), out))


def run_listed(case, ctx):
    subs, text = lines(case)
    if len(subs) < 2:
        return
    ctx.nontrivial(len(subs) > 2)
    ctx.label('lines %d' % min(len(subs), 10))
    ctx.label('sub items' if any(len(x) > 1 for x in subs) else 'single items')
    c = Collation()
    call(c.convertSimple, list(text), strict=case.get('strict', False))
    verify(subs, call(c.asICU), text, 0, 'converted')


def run_minimised(case, ctx):
    subs, text = lines(case)
    if len(subs) < 2:
        return
    c = Collation()
    call(c.convertSimple, list(text), strict=case.get('strict', False))
    n = len(c)
    call(c.minimise)
    ctx.nontrivial(len(subs) > 2 and len(c) < n)
    ctx.label('kept %d%%' % (100 * len(c) // max(1, n) // 10 * 10))
    # the first item may be what the others are based on: what it sorts before is a recorded limit
    verify(subs, call(c.asICU), text, sum(len(x) for x in subs[0]), 'minimised')


def run_head(case, ctx):
    """The beginning of a list, where the code has recorded limits"""
    ctx.nontrivial()
    subs = [[cases(x)] for x in case['list']]
    c = Collation()
    call(c.convertSimple, list(case['list']))
    if case['minimise']:
        call(c.minimise)
    verify(subs, call(c.asICU), case['list'], 0, 'minimised' if case['minimise'] else 'converted')


HEADS = [dict(list=['ngy', 'b', 'c'], minimise=False), dict(list=['a', 'c', 'b'], minimise=False), dict(list=['c', 'a'], minimise=True),
         dict(list=['b', 'a', 'c'], minimise=True), dict(list=['b', 'c', 'a'], minimise=False), dict(list=['ch', 'd'], minimise=False),
         dict(list=['a', 'b', 'c'], minimise=True)]


CHECK = Check('C17', 'A simple sort list becomes a tailoring in which its items sort as listed',
    'Lists of letters in alphabetical, nearly alphabetical or any order, with upper case given, paired by a space or left '
    'out, accented letters, digraphs as lines of their own or as secondary items, and Devanagari lists; converted, and '
    'written as a tailoring with and without minimising. ICU compares every pair of items for sign and level. '
    'Non-trivial: more than two lines (and something minimised away).',
    [Sub('listed', strategy, run_listed, quick=300, thorough=10000, qshards=3),
     Sub('head', None, run_head, fixed=HEADS, qshards=1, tshards=1),
     Sub('minimised', strategy, run_minimised, quick=300, thorough=10000, qshards=3)],
    ['ICU 74 RuleBasedCollator is the reference for the order a tailoring defines',
     'the first item of a list is a single letter without accents', 'accented letters follow their letter',
     'minimised, the order is checked from the second line on'])
