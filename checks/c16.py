"""C16: sort keys order strings as the collation element table and the tailoring say."""
import functools, os, re, unicodedata
from hypothesis import strategies as st
from vp.core import Sub, Check, call, check, eq
from vp import tailor
import icu
from sldr import collation
from sldr.collation import Collation, SortKey, diffLevel, cmpKey

CHUNK = 100
TABLE = '/repo/lib/sldr/allkeys.txt'


@functools.lru_cache(None)
def table():
    """The table read by this check's own reader: string -> collation elements"""
    res = {}
    for line in open(TABLE, encoding='utf-8'):
        line = line.split('#')[0].strip()
        if not line or line[0] == '@':
            continue
        k, v = line.split(';')
        res[''.join(chr(int(x, 16)) for x in k.split())] = \
            [tuple(int(x, 16) for x in m.split('.')) for m in re.findall(r'\[[.*]([0-9A-F.]+)\]', v)]
    return res


@functools.lru_cache(None)
def clobbered():
    """Strings the code reads wrongly because it knows four digits of a code point only: a recorded finding"""
    first = {}
    for k in table():
        if any(ord(c) > 0xFFFF for c in k):
            first["".join("".join(chr(int(x, 16)) for x in re.findall('[0-9A-F]{4}', '%04X' % ord(c))) for c in k)] = 1
    return first


def implicit(c):
    i = ord(c)
    if 0x17000 <= i <= 0x18AFF:
        return [(0xFB00, 0x20, 2), ((i - 0x17000) | 0x8000, 0, 0)]
    name = unicodedata.name(c, '')
    if not name.startswith('CJK UNIFIED'):
        base = 0xFBC0
    elif 0x4E00 <= i <= 0x9FFF or 0xFA0E <= i <= 0xFA29:
        base = 0xFB40
    else:
        base = 0xFB80
    return [(base + (i >> 15), 0x20, 2), ((i & 0x7FFF) | 0x8000, 0, 0)]


def elements(s):
    t = table()
    res = []
    i = 0
    while i < len(s):
        for n in range(min(3, len(s) - i), 0, -1):
            if s[i:i + n] in t:
                res += t[s[i:i + n]]
                break
        else:
            d = unicodedata.normalize('NFD', s[i])
            n = 1
            if d != s[i]:
                res += elements(d)
            else:
                res += implicit(s[i])
        i += n
    return res


def weights(s):
    e = elements(s)
    return [[x[l] for x in e if x[l]] for l in range(3)]


def reference(a, b):
    """level of the first difference, negative if a sorts first; 0 if none"""
    for l, (x, y) in enumerate(zip(weights(a), weights(b))):
        if x != y:
            return -(l + 1) if x < y else l + 1
    return 0


@functools.lru_cache(None)
def chars():
    c = clobbered()
    singles = [k for k in table() if len(k) == 1 and ord(k) < 0x10000 and k not in c]
    multi = [k for k in table() if len(k) > 1 and all(ord(x) < 0x10000 and x not in c for x in k) and k not in c]
    pick = [k for k in singles if k.isalpha() or unicodedata.category(k)[0] == 'M']
    return singles, multi, pick


LONG = '\ufdfa\ufdfb\u3300\u2475\u33a8\ufe77\u1e9e'     # of many elements


def string():
    singles, multi, pick = chars()
    common = st.sampled_from("aAbBcdeéèÀñzŊŋ\u0301\u0303\u0323æ-_ 1२ä\u00ad")
    return st.lists(st.one_of(common, common, st.sampled_from(pick), st.sampled_from(multi), st.sampled_from(singles),
                              st.sampled_from(LONG), st.sampled_from("你一鿿㐀\U00020000가힣\ue123\uf8ff\ufa0e\U00017000\u0378")), min_size=1, max_size=6).map("".join)


def near(s, kind, n, c):
    i = n % len(s)
    if kind == 0:
        return s[:i] + c + s[i + 1:]
    if kind == 1:
        return s[:i] + s[i:].swapcase()
    if kind == 2:
        return s + c
    if kind == 3:
        return s[:i + 1] + '\u0301' + s[i + 1:]
    if kind == 4:
        return unicodedata.normalize('NFD', s)
    return c


def pair():
    return st.fixed_dictionaries(dict(a=string(), kind=st.integers(0, 5), n=st.integers(0, 5), c=string()))


def pick(case):
    return case['a'], near(case['a'], case['kind'], case['n'], case['c'])


@functools.lru_cache(None)
def plain():
    return Collation()


def skip(s):
    """A lone character of no weight at all keeps its zeros, by design: it is never compared alone here"""
    return not any(weights(s)[l] for l in range(3)) or len(s) == 1 and not all(weights(s))


def run_ducet(case, ctx):
    a, b = pick(case)
    c = plain()
    if skip(a) or skip(b) or any(c in clobbered() or ord(c) > 0xFFFF and c in table() for c in a + b):
        return
    want = reference(a, b)
    ctx.label('level %d' % abs(want))
    ctx.nontrivial(a != b and len(a) > 1)
    ka, kb = call(c.getSortKey, a), call(c.getSortKey, b)
    eq(call(ka.cmp, kb), want, "comparison of {!r} with {!r}".format(a, b))
    eq((ka < kb, ka == kb, ka > kb, ka <= kb, ka >= kb, ka != kb),
       (want < 0, want == 0, want > 0, want <= 0, want >= 0, want != 0), "<, ==, >, <=, >=, != of {!r} and {!r}".format(a, b))
    eq(diffLevel(ka, kb), -want or 4, "level of difference between {!r} and {!r}".format(a, b))
    for l in (1, 2, 3):
        eq(cmpKey(ka, kb, l), not want or abs(want) > l, "equality of {!r} and {!r} up to level {}".format(a, b, l))
    if not want:
        check(hash(ka) == hash(kb), "{!r} and {!r} have equal keys of different hashes", a, b)


def entry(s):
    got = call(collation.readDucet)
    eq([tuple(x) for x in got.get(s, ())], table()[s], "elements of {!r} ({})".format(s, ' '.join('%04X' % ord(c) for c in s)))


def run_table(case, ctx):
    """Every entry of the table is read as it stands"""
    singles, multi, _ = chars()
    l = (singles + multi)[case * CHUNK:(case + 1) * CHUNK]
    ctx.nontrivial(any(len(table()[s]) > 1 for s in l))
    for s in l:
        entry(s)


def table_strategy():
    singles, multi, _ = chars()
    return st.integers(0, (len(singles) + len(multi)) // CHUNK)


def run_supplementary(case, ctx):
    ctx.nontrivial()
    entry(case)


def key():
    level = st.lists(st.sampled_from([0, 1, 2, 2.5, 3]), max_size=3)
    return st.tuples(level, level, level).map(list)


def run_laws(case, ctx):
    ks = [SortKey([list(l) for l in k]) for k in case]
    ctx.nontrivial(len({repr(k) for k in case}) > 2)

    def level(x, y):
        for i in range(3):
            p, q = list(x[i]), list(y[i])
            while p and p[-1] == 0:
                p.pop()
            while q and q[-1] == 0:
                q.pop()
            if p != q:
                return -(i + 1) if p < q else i + 1
        return 0
    for i, x in enumerate(ks):
        for j, y in enumerate(ks):
            want = level(case[i], case[j])
            eq(call(x.cmp, y), want, "comparison of {} and {}".format(case[i], case[j]))
            eq((x < y, x == y, x > y, x <= y, x >= y, x != y), (want < 0, want == 0, want > 0, want <= 0, want >= 0, want != 0),
               "<, ==, >, <=, >=, != of {} and {}".format(case[i], case[j]))
            if x == y:
                check(hash(x) == hash(y), "{} and {} are equal with different hashes", case[i], case[j])
            want = [list(p) + list(q) for p, q in zip(case[i], case[j])]
            eq([list(l) for l in call(lambda: x + y)], want, "sum of {} and {}".format(case[i], case[j]))
            z = x.copy()
            z += y
            eq([list(l) for l in z], want, "sum in place of {} and {}".format(case[i], case[j]))
            z = x.copy()
            z.append(y)
            eq([list(l) for l in z], want, "appending {} to {}".format(case[j], case[i]))
            z = x + y
            for l in z:
                l.append(9)
            eq([[list(l) for l in k] for k in (x, y)], [case[i], case[j]], "sort keys whose sum was changed")
            check(isinstance(x + y, SortKey), "the sum of two sort keys is a {}", type(x + y).__name__)
    for x, k in zip(ks, case):
        z = x.copy()
        z[0].append(1)
        eq([list(l) for l in x], k, "a sort key whose copy was changed")
    eq([list(map(list, x)) for x in sorted(ks)], [list(map(list, x)) for x in sorted(ks, key=functools.cmp_to_key(lambda p, q: level(p, q)))],
       "sorted {}".format(case))


@functools.lru_cache(None)
def levels(text):
    res = []
    for s in (icu.Collator.PRIMARY, icu.Collator.SECONDARY, icu.Collator.TERTIARY):
        c = icu.RuleBasedCollator(text)
        c.setStrength(s)
        res.append(c)
    return res


def run_tailored(case, ctx):
    """Keys of tailored elements, and of strings of them, against ICU, to the level of each difference"""
    text = tailor.render(case, True)
    plaintext = tailor.render(case, False)
    if tailor.collator(plaintext) is None:
        return
    c = Collation()
    call(c.parse, text)
    call(c._setSortKeys)
    elems = [e for r in case['rules'] for e in [r[0]] + [x[1] for x in r[2]]]
    other = list('abcdefghijklmnopqrs') + list('ɓɗŋəɨ')
    pool = elems + [x for x in other if x not in elems]
    words = elems + other + ["".join(pool[i % len(pool)] for i in w) for w in case['words']]
    ctx.nontrivial(len(elems) > 3)
    cs = levels(plaintext)
    keys = {w: call(c.sortKey, w) for w in words}
    for i, a in enumerate(words):
        for b in words[:i]:
            want = next((l + 1 for l in range(3) if cs[l].compare(a, b)), 0)
            if want:
                want *= cs[want - 1].compare(a, b)
            got = keys[a].cmp(keys[b])
            eq(got, want, "comparison of {!r} and {!r} under {!r}".format(a, b, text))


def othertable_strategy():
    weight = st.tuples(st.integers(0, 0xFFF0), st.sampled_from([0, 0x20, 0x24, 0x1FF]), st.sampled_from([0, 2, 4, 8]), st.booleans()).map(list)
    line = st.fixed_dictionaries(dict(key=st.lists(st.sampled_from("aAbBñ\u0301-ŋ一"), min_size=1, max_size=3).map("".join),
        elems=st.lists(weight, min_size=1, max_size=3), note=st.sampled_from(['', ' # A LETTER', ' # [*0001.0002.0003]; x' ])))
    return st.lists(line, min_size=1, max_size=8, unique_by=lambda d: d['key'])


def run_othertable(case, ctx):
    """Another table is read as it stands, and is used where it is given and nowhere else"""
    case = [dict(l, note=l['note'].replace(';', ',')) for l in case]      # in the real one, no comment has a semicolon
    ctx.nontrivial(any(len(l['elems']) > 1 for l in case) and len(case) > 1)
    lines = ['@version 9.0.0', '', '@implicitweights 17000..18AFF; FB00 # Tangut']
    want = {}
    for l in case:
        l['note'] = l['note'] if '[' not in l['note'] else ' # NOTE'
        want[l['key']] = tuple(tuple(e[:3]) for e in l['elems'])
        lines.append("{}  ; {}{}".format(" ".join('%04X' % ord(c) for c in l['key']),
                     "".join('[{}{:04X}.{:04X}.{:04X}]'.format('*' if e[3] else '.', *e[:3]) for e in l['elems']), l['note']))
    fname = ctx.path('keys.txt')
    with open(fname, 'w', encoding='utf-8') as f:
        f.write("\n".join(lines) + "\n")
    shipped = len(call(collation.readDucet))
    got = call(collation.readDucet, fname)
    eq({k: tuple(tuple(x) for x in v) for k, v in got.items()}, want, "the table read")
    eq(len(call(collation.readDucet)), shipped, "entries of the shipped table after reading another")
    entry(case[0]['key'] if case[0]['key'] in table() else 'a')
    c = call(Collation, got)
    for k, v in want.items():
        key = call(c.getSortKey, k)
        for l in range(3):
            eq([x for x in key[l] if x], [e[l] for e in v if e[l]], "the key of {!r} by the other table, level {}".format(k, l + 1))
    d = call(Collation)
    s = case[-1]['key']
    if not skip(s):
        key = call(d.getSortKey, s)
        eq([[x for x in key[l] if x] for l in range(3)], weights(s), "the key of {!r} by the shipped table".format(s))


def large_strategy():
    return st.fixed_dictionaries(dict(n=st.integers(900, 2500), chunk=st.integers(1, 3000), level=st.lists(st.integers(1, 3), min_size=1, max_size=5),
        step=st.integers(1, 7), before=st.booleans()))


def run_large(case, ctx):
    """Tailorings as long as those of ideographs: the keys are in the order of the rules"""
    chars = [chr(0x4E00 + case['step'] * i) for i in range(case['n'])]
    bases = list("bcdefghjklmnpqrstvwx")
    text, chains = "", []
    for i in range(0, len(chars), max(case['chunk'], case['n'] // 20 + 1)):
        part = chars[i:i + max(case['chunk'], case['n'] // 20 + 1)]
        b = bases[len(chains)]
        levels = [case['level'][(i + j) % len(case['level'])] for j in range(len(part))]
        before = case['before'] and len(chains) % 2
        if before:
            levels[0] = 1
        text += "&{}{}{}\n".format('[before 1]' if before else '', b, "".join(" {} {}".format('<' * l, c) for l, c in zip(levels, part)))
        chains.append((b, before, levels, part))
    ctx.nontrivial()
    ctx.label('chains %d' % len(chains))
    c = Collation()
    call(c.parse, text)
    call(c._setSortKeys)
    for b, before, levels, part in chains:
        last, lk = b, call(c.sortKey, b)
        for l, x in zip(levels, part):
            k = call(c.sortKey, x)
            want = -l if not (before and x == part[0]) else 1
            eq(lk.cmp(k), want, "comparison of {!r} with {!r} in a tailoring of {}".format(last, x, len(chars)))
            last, lk = x, k
        nxt = chr(ord(b) + 1) if not before else b
        eq(lk.cmp(call(c.sortKey, nxt)), -1, "comparison of {!r}, the last after {!r}, with {!r}".format(last, b, nxt))


CHECK = Check('C16', 'Sort keys order strings as the element table and the tailoring say',
    'Strings of table entries (contractions, expansions, ignorables), ideographs, Hangul and private use, paired with '
    'near variants; their keys compared against a reference that reads allkeys.txt itself and follows the Unicode '
    'Collation Algorithm (longest match, implicit weights, three levels). Keys made of generated weights for the laws '
    'of comparison and addition. Generated tailorings, whose keys are compared with ICU for sign and level over '
    'elements, untouched letters and words made of both. Non-trivial: different strings of several characters, or more '
    'than two distinct keys or three elements.',
    [Sub('ducet', pair, run_ducet, quick=1500, thorough=40000, qshards=2),
     Sub('table', table_strategy, run_table, quick=1500, thorough=6000, qshards=1),
     Sub('laws', lambda: st.lists(key(), min_size=2, max_size=5), run_laws, quick=400, thorough=10000, qshards=1),
     Sub('tailored', lambda: st.fixed_dictionaries(dict(
         rules=tailor.rules(punct=False, multi=True, before=True, exps=False, other='ɓɗŋəɨ'), forms=tailor.forms,
         words=st.lists(st.lists(st.integers(0, 40), min_size=2, max_size=3), max_size=6))), run_tailored, quick=100, thorough=4000, qshards=3),
     Sub('othertable', othertable_strategy, run_othertable, quick=300, thorough=6000, qshards=1),
     Sub('large', large_strategy, run_large, quick=10, thorough=200, qshards=2),
     Sub('supplementary', None, run_supplementary, quick=0, thorough=0, qshards=1, tshards=1,
         fixed=['\u104a', '\U00010400'])],
    ['contractions interrupted by other marks are not generated: the code looks for contiguous ones only',
     'characters with a lone weight kept for its zeros (a combining mark by itself) are compared only within strings',
     'the DUCET and the root collation of ICU agree on the letters used'])
