"""C18: exemplars found in a text are those the text has, classified as documented."""
import functools, re
from collections import Counter
from fractions import Fraction
from unicodedata import normalize, combining, category
from hypothesis import strategies as st
from vp.core import Sub, Check, call, check, eq
from sldr.ldml_exemplars import Exemplars
from sldr import UnicodeSets

# characters, by how they are classified: nothing here asks the code under test (or ICU)
SCRIPT = dict(
    Latn='abcdegijnostuzßŋɓđꞌꞋABCDEGINŊƁéàîñẹǹǖÉñọ', Deva='कखगअािी्०१ं़', Knda='ಕರಿ್', Arab='ابت\u061c',
    Hebr='אב׳', Cyrl='абАБй', Adlm='𞤀𞤁𞤢𞤣𞥊', Thai='กขค', Hani='昆明', Hira='ほか', Grek='αβΑά')
PRIMARY = ['Latn'] * 5 + ['Deva', 'Deva', 'Knda', 'Arab', 'Hebr', 'Cyrl', 'Adlm', 'Thai', 'Hani', 'Hira', 'Grek']
OF = {c: s for s, cs in SCRIPT.items() for c in cs}
OF.update({c: 'Hebr' for c in '״'})
for _c in list(OF):
    for _d in normalize('NFD', _c)[0] + normalize('NFD', _c.lower())[0] + normalize('NFD', _c.upper())[0]:
        OF.setdefault(_d, OF[_c])
WORDY = '\u02bc\u02c0\u309b\u309bـ'              # neither script, but letters of a kind
DIGITS = '0123456789²०१'
PUNCT = '.,!?()[]{}-\u201c\u201d\u2026\u2014\'।״'
OTHER = ' \n\u00a0\u2003+=<$^`|~©\u00ad\u200b\u2060\ufeff\u200e\ua700'        # nothing at all: they only end clusters
COMBINING = '\u0300\u0301\u0302\u0303\u0304\u0308\u030c\u0323\u0324\u0327\u0328\u0331'   # may belong to their base
NEVER = '\u1dc4\u20d0\u0951\u1cd1\u064b\ufe00\u034f'       # marks of no script that never do (or are ignorable)
ZWJ, ZWNJ = '\u200d', '\u200c'
NUKTA = '़𞥊'


def script(c):
    return OF.get(c) or OF.get(normalize('NFD', c)[0])


def ismark(c):
    return category(c)[0] == 'M'


def ignorable(c):
    return c in '\u200c\u200d\ufe00\u034f\u061c'


def isnumber(c):
    return category(c) in ('Nd', 'No')


def baseable(c):
    return isnumber(c) or c in WORDY + '\u064b' or script(c) is not None


def upper(c):
    return c != c.lower() and category(c) == 'Lu'


@functools.lru_cache(None)
def word(s):
    own = SCRIPT[s]
    letters = st.sampled_from(own)
    marks = {'Deva': '\u093e\u093f\u0940\u094d\u0902\u0951\u1cd1' + ZWJ, 'Knda': '\u0cbf\u0ccd' + ZWJ, 'Arab': '\u064b', 'Hebr': '',
             'Thai': '', 'Hani': '\ufe00', 'Hira': ''}.get(s, COMBINING + COMBINING + '\u0301\u0301\u0300\u0300\u1dc4' + '\u034f')
    pieces = [letters, letters]
    if marks:
        # a letter and what is on it
        nukta = {'Deva': '़', 'Adlm': '𞥊'}.get(s)
        mk = st.text(st.sampled_from(marks), min_size=0, max_size=3)
        pieces.append(st.tuples(letters, st.sampled_from(['', nukta]) if nukta else st.just(''), mk,
                                st.sampled_from(['', '', '', ZWNJ, ZWJ])).map(lambda t: t[0] + t[1] + t[2] + t[3]))
        pieces.append(pieces[-1])
        pieces.append(st.tuples(letters, st.sampled_from(marks), st.just(ZWNJ), st.sampled_from(marks)).map(''.join))
    pieces.append(st.sampled_from(DIGITS + WORDY))
    return st.lists(st.one_of(*pieces), min_size=1, max_size=6).map(''.join)


@functools.lru_cache(None)
def words():
    sep = st.sampled_from(' ' * 6 + OTHER + PUNCT)

    @st.composite
    def make(draw):
        s = draw(st.sampled_from(PRIMARY))
        res = []
        for _ in range(draw(st.integers(1, 8))):
            w = word(s)
            if draw(st.integers(0, 5)) == 0:
                w = word(draw(st.sampled_from(PRIMARY)))
            res.append(draw(w) + draw(st.text(sep, min_size=1, max_size=2)))
        if draw(st.integers(0, 3)) == 0:      # and some letters that are much more frequent than the others
            res.append(draw(st.sampled_from(SCRIPT[s][:6])) * draw(st.integers(2, 40)))
        return res
    return make()


@functools.lru_cache(None)
def tones():
    """Marks on chosen sets of bases: on many, on few, the same, or nearly the same ones"""
    @st.composite
    def make(draw):
        bases = draw(st.lists(st.sampled_from('aeioubcdgnstz'), min_size=1, max_size=8, unique=True))
        res = []
        for m in draw(st.lists(st.sampled_from(COMBINING), min_size=1, max_size=4, unique=True)):
            on = bases[:draw(st.integers(1, len(bases)))]
            if draw(st.integers(0, 3)) == 0:
                on = on[1:] or on
            second = draw(st.sampled_from(['', '', '', '\u0301', '\u0308', '\u0323']))
            for b in on:
                res += [b + m + (second if draw(st.booleans()) else '') + ' '] * draw(st.integers(1, 3))
        res += [b + ' ' for b in bases] * draw(st.integers(0, 4))
        return res
    return make()


@functools.lru_cache(None)
def strategy():
    junk = st.lists(st.text(st.sampled_from(''.join(SCRIPT.values()) + WORDY + DIGITS + PUNCT + OTHER + COMBINING + NEVER + ZWJ + ZWNJ + NUKTA),
                            max_size=12), min_size=1, max_size=4)
    return st.fixed_dictionaries(dict(
        texts=st.one_of(words(), words(), tones(), tones(), junk), presets=presets(), presetseed=st.integers(0, 999), where=st.sampled_from(['main', 'auxiliary', 'main', 'punctuation']),
        frequent=st.sampled_from([1, 10, 25, 50, 80, 100, 150, 200, 400]), many=st.sampled_from([1, 2, 4, 5, 5, 8]), plain=st.booleans()))


def presets():
    return st.one_of(st.just([]), st.lists(st.integers(0, 200), min_size=1, max_size=4))


# ---- reference ------------------------------------------------------------------------------

def odd(text):
    """A nukta away from its letter: what it belongs to is not defined"""
    base = None
    for c in text:
        if base == '\u061c' and (ismark(c) or c in (ZWJ, ZWNJ)):
            return True         # something on what is not shown
        if c in NUKTA:
            if base is None or not base or isnumber(base):
                return True
        elif ismark(c) or c in (ZWJ, ZWNJ):
            base = ''
        else:
            base = c if baseable(c) else None
    return False


def clusters(text, known, first=False):
    """The clusters of a text (in NFD) as a list of (base, trailers), with the first character as it was if wanted"""
    res = []
    i = 0
    longest = max([len(k) for k in known] + [0])
    while i < len(text):
        m = next((text[i:i + n] for n in range(longest, 0, -1) if text[i:i + n] in known), None)
        c = m or text[i]
        if c[0] in PUNCT:
            res.append((c, '') + ((c[0],) if first else ()))
            i += len(c)
            continue
        if m is None and not baseable(c):
            i += 1
            continue
        i += len(c)
        base = c.lower()
        trailers = ''
        while i < len(text):
            t = text[i]
            if t in NUKTA:
                base += t
            elif ismark(t) or t == ZWJ or t == ZWNJ:
                trailers += t
            else:
                break
            i += 1
            if t == ZWNJ:
                break
        res.append((base, trailers) + ((c[0],) if first else ()))
    return res


def classify(counts, many, frequent):
    """(main, auxiliary, maybe) of clusters (without punctuation or digits): maybe, those exactly at the limit"""
    bases = {}
    for b, t in counts:
        for m in t:
            if ismark(m):
                bases.setdefault(m, set()).add(b)
    separate = set(m for m in bases if len(bases[m]) > many)
    separate |= set(m for m in bases if any(o != m and bases[o] == bases[m] for o in bases))
    separate |= set(m for _, t in counts for m in t if not '\u0300' <= m <= '\u036f' or ignorable(m))
    # of marks stacking on each other only the first belongs to the base, and only if nowhere else it is stacked on another
    for b, t in counts:
        left = [m for m in t if m not in separate or b == '']
        stacked = set(m for p, m in zip(left, left[1:]) if combining(p) == combining(m))
        bases.setdefault(None, set()).update(stacked)
    separate |= bases.pop(None, set())
    parts = Counter()
    for (b, t), n in counts.items():
        parts[(b + ''.join(m for m in t if m not in separate))] += n
        for m in t:
            if m in separate:
                parts[m] += n
    aux = set()
    for x in list(parts):
        if x in (ZWJ, ZWNJ) or (ignorable(x[0]) and not ismark(x[0])):
            aux.add(x)
            del parts[x]
    main, maybe = set(), set()
    if parts:
        average = Fraction(sum(parts.values()), len(parts))
        limit = average * Fraction(frequent, 100)
        exact = average.denominator & (average.denominator - 1) == 0 and frequent in (25, 50, 100, 150, 200, 400)
        for x, n in parts.items():
            if x == '\u0640':
                aux.add(x)
            elif n == limit and not exact:
                maybe.add(x)
            elif n > limit:
                main.add(x)
            else:
                aux.add(x)
    return main, aux, maybe


def reference(case):
    texts = [normalize('NFD', t) for t in case['texts']]
    # what was specified before: letters, several letters of the text (never across a mark), or things not in it
    known = set()
    whole = ''.join(texts)
    pool = sorted(set(m.group(0)[k:k + n] for m in re.finditer('[^\\W\\d_]{2,}', whole.lower()) for k in range(len(m.group(0))) for n in (1, 2, 3)
                      if len(m.group(0)[k:k + n]) == n and not any(ismark(c) or ignorable(c) for c in m.group(0)[k:k + n])))
    pool += sorted(set(m.group(0) for m in re.finditer('[a-z][\u0300-\u036f][a-z]', whole.lower())))[:4]      # (one across a mark)
    pool += ['zz', 'ŋg', 'q', 'a-']
    for p in case['presets']:
        known.add(pool[p % len(pool)])
    return texts, known


def read(s, plain):
    return s.split(' ') if plain else UnicodeSets.us2list(s)


def run(case, ctx):
    texts, known = reference(case)
    if any(odd(t) for t in texts):
        return ctx.label('skipped')
    plain = case['plain']
    e = Exemplars()
    e.unittest = plain
    e.frequent = case['frequent']
    e.many_bases = case['many']
    if known:
        v = [normalize('NFC', k) for k in sorted(known)]
        v = ' '.join(v) if plain else '[' + ' '.join('{' + k.replace('-', '\\-') + '}' for k in v) + ']'
        call(setattr, e, case['where'], v)
        ctx.label('presets')
    for t in case['texts']:
        call(e.process, t, case['plain'])
    if case['plain']:       # runs of up to four characters, each as often as it is there at most
        for x, n in call(lambda: e.all_potential_multigraphs).items():
            there = sum(t.startswith(x.base + x.trailers, i) for t in texts for i in range(len(t)))
            check(n <= there and 0 < len(x.base + x.trailers) <= 4, "{!r} is counted {} times, it is there {} times", x.base + x.trailers, n, there)
    found = Counter(c for t in texts for c in clusters(t, known))
    call(e.analyze)

    # the script most of it is in
    scripts = Counter(s for t in texts for s in map(script, t) if s)
    best = set(s for s, n in scripts.items() if n == max(scripts.values()))
    got = call(lambda: e.script)
    if scripts:
        check(got in best, "the script is {!r}, wanted {!r}", got, best)
    else:
        check(got in ('', 'Zyyy', 'Zinh'), "the script of a text with none is {!r}", got)

    def visible(xs):
        return set(normalize('NFC', x) for x in xs if not scripts or (script(normalize('NFC', x)[0]) or got) == got)

    # punctuation, digits
    punct = set(b for b, t in found if b[0] in PUNCT)
    counts = Counter({k: n for k, n in found.items() if k[0][0] not in PUNCT})
    raw = Counter()
    for k, n in call(lambda: e.raw_clusters).items():
        raw[(k.base, k.trailers)] += n
    eq(dict(raw), dict(counts), "clusters")
    digits = set(b for b, t in counts if isnumber(b[0]) and t == '')
    for x in digits:
        del counts[(x, '')]
    main, aux, maybe = classify(counts, case['many'], case['frequent'])

    gm, ga, gi, gp, gd = (set(call(read, call(getattr, e, a), plain)) - set(['']) for a in ('main', 'auxiliary', 'index', 'punctuation', 'digits'))
    eq(sorted(gp), sorted(visible(punct)), "punctuation")
    eq(sorted(gd), sorted(visible(digits)), "digits")
    hidden = visible(maybe)
    eq(sorted(gm - hidden), sorted(visible(main) - hidden), "main exemplars")
    eq(sorted(ga - hidden), sorted(visible(aux) - hidden), "auxiliary exemplars")
    check(hidden <= gm | ga, "exemplars lost: {!r}", hidden - gm - ga)
    # the index: what is in main, in upper case, without separate marks
    index = visible(normalize('NFD', x).upper() for x in main | set(m for m in maybe if normalize('NFC', m) in gm) if not ismark(x[0]))
    eq(sorted(gi), sorted(index), "index")
    # graphemes: every cluster that is not punctuation, the most frequent first
    gg = call(lambda: e._graphemes)
    num = [sum(n for k, n in raw.items() if k[0] + k[1] == g) for g in gg]
    if len(set(k[0] + k[1] for k in raw)) == len(raw):
        eq(sorted(gg), sorted(k[0] + k[1] for k in raw), "graphemes")
        check(num == sorted(num, reverse=True), "graphemes {!r} are not in order of frequency {!r}", gg, num)
    # what is in one case only
    seen = {}
    for t in texts:
        for b, tr, first in clusters(t, known, first=True):
            if first not in PUNCT and (category(first) in ('Lu', 'Ll') or first == '\u02c0'):
                seen.setdefault(b + tr, set()).add(category(first) == 'Lu')
    eq(dict(call(lambda: e.non_casing_chars)), {k: 'only_upper' if True in v else 'only_lower' for k, v in seen.items() if len(v) == 1}, "what is in one case only")
    ctx.nontrivial(len(counts) > 2 and any(t for b, t in counts))
    for n, v in (('aux', ga), ('main', gm), ('marks', any(ismark(x[0]) for x in gm | ga)), ('digits', gd), ('punct', gp), ('kept', any(len(normalize('NFD', x)) > 1 for x in gm | ga)),
                 ('scripts', len(scripts) > 1)):
        if v:
            ctx.label(n)


# ---- all of Unicode -------------------------------------------------------------------------

LETTERLIKE = set('\u30a0\u055a\u055b\u055c\u055e\u058a\u05f3')       # punctuation that is part of words (Word_Break is ALetter or Katakana)


def kind(c):
    """mark, punct, letter, number, upper (an upper case letter without lower case), none or unknown"""
    g = category(c)
    if g[0] == 'M' or c in (ZWJ, ZWNJ):
        return 'mark'
    if g[0] == 'P':
        return 'punct'
    if g == 'Lu' and c.lower() == c:
        return 'upper'
    if g[0] == 'L' or g == 'Nl':
        return 'letter'
    if g[0] == 'N':
        return 'number'
    # symbols, private use and some format characters may be letters in their script
    return 'none' if g in ('Cc', 'Zl', 'Zp') or (g == 'Zs' and c != '\u1680') else 'unknown'


def blocks():
    return [[i, i + 64] for i in range(0, 0x110000, 64) if any(category(chr(c)) not in ('Cn', 'Co', 'Cs') for c in range(i, i + 64))
            and (not 0x3500 <= i < 0xA000 or i % 2048 == 0) and (not 0xAC80 <= i < 0xD700 or i % 1024 == 0) and (i < 0x20000 or i >= 0xE0000 or i % 8192 == 0)]


def run_characters(case, ctx):
    """Each character after a letter, and alone"""
    n = 0
    for cp in range(*case):
        c = chr(cp)
        if category(c) in ('Cn', 'Cs'):
            continue
        k = kind(c)
        d = normalize('NFD', c)
        e = Exemplars()
        call(e.process, 'q' + c)
        got = sorted((x.base, x.trailers) for x in call(lambda: e.clusters).elements())
        own = []
        for x in d:
            if kind(x) != 'mark':
                own.append([x.lower() if category(x) in ('Lu', 'Nl', 'So') else x, ''])
            elif own:
                own[-1][0 if combining(x) == 7 else 1] += x
        want = sorted([('q', '')] + [tuple(x) for x in own])
        what = "clusters of q and U+%04X (%s)" % (cp, category(c))
        if k == 'mark':
            eq(len(got), 1, what)
            eq(''.join(got[0]), 'q' + d, what)
        elif k in ('none', 'upper'):
            eq(got, [('q', '')], what)
        elif k == 'unknown':
            check(got in ([('q', '')], want), "{}: {!r}", what, got)
        else:
            eq(got, want, what)
        if k in ('punct', 'number') and len(d) == 1 and category(c) != 'Nl':
            e = Exemplars()
            call(e.process, ' ' + c + ' ')
            call(e.analyze)
            where = 'digits' if k == 'number' else 'auxiliary' if c in LETTERLIKE else 'punctuation'
            for a in ('punctuation', 'digits', 'index', 'main', 'auxiliary'):
                if where == 'auxiliary' and a in ('main', 'auxiliary', 'index'):
                    continue
                eq(sorted(UnicodeSets.us2list(call(getattr, e, a))), [normalize('NFC', c)] if a == where else [], "{} of U+{:04X}".format(a, cp))
        n += 1
    ctx.nontrivial(n > 0)


def run_anything(case, ctx):
    """Nothing that is in a text is lost, nor anything that is not made"""
    e = Exemplars()
    for t in case:
        call(e.process, t)
    got = Counter(x for k, n in call(lambda: e.clusters).items() for x in (k.base + k.trailers) * n)
    has, may, after = Counter(), Counter(), False
    for t in case:
        after = None
        for c in normalize('NFD', t):
            k = kind(c)
            x = c.lower() if category(c) in ('Lu', 'Nl', 'So') else c
            if k == 'mark':
                # on a letter or number it is part of a cluster; elsewhere it may be one
                (has if after in ('letter', 'number') else may)[c] += 1
                if c == ZWNJ or after is None or after in ('punct', 'none', 'upper', 'unknown'):
                    after = 'unknown'
            else:
                (has if k in ('letter', 'number', 'punct') else may)[x] += 1 if k not in ('none', 'upper') else 0
                after = 'unknown' if c in LETTERLIKE else k
    for x in set(has) | set(got):
        check(has[x] <= got[x] <= has[x] + may[x], "U+{:04X} is {} times in {!r}, {} times in its clusters", *([ord(x), has[x], case, got[x]] if len(x) == 1 else [0, has[x], case, got[x]]))
    ctx.nontrivial(len(has) > 4)


CHECK = Check('C18', 'Exemplars found in a text',
              'more than two clusters, at least one of them with marks',
              [Sub('classes', strategy, run, quick=700, thorough=30000),
               Sub('anything', lambda: st.lists(st.text(st.one_of(st.characters(exclude_categories=('Cs', 'Cn')), st.sampled_from('aEé\u0301\u093c' + ZWJ + ZWNJ)), max_size=14), min_size=1, max_size=3),
                   run_anything, quick=400, thorough=30000),
               Sub('characters', None, run_characters, fixed=blocks, qshards=1, tshards=1, exhaustive=True)],
              assumptions=['unicodedata of Python for normalization, combining classes and case'])
