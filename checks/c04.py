"""Tables of equivalent language tags: every listed form finds its own entry."""
import os
from hypothesis import strategies as st
from vp.core import *
from sldr import langtags_full as lf
from sldr.langtags_full import LangTag, LangTags

TABLE = os.path.join(os.path.dirname(lf.__file__), 'langtags.txt')


def load(fname):
    """A table object of its own, not the process-wide one"""
    obj = LangTags.__new__(LangTags)
    LangTags.__init__(obj, alltags=fname)
    return obj


def decide(table, lines, ctx):
    seen = {}
    for l in lines:
        o = table.get(l[-1])
        check(o is not None, "full form {!r} is not in the table", l[-1])
        eq(repr(o), l[-1], "full form of the entry for {!r}".format(l[-1]))
        check(id(o) not in seen, "{!r} and {!r} share an entry", l[-1], seen.get(id(o)))
        seen[id(o)] = l[-1]
        t = LangTag(l[-1])
        eq((o.lang, o.script, o.region, o.variants or [], o.extensions or {}),
           (t.lang, t.script, t.region, t.variants or [], t.extensions or {}), "parts of the entry for {!r}".format(l[-1]))
        for f in l:
            got = table.get(f)
            check(got is o, "{!r} finds {!r}, not its entry {!r}", f, None if got is None else repr(got), l[-1])
            # analysing a listed tag is looking it up, whatever its case
            if str(LangTag(f)) == f:
                for w in (f, f.upper(), f.lower().replace('-', '_')) if f[:2] != 'x-' else (f,):
                    check(call(LangTag(w).analyse, table) is o, "analysing {!r} does not find its entry", w)
        # what it is written as leaves out what forms of this very line leave out, and no more
        for w in [str(o)] + call(o.allforms):
            check(w in l, "{!r} is a form of the entry {!r}, which its line has not", w, l[-1])
        short = [f for f in l if (lambda x: (x.lang, x.variants, x.extensions) == (t.lang, t.variants, t.extensions)
                 and x.script in (None, t.script) and x.region in (None, t.region))(LangTag(f))]
        bits = {(LangTag(f).script is not None, LangTag(f).region is not None) for f in short}
        if not l[-1].startswith('x-') and ((False, False) not in bits or len(bits) == 4):
            mn = min(map(len, short))
            check(len(str(o)) == mn, "{!r} is written {!r}, and its line has a shorter form", l[-1], str(o))
    eq(len(table), len({f for l in lines for f in l}), "number of forms in the table")


def read_lines(fname):
    res = []
    for l in open(fname, encoding='utf-8'):
        res.append([x.lstrip('*') for x in l.split() if x != '='])
    return res


def run_shipped(case, ctx):
    lines = read_lines(TABLE)
    check(len(lines) > 8000, "the shipped table has only {} entries", len(lines))
    ctx.nontrivial()
    decide(call(load, TABLE), lines, ctx)
    ctx.label('entries {}'.format(len(lines)))


def strategy():
    entry = st.fixed_dictionaries(dict(
        lang=st.sampled_from(['aa', 'ab', 'sr', 'en', 'zh', 'qaa', 'kkk']),
        script=st.sampled_from(['Latn', 'Cyrl', 'Arab']), region=st.sampled_from(['US', 'RU', '419', 'ET']),
        more=st.lists(st.sampled_from(['DJ', 'ER', 'SY']), max_size=2, unique=True),
        hs=st.booleans(), hr=st.booleans(), hb=st.booleans(),
        variant=st.sampled_from(['', '', '', '-fonipa', '-1901', '-x-abc', '-u-nu-latn']), stars=st.integers(0, 255)))
    return st.lists(entry, max_size=8)


def lines_of(case):
    used, res = set(), []
    for e in case:
        v = e['variant']
        forms = []
        if e['hb']: forms.append(e['lang'] + v)
        if e['hs']: forms.append(e['lang'] + '-' + e['region'] + v)
        if e['hr']: forms.append(e['lang'] + '-' + e['script'] + v)
        forms += [e['lang'] + '-' + e['script'] + '-' + m + v for m in e['more']]
        forms = [f for f in forms if f not in used]
        last = e['lang'] + '-' + e['script'] + '-' + e['region'] + v
        if last in used:
            continue
        forms.append(last)
        used.update(forms)
        res.append((forms, e['stars']))
    return res


def run_generated(case, ctx):
    lines = lines_of(case)
    ctx.nontrivial(sum(len(f) > 1 for f, s in lines) > 1)
    fname = ctx.path('langtags.txt')
    with open(fname, 'w', encoding='utf-8') as f:
        for forms, stars in lines:
            f.write(" = ".join(('*' if (stars >> (i % 8)) & 1 else '') + x for i, x in enumerate(forms)) + "\n")
    decide(call(load, fname), [f for f, s in lines], ctx)


CHECK = Check('C04', 'Every form of a tag finds its one entry in the tag table',
    'The whole shipped table (every line, every form), and generated tables in its format. Non-trivial: at least two '
    'entries with several forms.',
    [Sub('shipped', None, run_shipped, quick=1, thorough=1, qshards=1, tshards=1, cpu=120, fixed=[['shipped']], exhaustive=True),
     Sub('generated', strategy, run_generated, quick=1200, thorough=15000, qshards=3)])
