"""C15: a collation tailoring that is parsed and written again defines the same order."""
import unicodedata
from hypothesis import strategies as st
from vp.core import Sub, Check, call, check, eq, HarnessError
from vp import tailor
from sldr.collation import Collation, escape, unescape


def same_order(want, text, words, what):
    got = tailor.collator(text)
    check(got is not None, "{}: ICU does not read {!r}", what, text)
    a, b = tailor.ranks(want, words), tailor.ranks(got, words)
    if a != b:
        for i, x in enumerate(words):
            for y in words[:i]:
                p, q = want.compare(x, y), got.compare(x, y)
                check(p == q, "{}: {!r} and {!r} compare {} by the tailoring, {} by {!r}", what, x, y, p, q, text)


def prepare(case, ctx):
    text = tailor.render(case, True)
    ref = tailor.collator(tailor.render(case, False))
    if ref is None:
        return None, text, None
    nrel = sum(len(r[2]) for r in case['rules'])
    ctx.nontrivial(nrel > 2 and (len(case['rules']) > 1 or len({x[0] for r in case['rules'] for x in r[2]}) > 1))
    ctx.label('before' if any(r[1] for r in case['rules']) else 'after')
    ctx.label('expansions' if any(x[2] for r in case['rules'] for x in r[2]) else 'plain')
    return ref, text, tailor.words(case)


def parsed(text):
    c = Collation()
    call(c.parse, text)
    return c


def run_defined(case, ctx):
    ref, text, words = prepare(case, ctx)
    if ref is None:
        return
    c = parsed(text)
    out = call(c.asICU, wrap=case['wrap'], ordering=lambda x: x[1].order)
    same_order(ref, out, words, "{!r} in the order of its rules".format(text))
    # what was written reads back as the same rules
    again = call(parsed(out).asICU, ordering=lambda x: x[1].order)
    same_order(ref, again, words, "{!r} written, read and written again".format(text))


def run_natural(case, ctx):
    ref, text, words = prepare(case, ctx)
    if ref is None:
        return
    c = parsed(text)
    same_order(ref, call(c.asICU, wrap=case['wrap']), words, "{!r} in sort order".format(text))


def run_elements(case, ctx):
    """Every element is read with its level, base and expansion whatever its spelling"""
    text = tailor.render(case, True)
    c = parsed(text)
    n = 0
    for base, before, rels in case['rules']:
        for op, e, x in rels:
            n += 1
            check(e in c, "{!r} is missing from {!r}", e, text)
            v = c[e]
            eq((v.base, v.level, v.exp or '', v.before), (base, op + 1, x, before), "rule for {!r} in {!r}".format(e, text))
            base, before = e, 0
    eq(len(c), n, "number of elements in {!r}".format(text))
    ctx.nontrivial(n > 2 and any(2 in f or 3 in f or 4 in f for f in case['forms']))


def run_minimise(case, ctx):
    ref, text, _ = prepare(case, ctx)
    if ref is None:
        return
    c = parsed(text)
    n = len(c)
    call(c.minimise)
    elems = [x[1] for r in case['rules'] for x in r[2]]
    ctx.label('dropped' if len(c) < n else 'kept')
    out = call(c.asICU, ordering=lambda x: x[1].order)
    same_order(ref, out, elems, "{!r} after minimising".format(text))


def run_head(case, ctx):
    """Minimising keeps the place of the elements after what they are reset to: a recorded limit"""
    ref, text, words = prepare(case, ctx)
    c = parsed(text)
    call(c.minimise)
    elems = [e for r in case['rules'] for e in [r[0]] + [x[1] for x in r[2]]]
    same_order(ref, call(c.asICU), elems, "{!r} after minimising".format(text))


def text_strategy():
    return st.fixed_dictionaries(dict(
        s=st.text(st.one_of(st.sampled_from("'\\!#&<=/-[]abcé\u0301\u0303ңक\u093c\U0001F600\U00010400'u'U0041"),
                            st.characters(min_codepoint=0x21, exclude_categories=('Cs', 'Zs', 'Zl', 'Zp', 'Cc'))), min_size=1, max_size=8),
        all=st.booleans()))


def run_escape(case, ctx):
    s = case['s']
    e = call(escape, s, allchars=case['all'])
    ctx.nontrivial(e != s)
    eq(call(unescape, e), s, "unescaping {!r}, which {!r} was escaped as".format(e, s))
    if not case['all'] and unicodedata.is_normalized('NFC', s):
        ref = tailor.collator('&q <<< ' + tailor.lit(s) + ' <<< x')
        if ref is not None:     # ICU does not tailor everything
            same_order(ref, '&q <<< ' + e + ' <<< x', ['q', 'Q', 'x', 'r', s] + list(s), "{!r} escaped".format(s))


def run_unescape(case, ctx):
    text = tailor.lit(case['s'], case['forms'])
    ctx.nontrivial(text != case['s'])
    eq(call(unescape, text), case['s'], "unescaping {!r}".format(text))


def rules_case(**kw):
    return lambda: st.fixed_dictionaries(dict(rules=tailor.rules(**kw), forms=tailor.forms, wrap=st.sampled_from([0, 0, 10, 80]),
        comments=st.sampled_from(['', '', 'after this', 'see & < b', "it's"])))


# resets to what a rule above has moved or followed, written in sort order: a recorded limit
TWICE = [dict(rules=[['a', 0, [[0, 'b', ''], [0, 'c', '']]], ['b', 0, [[0, 'd', '']]]], forms=[[0]], wrap=0, comments=''),
         dict(rules=[['p', 0, [[0, 'f', '']]], ['f', 1, [[0, 'i', '']]]], forms=[[0]], wrap=0, comments=''),
         dict(rules=[['p', 1, [[0, 'f', '']]], ['f', 1, [[0, 'i', '']]]], forms=[[0]], wrap=0, comments='')]
HEAD = [dict(rules=[['γ', 0, [[0, 'α', '']]]], forms=[[0]]), dict(rules=[['a', 0, [[0, 'c', ''], [0, 'b', '']]]], forms=[[0]])]


CHECK = Check('C15', 'Writing a collation tailoring again keeps the order it defines',
    'Tailorings rendered from generated rules: resets, also [before n] and also to elements tailored above, relations of '
    'every strength, contractions, expansions, syntax characters and others in every escape form, comments; parsed and '
    'written, wrapped or not. ICU builds a collator from the rules and another from what was written, and both order '
    'every pair of the elements, their bases, untouched letters and combinations. Non-trivial: more than two relations, '
    'in several resets or of several strengths.',
    [Sub('defined', rules_case(again=True), run_defined, quick=250, thorough=8000, qshards=3),
     Sub('natural', rules_case(other='ɓɗŋəɨكلمकखगघ你\ue000αβγ'), run_natural, quick=250, thorough=8000, qshards=3),
     Sub('twice', None, run_natural, fixed=TWICE, qshards=1, tshards=1),
     Sub('head', None, run_head, fixed=HEAD, qshards=1, tshards=1),
     Sub('elements', rules_case(), run_elements, quick=400, thorough=8000, qshards=1),
     Sub('minimise', rules_case(punct=False, exps=False, before=False, multi=False, other='ɓɗŋəɨαβγ'), run_minimise, quick=250, thorough=8000, qshards=2),
     Sub('escape', text_strategy, run_escape, quick=500, thorough=10000, qshards=1),
     Sub('unescape', lambda: st.fixed_dictionaries(dict(s=st.text(st.sampled_from("'\\!#&<=/u0041Uabé\u0301\U0001F600'"), max_size=8),
                                                        forms=st.lists(st.integers(0, 4), min_size=1, max_size=5))), run_unescape,
         quick=500, thorough=10000, qshards=1)],
    ['ICU 74 RuleBasedCollator is the reference for the order a tailoring defines; rules it refuses are passed over',
     'resets are to single characters: a reset to several is an expansion in old tailorings, which the code follows',
     'written in sort order (the default), resets are to characters the tailoring does not move'])
