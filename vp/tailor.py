"""Generated collation tailorings, and ICU as the reference for the order they define."""
import functools
from hypothesis import strategies as st
import icu

LATIN = 'abcdefghijklmnop'
OTHER = 'ɓɗŋəɨ' + 'كلم' + 'कखगघ' + '你' + '\ue000' + 'αβγ' + '\U00010428'
MULTI = ['ch', 'ng', 'dz', 'b\u0303', 'e\u0301', 'ngb']
PUNCT = list("!&<=/#'-|[]{}?*+.,:;~@%$\"()^_`\\")
OPS = ['<', '<<', '<<<', '=']


def lit(s, forms=()):
    """ICU's own spelling of the text (forms empty), or an LDML one with escapes as `forms` says"""
    r = ''
    for i, ch in enumerate(s):
        f = forms[i % len(forms)] if forms else 0
        if f == 2:
            r += '\\u%04x' % ord(ch) if ord(ch) < 0x10000 else '\\U%08X' % ord(ch)
        elif f == 3:
            r += '\\U%08X' % ord(ch)
        elif f == 4 and ord(ch) < 0x10000:
            r += '\\u%04X' % ord(ch)
        elif ch == "'":
            r += "''" if f == 0 else "\\'"
        elif ch in PUNCT:
            r += '\\' + ch
        else:
            r += ch
    return r


def render(case, ldml):
    """Text of the tailoring. case: list of resets [base, before, [[op, elem, exp]...]]"""
    out = []
    forms = case.get('forms') if ldml else None
    n = 0
    for base, before, rels in case['rules']:
        s = '&' + ('[before %d]' % before if before else '') + lit(base, forms[n % len(forms)] if forms else ())
        for op, e, x in rels:
            n += 1
            f = forms[n % len(forms)] if forms else ()
            s += ' %s %s' % (OPS[op], lit(e, f)) + ('/' + lit(x) if x else '')
            if ldml and case.get('comments') and n % 3 == 0:
                s += '  # ' + case['comments'] + '\n'
        out.append(s)
    return '\n'.join(out) + '\n'


@functools.lru_cache(None)
def rules(again=False, exps=True, punct=True, before=True, multi=True, maxlen=5, latin=LATIN, other=OTHER):
    pool = list(latin) + list(other) + (MULTI if multi else [])
    singles = list(latin) + list(other)
    elem = st.sampled_from(pool)
    if punct:
        elem = st.one_of(elem, elem, st.sampled_from(PUNCT))
    exp = st.sampled_from([''] * 8 + ['q', 'qs', 'r', 's', 'q', 'qs', 'r', 's'] + (['&', '<', '-q', "q'", '#', '/', '\\'] if punct else [])) if exps else st.just('')
    rel = st.tuples(st.sampled_from([0, 0, 1, 2, 3]), elem, exp).map(list)
    run = st.tuples(st.sampled_from(singles), st.sampled_from([0, 0, 0, 0, 1, 2] if before else [0]),
                    st.integers(0, 5) if again else st.just(9), st.lists(rel, min_size=1, max_size=maxlen)).map(list)

    def tidy(runs):
        used, bases, res = set(), set(), []
        expanded = set(''.join(x for r in runs for _, _, x in r[3]))     # what an element expands to, no rule moves
        for base, bf, ag, rels in runs:
            # a reset to what a rule above put in its place, or to something no rule moves
            done = [e for e in used]
            if ag < 2 and res:
                base = res[-1 - ag % len(res)][2][ag % len(res[-1 - ag % len(res)][2])][1]
            elif base in used or base in bases:
                continue
            keep = []
            for op, e, x in rels:
                if e in used or e in bases or e == base or e in expanded:
                    continue
                used.add(e)
                if bf and not keep:
                    op = bf - 1
                elif bf and op < bf - 1:
                    op = bf - 1
                keep.append([op, e, x])
            if keep:
                bases.add(base)
                res.append([base, bf, keep])
        return res
    return st.lists(run, min_size=1, max_size=4).map(tidy).filter(lambda r: r)


forms = st.lists(st.lists(st.integers(0, 4), min_size=1, max_size=3), min_size=1, max_size=4)


def collator(text):
    """ICU's collator for the tailoring, or None if ICU has no such tailoring"""
    try:
        return icu.RuleBasedCollator(text)
    except icu.ICUError:
        return None


def ranks(c, words):
    keys = {w: c.getSortKey(w) for w in words}
    order = sorted(set(keys.values()))
    pos = {k: i for i, k in enumerate(order)}
    return {w: pos[k] for w, k in keys.items()}


def words(case, extra=()):
    elems = [e for r in case['rules'] for e in [r[0]] + [x[1] for x in r[2]]]
    w = elems + list(LATIN) + list(OTHER) + [a + b for a, b in zip(elems, elems[1:])] + [e + 'q' for e in elems] \
        + [e + 'qs' for e in elems] + [e + 'b' for e in elems] + ['a' + e for e in elems] + list(extra)
    return list(dict.fromkeys(w))
