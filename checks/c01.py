"""Unicode-set lists: what is written reads back, in our reader, in ICU's, and in order."""
import unicodedata
from hypothesis import strategies as st
import icu
from vp.core import *
from vp.gen import *
from sldr.UnicodeSets import list2us, us2list
from sldr.ldml_exemplars import UCD

ucd = UCD()
PWS = set('\t\n\x0b\x0c\r\x85\u2028\u2029')


def nfc(x):
    return unicodedata.normalize('NFC', x)


def strategy():
    item = st.one_of(anychar(), st.lists(anychar(), min_size=1, max_size=5).map("".join)).map(nfc)
    return st.lists(item, max_size=12, unique=True)


def read_in_order(s):
    """Independent reader of the notation a list is written in: items in order."""
    check(s[:1] == '[' and s[-1:] == ']', "not a bracketed set: {!r}", s)
    i, end, res = 1, len(s) - 1, []

    def one(i):
        c = s[i]
        if c != '\\':
            check(c not in '[]{}&|^$:-', "unescaped syntax character {!r} in {!r}", c, s)
            return c, i + 1
        n = {'u': 4, 'U': 8}.get(s[i + 1])
        if n and all(x in '0123456789abcdefABCDEF' for x in s[i + 2:i + 2 + n]) and len(s[i+2:i+2+n]) == n:
            return chr(int(s[i + 2:i + 2 + n], 16)), i + 2 + n
        return s[i + 1], i + 2
    while i < end:
        if s[i] == ' ':
            i += 1
        elif s[i] == '{':
            i += 1
            t = ''
            while s[i] != '}':
                if s[i] == ' ':
                    i += 1
                    continue
                c, i = one(i)
                t += c
                check(i <= end, "string not closed in {!r}", s)
            res.append(t)
            i += 1
        else:
            c, i = one(i)
            res.append(c)
    return res


def run(case, ctx):
    out = call(list2us, case, ucd)
    ctx.nontrivial(len(case) > 1 and any(len(x) > 1 or ucd.ismark(x) or x in USYNTAX or not x.isalnum() for x in case))
    back = call(us2list, out)
    eq(sorted(set(back)), sorted(set(case)), "read back from {!r}".format(out))
    # what is done to a list that was read has no effect on reading it again
    call(back.add if hasattr(back, 'add') else back.append, 'more')
    eq(sorted(set(call(us2list, out))), sorted(set(case)), "read from {!r} once more".format(out))
    eq(read_in_order(out), case, "items in order in {!r}".format(out))
    # what cannot be seen is spelled out
    for it in case:
        for n, c in enumerate(it):
            cat = unicodedata.category(c)
            hidden = cat in ('Cf', 'Zs', 'Co') or icu.Char.hasBinaryProperty(c, icu.UProperty.DEFAULT_IGNORABLE_CODE_POINT)
            if c != ' ' and hidden:
                check(c not in out, "invisible or private {!r} written raw in {!r}", c, out)
                ctx.label('hidden')
    for it in case:
        one = call(list2us, [it], ucd)
        if unicodedata.category(it[0])[0] == 'M':
            ctx.label('isolated mark')
            check(it[0] not in one[:one.index('\\') if '\\' in one else None] and
                  one.lstrip('[{')[:1] == '\\', "isolated mark written raw in {!r}", one)
    if not any(c in PWS for x in case for c in x):
        ctx.label('icu')
        try:
            us = icu.UnicodeSet(out)
        except icu.ICUError as e:
            raise Violation("{!r} is not Unicode set notation: {}".format(out, e))
        eq(sorted(us), sorted(set(case)), "ICU's reading of {!r}".format(out))


CHECK = Check('C01', 'Unicode-set lists read back exactly as written',
    'Lists of distinct non-empty NFC strings over all Unicode scalar values, biased to set syntax characters, marks, '
    'spaces, format, private-use and default-ignorable characters. Non-trivial: more than one item, at least one of '
    'them a string, mark, syntax character or non-alphanumeric.',
    [Sub('list', strategy, run, quick=2500, thorough=40000, qshards=4)],
    ['ICU 74 UnicodeSet is the reference reader of the notation'])
