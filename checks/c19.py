"""C19: a spreadsheet of locale data becomes the LDML it describes, and back."""
import csv, functools, os, re, zipfile
from xml.etree import ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from hypothesis import strategies as st
from vp.core import Sub, Check, call, check, eq
from vp import ldmlio as IO
from sldr.sheet import Sheet
from sldr.ldml import Ldml

WIDTH = 18
TEMPLATE = '/repo/data/LDML_entry.ods'
SINGLES = [
    "characters/exemplarCharacters", 'characters/exemplarCharacters[@type="auxiliary"]', "characters/exemplarCharacters[@type='index']",
    "delimiters/quotationStart", "delimiters/quotationEnd", "numbers/defaultNumberingSystem", 'numbers/symbols[@numberSystem="latn"]/decimal',
    "numbers/symbols[@numberSystem='latn']/group", "numbers/symbols[@numberSystem='arab']/group", "dates/timeZoneNames/regionFormat",
    'dates/timeZoneNames/regionFormat[@type="standard"]', "dates/timeZoneNames/metazone[@type='GMT']/long/standard",
    "localeDisplayNames/localeDisplayPattern/localePattern", "layout/orientation/lineOrder", "posix/messages/yesstr",
    "dates/timeZoneNames/zone[@type='America/New_York']/exemplarCity"]
ATTRS = ["identity/language[@type]", "identity/script[@type]", "identity/territory[@type]", "identity/version[@number]"]
CODES = ['en', 'fr', 'zh_Hant', 'xyz', 'US', '001', 'Latn', 'AF']
T1D = [("localeDisplayNames/languages/language[@type='", "']", CODES), ('localeDisplayNames/territories/territory[@type="', '"]', CODES),
       ("dates/timeZoneNames/zone[@type='", "']/exemplarCity", ['America/New_York', 'Asia/Tokyo', 'Etc/GMT+1', 'Europe/Paris']),
       ("localeDisplayNames/keys/key[@type='", "']", ['calendar', 'collation', 'numbers'])]
T2D = [("dates/calendars/calendar[@type='gregorian']/months/monthContext[@type='format']/monthWidth[@type='", "']/month[@type='", "']",
        ['wide', 'narrow', 'abbreviated'], [str(i) for i in range(1, 13)]),
       ("dates/calendars/calendar[@type='gregorian']/days/dayContext[@type='", "']/dayWidth[@type='wide']/day[@type='", "']",
        ['format', 'stand-alone'], ['sun', 'mon', 'tue', 'sat']),
       ("dates/fields/field[@type='", "']/relative[@type='", "']", ['year', 'month', 'day', 'hour'], ['-1', '0', '1'])]
T2DX = [(["numbers/currencies/currency[@type='$row']/displayName", "numbers/currencies/currency[@type='$row']/symbol"], ['USD', 'EUR', 'JPY', 'XAF']),
        (["dates/timeZoneNames/metazone[@type='$row']/long/standard", "dates/timeZoneNames/metazone[@type='$row']/long/daylight",
          "dates/timeZoneNames/metazone[@type='$row']/short/standard"], ['Alaska', 'Gulf', 'Japan'])]


# ---- generators -----------------------------------------------------------------------------

@functools.lru_cache(None)
def values():
    ch = st.sampled_from('abcdeABz 0123456789\'"&<>[]{}-/=@$,;#\\|éüकाあ—\u00a0%')
    return st.one_of(st.just(''), st.just(''), st.text(ch, min_size=1, max_size=10).map(lambda s: ' '.join(s.split(' ')).strip(' \t')),
                     st.sampled_from(['same', 'same', '[a b {ch}]', "it's", '"q"', 'a  b', 'a   b c', '-', '0', '1.50', 'table1d(x)', '{0} ({1})']))


@functools.lru_cache(None)
def blocks():
    v = values()
    few = st.tuples(st.just('') | v, v).map(lambda x: [x[0]] * 11 + [x[1]])        # all but one the same
    single = st.tuples(st.just('single'), st.integers(0, len(SINGLES) - 1), v)
    attr = st.tuples(st.just('attr'), st.integers(0, len(ATTRS) - 1), st.sampled_from(['', 'en', 'Latn', 'xyz', '1.2']))

    def table(kind, n, rows, cols):
        return st.tuples(st.just(kind), st.integers(0, n - 1), st.lists(st.integers(0, 9), min_size=1, max_size=rows, unique=True),
                         st.one_of(st.lists(st.integers(0, 9), min_size=1, max_size=cols, unique=True), st.just(list(range(12))), st.just(list(range(12)))), st.one_of(st.lists(v, min_size=1, max_size=12), few, few, v.map(lambda x: [x])))
    t = st.one_of(table('1d', len(T1D), 5, 1), table('2d', len(T2D), 4, 4), table('2dr', len(T2D), 4, 4), table('2dx', len(T2DX), 4, 3),
                  st.tuples(st.just('2dr'), st.just(0), st.just([0, 1]), st.just(list(range(12))), few))
    junk = st.tuples(st.just('junk'), st.sampled_from(['', 'A note', 'In column D, enter it']))
    return st.lists(st.one_of(single, single, attr, t, t, junk).map(list), min_size=1, max_size=9)


@functools.lru_cache(None)
def strategy():
    return st.fixed_dictionaries(dict(blocks=blocks(), format=st.sampled_from(['tsv', 'ods', 'ods']), ragged=st.booleans(),
                                      compress=st.integers(0, 3), sheets=st.integers(1, 3), form=st.integers(0, 5), decoys=st.sampled_from([0, 0, 0xffff, 0x5a5a]), notes=st.booleans(), old=st.sampled_from([0, 0, 0x5555, 0x1248, 0xffff])))


def lay_out(case):
    """(rows of cells, [(row, column, path, value)]) of a case: the whole sheet, and what it says"""
    rows, says = [], []
    singles = [b for b in case['blocks'] if b[0] == 'single']
    for b in case['blocks']:
        kind = b[0]
        if kind == 'junk':
            rows.append([b[1]])
        elif kind in ('single', 'attr'):
            path = (SINGLES if kind == 'single' else ATTRS)[b[1]]
            says.append((len(rows), 3, path, b[2]))
            rows.append(['label', path, 'English', b[2]])
        elif kind == '1d':
            beg, end, keys = T1D[b[1]]
            rows.append(['Names', 'table1d({}$row{})'.format(beg, end), 'English', ''])
            for n, k in enumerate(dict.fromkeys(keys[i % len(keys)] for i in b[2])):
                v = b[4][n % len(b[4])]
                says.append((len(rows), 3, beg + k + end, v))
                rows.append(['', k, 'what ' + k, v])
            rows.append(['end'])
        elif kind in ('2d', '2dr'):
            beg, mid, end, ks, ls = T2D[b[1]]
            cols, rws = (ks, ls) if kind == '2d' else (ls, ks)
            cols = list(dict.fromkeys(cols[i % len(cols)] for i in b[3]))
            rws = list(dict.fromkeys(rws[i % len(rws)] for i in b[2]))
            note = ['', cols[0], 'a note'] if case.get('notes') and len(cols) < 12 else []     # past the first column without a head nothing counts
            if note: note = note if len(cols) > 1 else ['', 'zz', 'a note']
            rows.append(['', 'table{}({}{}{}{}{})'.format(kind, beg, '$col' if kind == '2d' else '$row', mid, '$row' if kind == '2d' else '$col', end), 'English'] + cols + note)
            for n, r in enumerate(rws):
                row = ['', r, 'what ' + r]
                for m, c in enumerate(cols):
                    v = b[4][(n * len(cols) + m) % len(b[4])]
                    says.append((len(rows), 3 + m, beg + (c if kind == '2d' else r) + mid + (r if kind == '2d' else c) + end, v))
                    row.append(v)
                rows.append(row + note[1:])
            rows.append([])
        else:
            paths, keys = T2DX[b[1]]
            paths = paths[:len(b[3])]
            rows.append(['', 'table2dx({})'.format(','.join(paths)), 'code', 'name', 'other'])
            for n, k in enumerate(dict.fromkeys(keys[i % len(keys)] for i in b[2])):
                row = ['', '', k]
                for m, p in enumerate(paths):
                    v = b[4][(n * len(paths) + m) % len(b[4])]
                    says.append((len(rows), 3 + m, p.replace('$row', k), v))
                    row.append(v)
                rows.append(row)
            rows.append(['between', '', ''])
    return rows, says


def steps(path):
    """The path of a spreadsheet as ((tag, ((attribute, value) ...)) ...)"""
    res = []
    for s in re.findall(r"(?:\[[^\]]*\]|[^/\[])+", path):
        res.append((s.split('[')[0], tuple(sorted(re.findall(r"\[@(\w+)=['\"]([^'\"]*)['\"]\]", s)))))
    return tuple(res)


def said(says):
    """{path: text} that the LDML has to have"""
    res = {}
    for _, _, path, v in says:
        if v != '':
            m = re.match(r"(.*)\[@(\w+)\]$", path)
            if m:
                p = steps(m.group(1))
                for k in [k for k in res if k[:-1] == p[:-1] and k[-1][0] == p[-1][0]]:
                    del res[k]        # one element, whose attribute is set
                res[p[:-1] + ((p[-1][0], ((m.group(2), v),)),)] = None
            else:
                res[steps(path)] = v
    return res


def leaves(fname):
    root = ET.parse(fname).getroot()
    res = {}

    def walk(e, path):
        for c in e:
            p = path + ((c.tag, tuple(sorted(c.attrib.items()))),)
            if len(c):
                check(not (c.text or '').strip(), "text {!r} before the children of {!r}", c.text, p)
                walk(c, p)
            else:
                check(p not in res, "{!r} is there twice", p)
                res[p] = c.text
    eq(root.tag, 'ldml', 'root element')
    walk(root, ())
    return res


def decoys(fname, paths, which):
    """Alternates, in the LDML, of what the sheet is about"""
    tree = ET.parse(fname)
    for i, path in enumerate(paths):
        p = steps(path)
        if path.endswith('@type]') or path.endswith('@number]') or not which >> i % 16 & 1:
            continue
        e = tree.getroot()
        for tag, attrs in p[:-1]:
            e = next((c for c in e if c.tag == tag and tuple(sorted(c.attrib.items())) == attrs), None) if e is not None else None
        if e is not None:
            d = ET.Element(p[-1][0], dict(p[-1][1], alt='short' if i % 2 else 'variant'))
            d.text = 'decoy'
            e.insert(0 if i % 3 else len(e), d)
    ET.register_namespace('sil', 'urn://www.sil.org/ldml/0.1')
    tree.write(fname, encoding='utf-8', xml_declaration=True)


# ---- spreadsheets, written and read without odfpy ---------------------------------------------

NS = ('xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" xmlns:table="urn:oasis:names:tc:opendocument:xmlns:table:1.0" '
      'xmlns:text="urn:oasis:names:tc:opendocument:xmlns:text:1.0" office:version="1.2"')
T = '{urn:oasis:names:tc:opendocument:xmlns:table:1.0}'
X = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'


def odstext(s, form):
    """The content of a paragraph of a cell: runs of spaces, and some words, are elements of their own"""
    def part(m):
        n = len(m.group(0)) - 1
        return ' <text:s/>' if n == 1 else ' <text:s text:c="{}"/>'.format(n)
    t = re.sub('  +', part, escape(s))
    if form == 5 and len(s) > 3 and ' ' in s.strip():
        i = t.rindex(' ') + 1
        if '<' not in t[i:] and '>' not in t[i:]:
            t = t[:i] + '<text:span>' + t[i:] + '</text:span>'
    return t


def writeods(fname, tables, compress, form):
    """compress: how cells that are the same are written (0: one by one; 1: empty ones as one, to the end of the row; 2: all; 3: as 2, row ends left out)"""
    out = ['<?xml version="1.0" encoding="UTF-8"?><office:document-content {}><office:body><office:spreadsheet>'.format(NS)]
    for name, rows in tables:
        out.append('<table:table table:name={}><table:table-column/>'.format(quoteattr(name)))
        for r in rows:
            out.append('<table:table-row>')
            cells = list(r)
            cells += [''] * (WIDTH - len(cells))
            runs = []
            for c in cells:
                if runs and runs[-1][0] == c and (compress >= 2 or (compress == 1 and c == '')):
                    runs[-1][1] += 1
                else:
                    runs.append([c, 1])
            if runs[-1][0] == '':
                if compress == 3:
                    runs.pop()
                elif compress:
                    runs[-1][1] += 1015
            if not runs:
                runs = [['', 1]]
            for c, n in runs:
                rep = ' table:number-columns-repeated="{}"'.format(n) if n > 1 else ''
                if c == '':
                    out.append('<table:table-cell{}/>'.format(rep))
                else:
                    out.append('<table:table-cell{} office:value-type="string">{}</table:table-cell>'.format(rep, ''.join('<text:p>%s</text:p>' % odstext(p, form) for p in c.split('\n'))))
            out.append('</table:table-row>')
        out.append('</table:table>')
    out.append('</office:spreadsheet></office:body></office:document-content>')
    with zipfile.ZipFile(fname, 'w') as z:
        z.writestr('mimetype', 'application/vnd.oasis.opendocument.spreadsheet')
        z.writestr('content.xml', ''.join(out))
        z.writestr('META-INF/manifest.xml', '<?xml version="1.0" encoding="UTF-8"?><manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0">'
                   '<manifest:file-entry manifest:full-path="/" manifest:media-type="application/vnd.oasis.opendocument.spreadsheet"/>'
                   '<manifest:file-entry manifest:full-path="content.xml" manifest:media-type="text/xml"/></manifest:manifest>')


def partext(p):
    res = re.sub('[ \t\n]+', ' ', p.text or '')
    for c in p:
        res += ' ' * int(c.get(X + 'c', 1)) if c.tag == X + 's' else partext(c)
        res += re.sub('[ \t\n]+', ' ', c.tail or '')
    return res


def readods(fname, upto=WIDTH):
    """{table: rows of cells}"""
    root = ET.fromstring(zipfile.ZipFile(fname).read('content.xml'))
    res = {}
    for t in root.iter(T + 'table'):
        rows = res.setdefault(t.get(T + 'name'), [])
        for r in t.iter(T + 'table-row'):
            row = []
            for c in r:
                text = '\n'.join(partext(p) for p in c.findall(X + 'p'))
                check(int(c.get(T + 'number-columns-repeated', 1)) > 0, "a cell repeated {!r} times", c.get(T + 'number-columns-repeated'))
                row += [text] * min(int(c.get(T + 'number-columns-repeated', 1)), upto)
            rows.append((row + [''] * upto)[:upto])
    return res


def tables(case, rows):
    """The rows, on the sheets that are read; a sheet of notes, which is not"""
    names = ['Core', 'Basic', 'Minimal', 'Posix'][:case['sheets']]
    cuts = [0]
    for i, r in enumerate(rows):      # only between blocks
        if len(cuts) < len(names) and (r == ['end'] or r == []) and i + 1 < len(rows):
            cuts.append(i + 1)
    parts = [rows[a:b] for a, b in zip(cuts, cuts[1:] + [len(rows)])]
    return [('Notes', [['x', 'posix/messages/nostr', '', 'no']])] + list(zip(names, parts)) + [('Other', [['x', 'posix/messages/nostr', '', 'no']])]


def order(case):
    """Elements without attributes before those of the same name that have them (as in the template)"""
    attrs = set()
    bl = [b for b in case['blocks'] if b[0] != 'attr' or not (b[1] in attrs or attrs.add(b[1]))]     # an attribute is given once
    s = sorted([b for b in bl if b[0] == 'single'], key=lambda b: b[1])
    it = iter(s)
    return dict(case, blocks=[next(it) if b[0] == 'single' else b for b in bl])


def run(case, ctx):
    case = order(case)
    rows, says = lay_out(case)
    want = said(says)
    out = ctx.path('out.xml')
    if case['format'] == 'tsv':
        src = ctx.path('in.tsv')
        with open(src, 'w', newline='', encoding='utf-8') as f:
            w = csv.writer(f, dialect='excel-tab')
            for r in rows:
                r = list(r) + [''] * (WIDTH - len(r))
                while case['ragged'] and r and r[-1] == '':
                    r.pop()
                w.writerow(r)
        s = call(Sheet, tsvfile=src)
    else:
        src = ctx.path('in.ods')
        writeods(src, tables(case, rows), case['compress'], case['form'])
        s = call(Sheet, odsfile=src)
    call(s.process)
    call(s.writeldml, out)
    got = leaves(out)
    eq(got, want, "LDML made from the sheet")
    l = call(Ldml, out)
    call(l.normalise)
    eq(IO.save(l), open(out, encoding='utf-8').read(), "the LDML made, normalised again")

    # and back into an empty sheet
    blank = [list(r) for r in rows]
    old = lambda n: 'old %d' % n + '\nand more' * (n % 3 == 0) if case.get('old', 0) >> n % 16 & 1 else ''       # what is there stays where there is nothing else
    for n, (r, c, path, v) in enumerate(says):
        blank[r][c] = old(n)
    tpl, back = ctx.path('blank.ods'), ctx.path('back.ods')
    writeods(tpl, tables(case, blank), case['compress'], 0)
    if case.get('decoys'):
        decoys(out, [path for _, _, path, _ in says], case['decoys'])
    before = open(out, 'rb').read()
    s = call(Sheet, odsfile=tpl, ldmlfile=out)
    call(s.process)
    call(s.writeods, back)
    check(open(out, 'rb').read() == before, "the LDML file was changed")
    full = [list(r) for r in rows]
    for n, (r, c, path, v) in enumerate(says):
        m = re.match(r"(.*)\[@(\w+)\]$", path)
        if m:
            p = steps(m.group(1))
            full[r][c] = next((dict(k[-1][1])[m.group(2)] for k in want if k[:-1] == p[:-1] and k[-1][0] == p[-1][0]), old(n))
        else:
            full[r][c] = want.get(steps(path), old(n))
    cells = readods(back)
    for (name, rs) in tables(case, full):
        exp = [(list(r) + [''] * WIDTH)[:WIDTH] for r in rs]
        eq(cells.get(name), exp, "sheet {} filled from the LDML".format(name))
    kinds = set(b[0] for b in case['blocks'])
    ctx.nontrivial(len(want) >= 3 and len(kinds) >= 2)
    for k in kinds:
        ctx.label(k)
    ctx.label(case['format'])


# ---- the template that is shipped ------------------------------------------------------------

@functools.lru_cache(None)
def template_rows():
    """[(sheet, row, path)] of the cells to fill in"""
    res = []
    for name, rows in readods(TEMPLATE).items():
        if name in ('Core', 'Posix', 'Minimal', 'Basic'):
            for i, r in enumerate(rows):
                if re.match(r'[a-zA-Z]+/', r[1]) and '=""' not in r[1]:
                    res.append((name, i, r[1]))
    return res


@functools.lru_cache(None)
def template_strategy():
    v = values().map(lambda s: s or 'x')
    return st.fixed_dictionaries(dict(values=st.lists(v, min_size=8, max_size=45), start=st.integers(0, 60), step=st.sampled_from([1, 1, 3, 7]), lang=st.sampled_from(['', 'xyz', 'en'])))


def template(case, ctx):
    rows = template_rows()
    check(len(rows) > 40, "the template has {} rows only", len(rows))
    vals = {}
    for k, v in enumerate(case['values']):
        n = (case['start'] + k * case['step']) % len(rows)
        vals[n] = (case['lang'] or 'x1') if '[@type]' in rows[n][2] else v
    # an LDML file with the values, written here
    doc = {}
    for n in sorted(vals):
        doc.update(said([(0, 0, rows[n][2], vals[n])]))
    root = ET.Element('ldml')
    for p, text in doc.items():
        e = root
        for tag, attrs in p:
            c = next((c for c in e if c.tag == tag and tuple(sorted(c.attrib.items())) == attrs), None)
            e = ET.SubElement(e, tag, dict(attrs)) if c is None else c
        e.text = text
    src, mid, out = ctx.path('in.xml'), ctx.path('mid.ods'), ctx.path('out.xml')
    ET.ElementTree(root).write(src, encoding='utf-8', xml_declaration=True)
    s = call(Sheet, odsfile=TEMPLATE, ldmlfile=src)
    call(s.process)
    call(s.writeods, mid)
    exp = readods(TEMPLATE)
    got = readods(mid)
    eq(sorted(got), sorted(exp), "sheets")
    for n, v in vals.items():
        name, i, path = rows[n]
        exp[name][i][3] = v
    for name in exp:
        for i, (g, w) in enumerate(zip(got[name], exp[name])):
            eq(g, w, "row {} of sheet {}".format(i + 1, name))
    s = call(Sheet, odsfile=mid)
    call(s.process)
    call(s.writeldml, out)
    eq(leaves(out), doc, "LDML from the filled template")
    ctx.nontrivial(len(doc) > 3)
    ctx.label('{} values'.format(len(doc) // 10 * 10))


CHECK = Check('C19', 'Spreadsheets and LDML',
              'three values or more, from rows or tables of two kinds (shipped template: more than three values)',
              [Sub('sheet', strategy, run, quick=350, thorough=12000),
               Sub('template', template_strategy, template, quick=25, thorough=900)],
              assumptions=['OpenDocument files are read and written by the check itself'])
