"C10: a book written as USX and read back"
import vt, bookdrv as B, os, re, shutil, tempfile
import xml.etree.ElementTree as ET
from bookcheck import kinds, THEMES, KALL
INV = "SameBook FixedPoint TextWritten Nested Milestones"
def behaviours(chk, K, mx, rich, mn=3, cb=True, mode='bfs', num=1000, seed=None, shift=0):
    return chk.tlc('MCUsx', f"SPECIFICATION USpec\nCONSTANTS\n Kinds <- K\n MaxLines = {mx}\n MinLines = {mn}\n ChapterBook = {str(cb).upper()}\n Emit = TRUE\n Sim = {str(mode == 'sim').upper()}\n Shift = {shift}\n{' Txt <- RichTxt' if rich else ''}\nINVARIANTS {INV}\nCHECK_DEADLOCK FALSE\n",
                   mode=mode, num=num, depth=900, seed=seed,
                   gen={'MCUsx.tla': '---- MODULE MCUsx ----\nEXTENDS Usx\nK == ' + kinds(K) + '\n====\n'})
def full(b): return [(B.amark(e.getMarker()), ((e.getCleanText() if e.getFullText() is None or e.getMarker()[0] == '¬' else e.getFullText()) or '').strip()) for e in b._processedLines]
def every(b): return [(e.getMarker(), e.getAdjustedText() or '', e.getCleanText() or '', [(x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in e.getExtras() or []]) for e in b._processedLines]
def angle(m, t): # what the library makes of < and > in a text it loads from USX
    return t if m in ('id', 'ide', 'h', 'rem', 'c#') or t is None else t.replace('<', '‘').replace('>', '’')
def esc(s): return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
def lay(s): return re.sub(r'\n[ \t]*', '', s or '')
def inner(e):
    return '<' + e.tag + ''.join(f' {k}="{v}"' for k, v in sorted(e.items())) + '>' + esc(lay(e.text)) + ''.join(inner(x) + esc(lay(x.tail)) for x in e) + f'</{e.tag}>'
def parts(text, code):
    "the parts of a USX file in document order, adjacent text joined"
    root = ET.fromstring(text); out = []; at = lambda s: s[len(code) + 1:] if s.startswith(code + ' ') else '?' + s
    assert root.tag == 'usx', root.tag
    def add(t):
        if t:
            if out and out[-1][0] == 'text': out[-1] = ('text', '', '', out[-1][3] + t)
            else: out.append(('text', '', '', t))
    def stone(e):
        if len(e) or e.text: raise ValueError('content in ' + e.tag)
        if 'eid' in e.attrib: out.append((e.tag + 'end', '', at(e.attrib['eid']), ''))
        else:
            want = {'number': at(e.attrib['sid']).split(':')[-1], 'style': e.tag[0], 'sid': e.attrib['sid']}
            if e.attrib != want: raise ValueError(f'{e.attrib} for {want}')
            out.append((e.tag, '', at(e.attrib['sid']), ''))
    def content(e):
        add(esc(lay(e.text)))
        for x in e:
            if x.tag in ('verse', 'chapter'): stone(x)
            else: add(inner(x))
            add(esc(lay(x.tail)))
    add(esc(lay(root.text)))
    for e in root:
        if e.tag == 'book':
            if e.attrib != {'code': code, 'style': 'id'}: raise ValueError(str(e.attrib))
            out.append(('book', '', '', code + (' ' + e.text if e.text else '')))
        elif e.tag == 'para':
            out.append(('open', e.attrib['style'], at(e.attrib['vid']) if 'vid' in e.attrib else '', '')); content(e); out.append(('close', '', '', ''))
        elif e.tag in ('verse', 'chapter'): stone(e)
        else: add(inner(e))
        add(esc(lay(e.tail)))
    return [(k, m, n, x.strip() if k == 'text' else x) for k, m, n, x in out if k != 'text' or x.strip()]
def wanted(file):
    out = []
    for e in file:
        k, m, n, x = e['k'], e['m'], e['n'], e['x'].strip()
        if k == 'flat':
            out.append(('open', m, n, ''))
            if x: out.append(('text', '', '', x))
            out.append(('close', '', '', ''))
        elif k == 'text' and out and out[-1][0] == 'text': out[-1] = ('text', '', '', out[-1][3] + x)
        else: out.append((k, m, n, x))
    return out
def one(rec, BBB):
    from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
    if BBB != 'GEN': # the specification's book is called GEN
        for k in ('raw', 'lines', 'file', 'again'):
            f = 't' if 't' in rec[k][0] else 'x'; rec[k][0][f] = rec[k][0][f].replace('GEN', BBB)
    raw = [(l['m'], B.raw_text(l)) for l in rec['raw']]; info = {'raw': raw, 'BBB': BBB}
    d = tempfile.mkdtemp(prefix='c10')
    def write(bible, sub):
        bible.toUSXXML(os.path.join(d, sub))
        fs = [os.path.join(r, f) for r, _, ff in os.walk(os.path.join(d, sub)) for f in ff if f.endswith('.usx')]
        assert len(fs) == 1, fs
        with open(fs[0], encoding='utf-8-sig') as f: return fs[0], f.read()
    try:
        bible = B.Bible(); bible.name = bible.abbreviation = 'V'
        b = B.make_book(raw, BBB, kind='USFM'); b.containerBibleObject = bible; bible.stashBook(b)
        df = B.first_diff(full(b), [(l['m'], l['t']) for l in rec['lines']])
        if df: return [('book', f'line {df[0]} of the book is {df[1]}, specification {df[2]}', info)]
        name, text = write(bible, '1'); code = B.G.loadedBibleBooksCodes.getUSFMAbbreviation(BBB).upper()
        info['file'] = text
        if code not in os.path.basename(name): return [('file name', f'{name} for {BBB}', info)]
        try: got = parts(text, code)
        except ET.ParseError as e: return [('well-formed', f'the file is not XML: {e}', info)]
        except (ValueError, KeyError) as e: return [('file', f'bad element: {e}', info)]
        df = B.first_diff(got, wanted(rec['file']))
        if df: return [('file', f'part {df[0]} of the file is {df[1]}, specification {df[2]}', info)]
        u = USXXMLBible(os.path.dirname(name), 'V'); u.preload(); u.loadBooks()
        b2 = u.books.get(BBB)
        if b2 is None or len(u.books) != 1: return [('read back', f'books read back: {list(u.books)}', info)]
        df = B.first_diff(full(b2), [(l['m'], l['t']) for l in rec['again']])
        if df: return [('read back', f'line {df[0]} of the book read back is {df[1]}, specification {df[2]}', info)]
        a = [(m, angle(m, x), angle(m, y), [(t, i, angle(m, p), angle(m, q)) for t, i, p, q in z]) for m, x, y, z in every(b)]; c = every(b2)
        if len(a) != len(c): a, c = [[e for e in L if e[0] != 'c#'] for L in (a, c)]
        df = B.first_diff(a, c)
        if df: return [('read back', f'line {df[0]} was {df[1]} and is read back as {df[2]}', info)]
        name2, text2 = write(u, '2')
        if '<not>' not in str(raw):
            df = B.first_diff(parts(text2, code), got)
            if df: return [('fixed point', f'writing the book read back gives another file: part {df[0]} is {df[1]}, was {df[2]}', dict(info, second=text2))]
    except Exception as e:
        import traceback
        return [('raises', f'round trip raised {e!r} {traceback.format_exc()[-300:]}', info)]
    finally: shutil.rmtree(d, ignore_errors=True)
KFILE = KALL.replace('h1:+ ', '') # h1 is no marker of the library's tables
def run():
    chk = vt.Check('C10'); B.setup()
    import logging; logging.disable(logging.CRITICAL)
    counts = {}
    def replay(name, cb, recs):
        BBB = 'GEN' if cb else 'FRT'
        vt.replay_all(chk, recs, lambda r: one(r, BBB), chunk=100); counts[name] = len(recs)
        for r in recs[len(recs) // 2:][:1]: chk.sample({'theme': name, 'lines': r['raw'], 'file': r['file']})
    cut = 0 if chk.thorough else 1
    for k, (name, (K, q, t, cb)) in enumerate(THEMES.items()):
        if not chk.nviol: replay(name, cb, behaviours(chk, K, q - cut, False, cb=cb).records)
    n = 900 if chk.thorough else 40
    for mx, mn in ((15, 10), (40, 25)):
        for shift in range(2):
            if not chk.nviol: replay(f'random {mx} {shift}', True, behaviours(chk, KFILE, mx, True, mn, True, 'sim', n, seed=chk.seed * 30 + mx + shift, shift=(chk.seed * 2 + shift) % 10).records)
    chk.extra['behaviours_per_theme'] = counts; chk.extra['invariants'] = INV.split(); chk.exhaustive = False
    return chk.finish()
vt.main(run)
