"C09: a book written as USFM and read back"
import vt, bookdrv as B, os, shutil, tempfile
from bookcheck import kinds, THEMES, KALL
INV = "SameBook FixedPoint TextWritten VersesWritten"
def behaviours(chk, K, mx, usfm3, nob, rich, mn=3, cb=True, mode='bfs', num=1000, seed=None, shift=0):
    return chk.tlc('MCExport', f"SPECIFICATION ESpec\nCONSTANTS\n Kinds <- K\n MaxLines = {mx}\n MinLines = {mn}\n ChapterBook = {str(cb).upper()}\n Emit = TRUE\n Sim = {str(mode == 'sim').upper()}\n Usfm3 = {str(usfm3).upper()}\n NoBridges = {str(nob).upper()}\n Shift = {shift}\n{' Txt <- RichTxt' if rich else ''}\nINVARIANTS {INV}\nCHECK_DEADLOCK FALSE\n",
                   mode=mode, num=num, depth=900, seed=seed,
                   gen={'MCExport.tla': '---- MODULE MCExport ----\nEXTENDS Exporting\nK == ' + kinds(K) + '\n====\n'})
def full(b): return [(B.amark(e.getMarker()), ((e.getCleanText() if e.getFullText() is None or e.getMarker()[0] == '¬' else e.getFullText()) or '').strip()) for e in b._processedLines]
def every(b): return [(e.getMarker(), (e.getAdjustedText() or '').strip(), (e.getCleanText() or '').strip(), [(x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in e.getExtras() or []]) for e in b._processedLines]
def written(folder, suffix):
    fn = [x for x in os.listdir(folder) if x.endswith(suffix)]
    assert len(fn) == 1, fn
    with open(os.path.join(folder, fn[0]), newline='', encoding='utf-8') as f: return fn[0], f.read()
def norm(lines, nob): return [l.rstrip(' ') if nob else l for l in lines]
def one(rec, usfm3, nob, BBB):
    from BibleOrgSys.Formats.USFMBible import USFMBible
    raw = [(l['m'], B.raw_text(l)) for l in rec['raw']]; info = {'raw': raw, 'BBB': BBB}
    d = tempfile.mkdtemp(prefix='c09')
    try:
        bible = B.Bible(); bible.name = bible.abbreviation = 'V'
        b = B.make_book(raw, BBB, kind='USFM'); b.containerBibleObject = bible; bible.stashBook(b)
        f = 'toUSFM3' if usfm3 else 'toUSFM2'
        i, x, y = B.first_diff(full(b), [(l['m'], l['t']) for l in rec['lines']]) or (None, None, None)
        if i is not None: return [('book', f'line {i} of the book is {x}, specification {y}', info)]
        getattr(bible, f)(os.path.join(d, '1'), *([True] if nob else []))
        name, text = written(os.path.join(d, '1'), '.usfm')
        if not name.endswith('.usfm') or B.G.loadedBibleBooksCodes.getUSFMAbbreviation(BBB).upper() not in name: return [('file name', f'{name} for {BBB}', info)]
        got = text.split('\r\n'); df = B.first_diff(norm(got, nob), norm(rec['file'], nob))
        if df: return [('file', f'line {df[0]} of the {f} file is {df[1]!r}, specification {df[2]!r}', dict(info, file=got, spec=rec['file']))]
        for g in os.listdir(os.path.join(d, '1')):
            if g != name: os.remove(os.path.join(d, '1', g))
        u = USFMBible(os.path.join(d, '1'), givenName='V', encoding='utf-8'); u.preload(); u.loadBooks()
        b2 = u.books.get(BBB)
        if b2 is None or len(u.books) != 1: return [('read back', f'books read back: {list(u.books)}', dict(info, file=got))]
        df = B.first_diff(full(b2), [(l['m'], l['t']) for l in rec['again']])
        if df: return [('read back', f'line {df[0]} of the book read back from {f} is {df[1]}, specification {df[2]}', dict(info, file=got))]
        # everything about the lines (notes, character formatting), apart from the added version line
        if not nob:
            skip = lambda L: [e for e in L if e[0] != 'usfm']
            a, c = skip(every(b)), skip(every(b2))
            if len(a) != len(c): a, c = [[e for e in L if e[0] != 'c#'] for L in (a, c)]
            df = B.first_diff(a, c)
            if df: return [('read back', f'line {df[0]} was {df[1]} and is read back from {f} as {df[2]}', dict(info, file=got))]
        getattr(u, f)(os.path.join(d, '2'), *([True] if nob else []))
        name2, text2 = written(os.path.join(d, '2'), '.usfm')
        if (name2, text2) != (name, text) and not (nob and norm(text2.split('\r\n'), 1) == norm(got, 1)): return [('fixed point', f'writing the book read back gives another file', dict(info, first=text, second=text2))]
        if not usfm3 and not nob:
            bible.toPseudoUSFM(os.path.join(d, '3'))
            n3, t3 = written(os.path.join(d, '3'), '.pSFM')
            for k, (e, l, dep) in enumerate(zip(b._processedLines, rec['lines'], rec['depth'])):
                m = e.getMarker(); t = e.getAdjustedText()
                want = '   ' * dep + (' ' if len(m) < 2 and m != 'h' else '') + m + ' = ' + (repr(t) if t is not None else '')
                g = t3.lstrip('\ufeff').split('\n')[k]
                if not g.startswith(want): return [('listing', f'line {k} of the listing is {g!r}, specification {want!r}', info)]
            if t3.count('\n') != len(rec['lines']): return [('listing', f'{t3.count(chr(10))} lines for {len(rec["lines"])}', info)]
    except Exception as e:
        import traceback
        return [('raises', f'round trip raised {e!r} {traceback.format_exc()[-300:]}', info)]
    finally: shutil.rmtree(d, ignore_errors=True)
KFILE = KALL.replace('h1:+ ', '') # h1 is no marker of the library's tables
BR = "c:c v:v+ v:b+ v:g v:g+ v:b p p:+ s1:+ v:l+"
def run():
    chk = vt.Check('C09'); B.setup()
    import logging; logging.disable(logging.CRITICAL)
    counts = {}
    def replay(name, usfm3, nob, cb, recs):
        BBB = 'GEN' if cb else 'FRT'
        vt.replay_all(chk, recs, lambda r: one(r, usfm3, nob, BBB), chunk=100); counts[name] = len(recs)
        for r in recs[len(recs) // 2:][:1]: chk.sample({'theme': name, 'lines': r['raw'], 'file': r['file']})
    cut = 0 if chk.thorough else 1
    for k, (name, (K, q, t, cb)) in enumerate(THEMES.items()):
        for usfm3 in ((k % 2 == 0,) if not chk.thorough else (True, False)):
            if not chk.nviol: replay(f'{name} {2 + usfm3}', usfm3, False, cb, behaviours(chk, K, q - cut, usfm3, False, False, cb=cb).records)
    for usfm3 in (True, False):
        if not chk.nviol: replay(f'bridges {2 + usfm3}', usfm3, True, True, behaviours(chk, BR, 6 if chk.thorough else 4, usfm3, True, False).records)
    n = 600 if chk.thorough else 25
    for mx, mn in ((15, 10), (40, 25)):
        for usfm3 in (True, False):
            if not chk.nviol: replay(f'random {mx} {2 + usfm3}', usfm3, False, True, behaviours(chk, KFILE, mx, usfm3, False, True, mn, True, 'sim', n, seed=chk.seed * 30 + mx + usfm3, shift=chk.seed % 9).records)
    chk.extra['behaviours_per_theme'] = counts; chk.extra['invariants'] = INV.split(); chk.exhaustive = False
    return chk.finish()
vt.main(run)
