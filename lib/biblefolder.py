"""Folders of books in versions (the content that spec/Lifecycle.tla gives them), as Bibles of several kinds."""
import argparse, os, shutil, tempfile
import bookdrv as B
IDS = {'RUT': 'RUT', 'JNA': 'JON', 'MRK': 'MRK', 'JDE': 'JUD', 'OBA': 'OBA'}
NAMES = {'RUT': 'Ruth', 'JNA': 'Jonah', 'MRK': 'Mark', 'JDE': 'Jude'}
KINDS = ('USFM', 'USFM2', 'ESFM', 'USX')
CLS, MOD = {}, {}
LOG = None           # the file in which every opening of a book is noted (also by other processes)
def nch(v): return 1 + v % 3
def nv(v, c): return 2 + (v + c) % 3
def text(b, v, c, x): return f'{b} v{v % 3} chapter{c} verse{x} {"after" if v > 1 else "before"}.'
def filename(kind, b): return IDS[b] + {'USX': '.usx', 'ESFM': '.ESFM'}.get(kind, '.usfm')
def contents(kind, b, v):
    if kind != 'USX':
        return f'\\id {IDS[b]} - Test\n\\h {NAMES[b]}\n\\toc1 The Book of {NAMES[b]}\n\\toc2 {NAMES[b]}\n\\mt1 {NAMES[b]}\n' + ''.join(
            f'\\c {c}\n\\p\n' + ''.join(f'\\v {x} {text(b, v, c, x)}\n' for x in range(1, nv(v, c) + 1)) for c in range(1, nch(v) + 1))
    para = lambda s, t: f'  <para style="{s}">{t}</para>\n'
    return f'<?xml version="1.0" encoding="utf-8"?>\n<usx version="3.0">\n  <book code="{IDS[b]}" style="id">- Test</book>\n' + para('h', NAMES[b]) + para('toc1', 'The Book of ' + NAMES[b]) + para('toc2', NAMES[b]) + para('mt1', NAMES[b]) + ''.join(
        f'  <chapter number="{c}" style="c" />\n' + para('p', ''.join(f'\n    <verse number="{x}" style="v" />{text(b, v, c, x)}' for x in range(1, nv(v, c) + 1))) for c in range(1, nch(v) + 1)) + '</usx>\n'
def setup():
    global LOG
    G = B.setup()
    from BibleOrgSys.Formats import USFMBible, USFM2Bible, ESFMBible, USXXMLBible
    MOD.update(USFM=USFMBible, USFM2=USFM2Bible, ESFM=ESFMBible, USX=USXXMLBible)
    CLS.update(USFM=USFMBible.USFMBible, USFM2=USFM2Bible.USFM2Bible, ESFM=ESFMBible.ESFMBible, USX=USXXMLBible.USXXMLBible)
    G.commandLineArguments = argparse.Namespace(export=False)
    for m, c in ((USFMBible, 'USFMBibleBook'), (USFM2Bible, 'USFM2BibleBook'), (ESFMBible, 'ESFMBibleBook'), (USXXMLBible, 'USXXMLBibleBook')): count(getattr(m, c))
    return G
def count(cls):
    real = cls.load
    def load(self, fn, folder=None, *a, **k):
        if folder and os.path.exists(os.path.join(str(folder), 'log', 'opened')):
            with open(os.path.join(str(folder), 'log', 'opened'), 'a') as f: f.write(self.BBB + '\n')
        return real(self, fn, folder, *a, **k)
    cls.load = load
class Folder:
    "a scratch folder of books; the file log/opened in it counts the readings"
    def __init__(self, kind, books, counted=True):
        self.kind, self.d = kind, tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
        for b in books: self.write(b, contents(kind, b, 1))
        os.mkdir(os.path.join(self.d, 'log'))
        if counted: open(os.path.join(self.d, 'log', 'opened'), 'w').close()
    def write(self, b, s):
        with open(os.path.join(self.d, filename(self.kind, b)), 'w', encoding='utf-8') as f: f.write(s)
    def version(self, b, v):
        if v == -1: self.write(b, '')
        elif v == -2: os.unlink(os.path.join(self.d, filename(self.kind, b)))
        else: self.write(b, contents(self.kind, b, v))
    def bible(self):
        x = CLS[self.kind](self.d, 'Test') if self.kind == 'ESFM' else CLS[self.kind](self.d, givenName='Test', encoding='utf-8')
        x.preload(); return x
    def opened(self):
        with open(os.path.join(self.d, 'log', 'opened')) as f: l = f.read().split()
        return {b: l.count(b) for b in set(l)}
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.d)
def proj(book):
    return ([(e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), e.getOriginalText(), [tuple(x) for x in e.getExtras() or []]) for e in book._processedLines],
            [(k, e.getEntryIndex(), e.getEntryCount(), e.getContextList()) for k, e in book._CVIndex.items()], book.assumedBookName, book.longTOCName, book.shortTOCName)
def load_fresh(kind, pairs):
    with Folder(kind, [], counted=False) as f:
        for b, v in pairs: f.version(b, v)
        bible = f.bible()
        for b, v in pairs: bible.loadBook(b)
        return bible
FRESH = {}; FRESHDISC = {}
def fresh(kind, b, v):
    "the projection of version v of book b of a Bible just loaded"
    if (kind, b, v) not in FRESH:
        FRESH[kind, b, v] = p = proj(load_fresh(kind, [(b, v)])[b])
        got = [x[3] for x in p[0] if x[0] == 'v~']; want = [text(b, v, c, x) for c in range(1, nch(v) + 1) for x in range(1, nv(v, c) + 1)]
        if got != want: FRESH[kind, b, v] = ([('not as written', got, want)],) + p[1:]
    return FRESH[kind, b, v]
def fresh_disc(kind, pairs):
    if (kind, pairs) not in FRESHDISC:
        bible = load_fresh(kind, pairs); bible.discover(); FRESHDISC[kind, pairs] = bible.discoveryResults
    return FRESHDISC[kind, pairs]
def differs(p, f):
    return B.first_diff([str(x) for y in p for x in y], [str(x) for y in f for x in y])
