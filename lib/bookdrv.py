"""Driving the real book-processing code and projecting its state onto the specification's."""
import vt
G = None
def setup():
    global G, IBB, IB, Bible, SimpleVerseKey
    G = vt.quiet_import()
    from BibleOrgSys.Internals import InternalBibleBook as IBB_
    from BibleOrgSys.Bible import Bible as B_
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey as S_
    IBB, Bible, SimpleVerseKey = IBB_, B_, S_
    return G

def amark(m):  # the library's marker -> the specification's
    if m.startswith('¬'): return '/' + m[1:]
    if m == 'cl¤': return 'cl$'
    return m

def make_book(rawlines, BBB='GEN', name='TestWork', process=True, kind='USFM3'):
    b = IBB.InternalBibleBook(name, BBB)
    b.objectNameString, b.objectTypeString = 'Test book', kind
    for m, t in rawlines: b.addLine(m, t)
    if process: b.processLines()
    return b

def raw_text(ln):
    if ln['m'] in ('c', 'v'): return ln['n'] + (' ' + ln['x'] if ln['x'] else '')
    return ln['x']

def entries(book):
    return book._processedLines

def proj(e):
    "one processed entry -> the specification's line"
    t = e.getCleanText() or ''; m = amark(e.getMarker())
    if m == 'c~': t = t.lstrip() # the space between the chapter number and what follows it
    return {'m': m, 'o': e.getOriginalMarker() or '', 't': t}

def proj_lines(lst): return [proj(e) for e in lst]

def proj_index(book):
    ix = book._CVIndex
    out = []
    for (c, v), e in ix.items():
        out.append({'c': c, 'v': v, 'ix': e.getEntryIndex(), 'n': e.getEntryCount(), 'ctx': [amark(m) for m in e.getContextList()]})
    return out

def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else None; y = b[i] if i < len(b) else None
        if x != y: return i, x, y
    return None
