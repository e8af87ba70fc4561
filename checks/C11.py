"C11: Bibles saved and loaded back"
import os, shutil, tempfile, multiprocessing as mp
import vt, bookdrv as B, biblefolder as F
ABBR = {'one': 'AAA', 'two': 'B b: 2'}
def proj(book):
    names = book.getAssumedBookNames()
    return ([(e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), e.getOriginalText(), [tuple(x) for x in e.getExtras() or []]) for e in book._processedLines],
            [(k, e.getEntryIndex(), e.getEntryCount(), e.getContextList()) for k, e in book._CVIndex.items()],
            *[getattr(book, x, None) for x in ('assumedBookName', 'longTOCName', 'shortTOCName')], book.BBB, names, book.isSingleChapterBook, book._processedFlag, book._indexedCVFlag)
def differs(p, q): return [B.first_diff(x, y) if isinstance(x, list) and isinstance(y, list) else (x, y) for x, y in zip(p, q) if x != y][:1]
BOOKS = {}
def original(k):
    "the projection of a book just made of the lines of the specification"
    return proj(make('one', [{'b': BOOKS[k][0], 'k': k}]).books[BOOKS[k][0]])
KNOWN = {}
def known(k):
    if k not in KNOWN: KNOWN[k] = original(k)
    return KNOWN[k]
def make(abbr, books):
    bible = B.Bible(); bible.name = 'The ' + ABBR[abbr] + ' Bible'; bible.abbreviation = ABBR[abbr]; bible.sourceFolder = os.environ['VERIF_SCRATCH']
    for x in books:
        if x['k'] not in BOOKS: BOOKS[x['k']] = (x['b'], [(l['m'], l['t']) for l in x['lines']])
        b = B.make_book(BOOKS[x['k']][1], x['b']); b.containerBibleObject = bible; bible.stashBook(b)
    return bible
def survey(ks):
    bible = make('one', [{'b': BOOKS[k][0], 'k': k} for k in ks]); bible.discover(); return bible.discoveryResults
def case(rec):
    mp.current_process()._config['daemon'] = False # the library may start its own processes
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    try: return one(rec['ops'], d)
    finally: shutil.rmtree(d)
def one(ops, d):
    G, P = B.G, PB
    mem = rd = None; memk = []; rdk = {}; zips = {}; saved = {}; meta = {}
    place = lambda p: os.path.join(d, p) if p else d
    for p in ('here', 'there'): os.mkdir(place(p))
    def bad(k, what): return [('history', f"{[(o['op'], [[x['k'] for x in a] if isinstance(a, list) else a for a in o['args']]) for o in ops[:k + 1]]}: {what}", {'key': repr([(o['op'], [[x['k'] for x in a] if isinstance(a, list) else a for a in o['args']]) for o in ops[:k + 1]])})]
    n = 0
    for k, o in enumerate(ops):
        op, a, exc, got, want = o['op'], o['args'], '', '', o['ans']
        G.maxProcesses, G.alreadyMultiprocessing = 1, False
        try:
            if op == 'make': mem = make(*a); memk = [x['k'] for x in a[1]]
            elif op == 'touch':
                if a[0] == 'discover': mem.discover()
                elif a[0] == 'find': mem.findText({'findText': 'says', 'caselessFlag': False})
                elif a[0] == 'sections': mem.discover(); mem.makeSectionIndex()
                else:
                    t = tempfile.mkdtemp(dir=d); mem.toUSFM2(t); shutil.rmtree(t)
            elif op == 'adopt': mem, memk, rd = rd, [rdk[b] for b in rd.getBookList()], None
            elif op == 'save':
                n += 1; p, form, level = a; before = set(os.listdir(place(p)))
                if not mem.toPickledBible(place(p), {'serial': str(n)}, level, form == 'zip'): return bad(k, 'saving failed')
                z = mem.abbreviation
                new = [x for x in set(os.listdir(place(p))) - before if x.endswith('.zip')]
                if (p, z) not in zips:
                    if len(new) != 1: return bad(k, f'zip files made: {new}')
                    zips[p, z] = new[0]
                elif new: return bad(k, f'zip files made: {new}')
                saved['zip', p, z] = (list(memk), n)
                if form == 'folder': saved['folder', p] = (list(memk), n)
            elif op == 'saveObject':
                if not mem.pickle('object', place(p := a[0])): return bad(k, 'saving failed')
                saved['object', p] = (list(memk), 0)
            elif op in ('openFolder', 'openZip'):
                src = ('folder', a[0]) if op == 'openFolder' else ('zip', a[0], ABBR[a[1]])
                rd = P.PickledBible(place(a[0]) if op == 'openFolder' else os.path.join(place(a[0]), zips[src[1:]]))
                rdk = {BOOKS[x][0]: x for x in saved[src][0]}
                v = rd.pickleVersionData; got = {'books': v['bookList'], 'level': v['DataLevel']}
                if v['serial'] != str(saved[src][1]): return bad(k, f"this is save number {v['serial']}")
            elif op == 'openObject':
                rd = G.unpickleObject('object.pickle', place(a[0])); rdk = {BOOKS[x][0]: x for x in saved['object', a[0]][0]}
            elif op == 'check':
                r = P.PickledBibleFileCheck(place(a[0]), autoLoad=a[1] != 'count', autoLoadBooks=a[1] == 'books')
                if isinstance(r, P.PickledBible):
                    got = 'Bible'; rd = r; rdk = {x['b']: f"{x['b']}{x['s']}" for x in o['seen']['saved']}
                else: got = str(r)
            elif op == 'details':
                r = P.getZippedPickledBiblesDetails(place(a[0]), extended=True); name = {v: k for k, v in ABBR.items()}
                got = {name[x['abbreviation']]: {'books': x['bookList'], 'level': x['DataLevel']} for x in r}
                want = want or {}
                if len(r) != len(got) or any(x['zipFilename'] != zips[a[0], x['abbreviation']] for x in r): return bad(k, f"zip files {[x['zipFilename'] for x in r]}")
            elif op == 'preload': rd.preload()
            elif op == 'loadBook': rd.loadBook(a[0])
            elif op == 'loadAll': G.maxProcesses = a[0]; rd.loadBooks()
            elif op == 'ask':
                b, c, v = a; t = rd.getVerseText(B.SimpleVerseKey(b, str(c), str(v)))
                got = [str(rd.getNumChapters(b)), str(rd.getNumVerses(b, str(c))), 'None' if t is None else t.replace('¶', '').replace('§', '')]
            elif op == 'names':
                got = str(rd.getLongTOCName(a[0])) if want != '-' else '-'
                q = known(rdk[a[0]])[2:5] if a[0] in rd else (None, None, None)
                m = (rd.getAssumedBookName(a[0]), rd.getLongTOCName(a[0]), rd.getShortTOCName(a[0]))
                if m != q: return bad(k, f'names {m}; when saved {q}')
            elif op == 'discover':
                rd.discover(); q = survey([rdk[b] for b in rd.getBookList()])
                for b in q:
                    if rd.discoveryResults.get(b) != q[b]: return bad(k, f'survey of {b} differs: {[(x, q[b][x], rd.discoveryResults.get(b, {}).get(x)) for x in q[b] if q[b][x] != rd.discoveryResults.get(b, {}).get(x)][:3]}')
        except vt.CaseTimeout: raise
        except Exception as e:
            exc = type(e).__name__; msg = repr(e); got = ''
        if exc != o['exc']: return bad(k, f"{msg if exc else 'no exception'}; specification {o['exc'] or 'no exception'}")
        if got != want: return bad(k, f'answer {got!r}; specification {want!r}')
        if op in ('touch', 'save', 'saveObject'): # the Bible in memory stays what it was
            if [BOOKS[x][0] for x in memk] != mem.getBookList(): return bad(k, f'books of the Bible in memory: {mem.getBookList()}')
            for x in memk:
                if proj(mem.books[BOOKS[x][0]]) != known(x): return bad(k, f'{x} in memory is changed: {differs(proj(mem.books[BOOKS[x][0]]), known(x))}')
        s = o['seen']
        if not s['kind']: rd = None
        if rd is None: continue
        lst = rd.getBookList(); ref = [x['b'] for x in s['saved']]
        inorder = [x for x in ref if x in s['loaded']] == s['loaded']
        if (lst if inorder else sorted(lst)) != (s['loaded'] if inorder else sorted(s['loaded'])) or len(rd) != len(lst): return bad(k, f"books {lst}; specification {s['loaded']}")
        if s['pre']:
            if rd.abbreviation != ABBR[s['abbr']] or rd.name != 'The ' + ABBR[s['abbr']] + ' Bible': return bad(k, f'the Bible is called {rd.abbreviation} {rd.name}')
            if s['kind'] != 'object' and rd.availableBBBs != set(ref): return bad(k, f'books available {rd.availableBBBs}; saved {ref}')
        for b in lst:
            p = proj(rd.books[b]); q = known(rdk[b])
            if p != q: return bad(k, f'{b} is not as it was saved: {differs(p, q)}')
            if rd.books[b].containerBibleObject is not rd: return bad(k, f'{b} belongs to another Bible')
    return []
PB = None
def main():
    global PB
    chk = vt.Check('C11'); F.setup()
    from BibleOrgSys.Formats import PickledBible as PB_
    PB = PB_
    ALL = ['make', 'remake', 'touch', 'adopt', 'save', 'saveObject', 'open', 'openObject', 'check', 'details', 'preload', 'loadBook', 'loadAll', 'ask', 'names', 'discover']
    def run(pool, ops, mx, num=0, shapes='0..31', levels='1..3', places='{"here", "there"}', abbrs='{"one", "two"}', maxb=4):
        gen = {'MCSaves.tla': '---- MODULE MCSaves ----\nEXTENDS Saves\nPl == {' + ', '.join(f'"{x}"' for x in pool) + '}\nOp == {' + ', '.join(f'"{x}"' for x in ops) + f'}}\nSh == {shapes}\nLv == {levels}\nPc == {places}\nAb == {abbrs}\n====\n'}
        r = chk.tlc('MCSaves', f'SPECIFICATION Spec\nCONSTANTS\n Pool <- Pl\n Ops <- Op\n Shapes <- Sh\n Levels <- Lv\n Places <- Pc\n Abbrs <- Ab\n MaxBooks = {maxb}\n MaxOps = {mx}\n Emit = TRUE\n Sim = {str(bool(num)).upper()}\nINVARIANTS OnlySaved Emitting\nPROPERTIES SavedOrder Kept\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=mx + 1, gen=gen)
        if r.records: x = r.records[len(r.records) // 2]; chk.sample([(y['op'], y['args'] if y['op'] != 'make' else [z['k'] for z in y['args'][1]], y['ans']) for y in x['ops']])
        return r.records
    t = chk.thorough
    few = ['make', 'save', 'open', 'preload', 'loadBook', 'loadAll', 'ask', 'check']
    cases = run(['GEN', 'JDE'], few, 5 if t else 4, shapes='{31}' if t else '{0, 31}', levels='{1}' if t else '{1, 3}', places='{"here"}', abbrs='{"one"}', maxb=2)
    cases += run(['GEN', 'EXO', 'MAT', 'JDE', 'FRT', 'GLS'], ALL, 16, 6000 if t else 400)
    cases += run(['GEN', 'EXO', 'MAT', 'JDE', 'FRT', 'GLS'], few + ['names'], 10, 6000 if t else 400)
    vt.replay_all(chk, cases, case, seconds=30, chunk=20)
    chk.extra['histories'] = len(cases)
    return chk.finish()
vt.main(main)
