"""C30: a Bible exported one file per verse is read back the same (spec/VersePerFile.tla)."""
import json, logging, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vt, bookdrv as B, bookcheck
from bookcheck import kinds, THEMES, KALL
INV = 'Back OwnFile Whole'
BOM = '\ufeff'

def behaviours(chk, K, mx, mn=3, cb=True, mode='bfs', num=1000, seed=None):
    return chk.tlc('MCFiles', f"SPECIFICATION FSpec\nCONSTANTS\n Kinds <- K\n MaxLines = {mx}\n MinLines = {mn}\n ChapterBook = {str(cb).upper()}\n Emit = TRUE\n Sim = {str(mode == 'sim').upper()}\nINVARIANTS {INV}\nCHECK_DEADLOCK FALSE\n",
                   mode=mode, num=num, depth=600, seed=seed,
                   gen={'MCFiles.tla': '---- MODULE MCFiles ----\nEXTENDS VersePerFile\nK == ' + kinds(K) + '\n====\n'})

def fields(e):
    sp = 1 if e.getMarker() == 'c~' and (e.getAdjustedText() or '').startswith(' ') else 0 # the space between the chapter number and what follows it
    d = {'marker': e.getMarker(), 'original marker': e.getOriginalMarker(), 'adjusted text': e.getAdjustedText(), 'clean text': e.getCleanText(),
            'original text': e.getOriginalText(), 'notes': [(x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in (e.getExtras() or [])]}
    if sp: d.update({'adjusted text': d['adjusted text'][1:], 'clean text': d['clean text'].lstrip(), 'notes': [(a, b - 1, c, f) for a, b, c, f in d['notes']]})
    return d
def unslash(s): return '¬' + s[1:] if s.startswith('/') else s.replace('cl$', 'cl¤', 1) if s.startswith('cl$') else s

def expected(books, recs, name, abbr):
    "path -> contents"
    out = {'Metadata.txt': ['BCVVersion = 1.0'] + ([f'Name = {name}'] if name else []) + ([f'Abbreviation = {abbr}'] if abbr else []) + [f'BookList = {list(books)!r}']}
    for BBB, rec in zip(books, recs):
        for f in rec['files']:
            out[f"{BBB}/{BBB}{f['name']}.txt"] = [l[:1] + unslash(l[1:]) for l in f['lines']]
        out[f'{BBB}/{BBB}__BookMetadata.txt'] = ['BCVVersion = 1.0'] + ['WorkName = ' + 'V'] + ['CVList = ' + repr([tuple(f['cv']) for f in rec['files']])]
    return out

def one(books, recs, d, name='Verses', abbr='V', bom=True, way=0):
    "write these books into d, compare the files, read them back and compare the Bible"
    from BibleOrgSys import BibleOrgSysGlobals as G
    from BibleOrgSys.Formats import BCVBible as M
    bible = B.Bible(); bible.name = name; bible.abbreviation = abbr
    raws = {}
    for BBB, rec in zip(books, recs):
        raws[BBB] = [(l['m'], B.raw_text(l)) for l in rec['raw']]
        b = B.make_book(raws[BBB], BBB, 'V', kind='ESFM' if any('<' in t for m, t in raws[BBB]) else 'USFM3') # (USFM's << is replaced by a quotation mark when it is first read)
        b.containerBibleObject = bible; bible.stashBook(b)
    data = {'books': raws, 'name': name, 'abbreviation': abbr, 'BOM': bom}
    was = G.prependBOMFlag; G.prependBOMFlag = bom
    try:
        if way % 2: bible.toBOSBCV(d)
        else: os.makedirs(d); bible.writeBOSBCVFiles(d)
    except Exception as e: return [('raises', f'the export raised {e!r}', data)]
    finally: G.prependBOMFlag = was
    want = expected(books, recs, name, abbr)
    got = {}
    for at, dirs, files in os.walk(d):
        for f in files:
            if f != 'AllFiles.zip': got[os.path.relpath(os.path.join(at, f), d)] = open(os.path.join(at, f), encoding='utf-8', newline='').read()
    if sorted(got) != sorted(want): return [('files', f'the files are {sorted(set(got) - set(want))} too many, {sorted(set(want) - set(got))} missing', data)]
    for f in want:
        text = (BOM if bom else '') + ''.join(l + '\n' for l in want[f])
        if got[f] != text:
            g, w = got[f].split('\n'), text.split('\n'); i = next((i for i in range(max(len(g), len(w))) if g[i:i + 1] != w[i:i + 1]))
            return [('files', f'{f} line {i + 1}: code {g[i:i + 1]}, specification {w[i:i + 1]}', data)]
    try:
        if way % 3 == 2 and len(books) > 1:
            found = M.BCVBibleFileCheck(d, True, True, True) if len(recs) else None
            y = found
            if not isinstance(y, M.BCVBible): return [('found', f'BCVBibleFileCheck answered {found!r} for a folder of ours', data)]
        else:
            y = M.BCVBible(d, None if way % 3 else name)
            if way % 3 == 1:
                y.preload()
                for BBB in books: y.loadBook(BBB)
            else: y.loadBooks()
    except Exception as e: return [('raises', f'reading it back raised {e!r}', data)]
    if list(y.books) != list(bible.books): return [('books', f'{list(y.books)} came back for {list(bible.books)}', data)]
    for what in ('name', 'abbreviation'):
        if getattr(y, what) != getattr(bible, what) and not (what == 'name' and not name): return [('metadata', f'the {what} is {getattr(y, what)!r}, was {getattr(bible, what)!r}', data)]
    for BBB, rec in zip(books, recs):
        one_, two = bible.books[BBB], y.books[BBB]
        A, Z = list(one_._processedLines), list(two._processedLines)
        if len(A) != len(Z): return [('lines', f'{BBB} has {len(Z)} lines, had {len(A)}', data)]
        for i, (p, q) in enumerate(zip(A, Z)):
            p, q = fields(p), fields(q)
            for k in p:
                if p[k] != q[k]: return [('lines', f"{BBB} line {i + 1} ({p['marker']}): the {k} is {q[k]!r}, was {p[k]!r}", data)]
        if len(A) != len(rec['lines']): return [('book', f"{BBB} has {len(A)} lines, specification {len(rec['lines'])}", data)]
        for i, (e, l) in enumerate(zip(Z, rec['lines'])):
            bare = l['m'].startswith('/') or not l['o']
            g = [e.getMarker(), e.getOriginalMarker() or '', (e.getCleanText() if bare else e.getOriginalText()) or '']; w = [unslash(l['m']), l['o'], l['t']]
            if g != w: return [('book', f'{BBB} line {i + 1}: read back as {g}, specification {w}', data)]
        gi = B.proj_index(two)
        if gi != rec['index']: return [('index', f'{BBB}: the index of what was read back is {gi[:6]}, specification {rec["index"][:6]}', data)]
        if B.proj_index(one_) != gi: return [('index', f'{BBB}: the index is not what it was', data)]

def child(path):
    "the same where the locale is not UTF-8"
    B.setup(); logging.disable(logging.CRITICAL)
    out = []; d = tempfile.mkdtemp(prefix='c30c-')
    try:
        for k, (books, recs) in enumerate(json.load(open(path))):
            out += one(books, recs, os.path.join(d, str(k)), name='Bíblia “á”', bom=k % 2 == 0, way=k) or []
            if out: break
    finally: shutil.rmtree(d, ignore_errors=True)
    print('@@CHILD' + json.dumps(out[:3], default=repr))

def run():
    chk = vt.Check('C30'); B.setup(); logging.disable(logging.CRITICAL)
    scratch = tempfile.mkdtemp(prefix='c30-'); counts = {}; serial = [0]; some = []
    NAMES = [('Verses', 'V'), ('My Bible = good', 'MBG'), ('“Títul” <<x>>', 'T')]
    def replay(name, cb, recs):
        items = [(i, [('GEN' if cb else 'FRT', r)]) for i, r in enumerate(recs)]
        def case(item):
            i, br = item; nm, ab = NAMES[i % 3]
            d = os.path.join(scratch, f'{os.getpid()}-{i}')
            try: return one([b for b, r in br], [r for b, r in br], d, nm, ab, bom=i % 2 == 0, way=i % 7)
            finally: shutil.rmtree(d, ignore_errors=True)
        if cb and name.startswith('random'): # several books
            items += [(1000 + i, [(b, r) for b, r in zip(('GEN', 'RUT', 'SA1', 'JHN'), recs[i:i + 4])]) for i in range(0, len(recs) - 3, 4)]
        vt.replay_all(chk, items, case); counts[name] = len(recs)
        some.extend([[b for b, r in br], [r for b, r in br]] for i, br in items[:: max(1, len(items) // 4)])
        for r in recs[len(recs) // 2:][:1]: chk.sample({'theme': name, 'lines': r['raw'], 'files': r['files']})
    try:
        for name, (K, q, t, cb) in THEMES.items():
            replay(name, cb, behaviours(chk, K, t if chk.thorough else max(4, q - 1), cb=cb).records)
            if chk.nviol: break
        if not chk.nviol:
            n = 1500 if chk.thorough else 80
            for k, (mx, mn) in enumerate([(15, 10), (40, 25)]):
                replay(f'random{mx}', True, behaviours(chk, KALL, mx, mn, True, 'sim', n, seed=chk.seed * 10 + k).records)
            replay('random-matter', False, behaviours(chk, "h:+ ip:+ p:+ p q:+ s1:+ ms1:+ b li1:+ io1:+ mt1:+ ili:+ m:+ q2:+ is1:+", 20, 10, False, 'sim', n // 2, seed=chk.seed * 10 + 5).records)
        p = os.path.join(scratch, 'some.json'); json.dump(some, open(p, 'w'))
        env = dict(os.environ, LC_ALL='POSIX', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', C30_CHILD=p); env.pop('PYTHONIOENCODING', None)
        r = subprocess.run([sys.executable, os.path.abspath(__file__)], env=env, capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if l.startswith('@@CHILD')]
        if not out: raise vt.MachineryError('no answer in the other locale: ' + r.stderr[-1500:])
        for clause, what, data in json.loads(out[0][7:]): chk.violation(clause, 'where the locale is not UTF-8: ' + what, data)
        chk.validated += len(some); chk.extra['other_locale'] = len(some)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    chk.extra['behaviours_per_theme'] = counts; chk.extra['invariants'] = INV.split(); chk.exhaustive = False
    chk.assumptions = ['source lines are well-formed in the sense of Book!Allowed', 'every sequence up to the bound of each theme; longer ones sampled over all kinds of lines',
                       'no line contains a line break']
    return chk.finish()
if os.environ.get('C30_CHILD'): child(os.environ['C30_CHILD'])
else: vt.main(run)
