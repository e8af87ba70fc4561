"C28: find and replace over the files of a Bible, with a user who confirms, refuses, stops and undoes"
import vt, os, shutil, tempfile
import bookdrv as B, biblefolder as F
REAL = {'w': 'é', 'q': '☺'}
FILES = {'GEN': '01-GENx.usfm', 'RUT': '08-RUTx.usfm', 'JNA': '32-JONx.usfm', 'JDE': '65-JUDx.usfm'}
FILES = {b: f.replace('x', '') for b, f in FILES.items()}
def real(t): return ''.join(REAL.get(c, c) for c in t)
def blob(f, enc): return real(f['t']).replace('\n', '\r\n' if f['crlf'] else '\n').encode(enc)
def case(c):
    books, kind, salt, hist = c
    enc = 'iso-8859-1' if any(h['o']['latin'] for h in hist) else 'utf-8'   # the encoding of the files is one for all runs
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    def no(k, what): return [('replace', f'{kind} {enc} run {k + 1} {hist[k]["o"]} answers {"".join(q["a"] for q in hist[k]["q"])}: {what}', {'key': repr(hist)[:300], 'history': hist})]
    path = lambda i: os.path.join(d, FILES[books[i]])
    try:
        for i, f in enumerate(hist[0]['from']):
            with open(path(i), 'wb') as fh: fh.write(blob(f, enc))
        x = F.CLS[kind](d, givenName='Test', encoding=enc)
        mod = F.MOD[kind]; x.preload()
        if salt % 2:
            for b in books: x.loadBookIfNecessary(b)
        finds, repls = [], []; touched = set()
        for k, h in enumerate(hist):
            o = h['o']; want = h['res']; asked = []
            rep = ''.join({'g0': r'\g<0>', 'g1': r'\1', 'g2': r'\2'}.get(p, real(p)) for p in o['repl'])
            opts = {'findText': ('regex:' if salt % 3 else 'Regex:') * o['regex'] + real(o['find']), 'replaceText': rep}
            if o['mode'] != 'Any' or salt % 3 == 0: opts['wordMode'] = o['mode']
            if o['ctx'] != 60 or salt % 5 == 0: opts['contextLength'] = o['ctx']
            if not o['bk'] or salt % 4 == 0: opts['doBackups'] = o['bk']
            if o['books']: opts['bookList'] = [books[i - 1] for i in o['books']] if len(o['books']) > 1 or salt % 2 else books[o['books'][0] - 1]
            elif salt % 7 < 2: opts['bookList'] = ('ALL', None)[salt % 7]
            if salt % 3 < 2 or k: opts['findHistoryList'], opts['replaceHistoryList'] = finds, repls
            def confirm(ref, pre, found, post, willbe, undo):
                asked.append((ref, pre, found, post, willbe, undo))
                if len(asked) > len(h['q']): return 'S'
                return h['q'][len(asked) - 1]['a']
            try: r = mod.findReplaceText(x, opts, confirm); err = None
            except UnicodeEncodeError as e: r, err = None, e
            except Exception as e: return no(k, f'raises {e!r}')
            if (err is not None) != want['fails']: return no(k, f'code raises {err!r}, specification: {"cannot be stored" if want["fails"] else "nothing"}')
            for n, q in enumerate(h['q']):
                w = (books[q['b'] - 1], real(q['pre']), real(q['f']), real(q['post']), real(q['pre'] + q['new'] + q['post']), q['undo'])
                if n >= len(asked) or asked[n] != w: return no(k, f'question {n + 1}: code {asked[n] if n < len(asked) else None}, specification {w}')
            if len(asked) > len(h['q']): return no(k, f'code asks once more: {asked[-1]}')
            if r:
                if r[0] is not opts: return no(k, 'the options')
                g = r[1]; nm = lambda l: [books[i - 1] for i in l]
                for a, w in (('numReplaces', want['replaces']), ('searchedBookList', nm(want['searched'])), ('replacedBookList', nm(want['replaced'])), ('aborted', want['aborted'])):
                    if g[a] != w: return no(k, f'{a}: code {g[a]}, specification {w}')
                if o['mode'] == 'Any' or o['regex']:
                    for a, w in (('numFinds', want['finds']), ('foundBookList', nm(want['found']))):
                        if not want['badre'] and g[a] != w: return no(k, f'{a}: code {g[a]}, specification {w}')
                if o['regex'] and g['hadRegexError'] != want['badre']: return no(k, f'hadRegexError: code {g["hadRegexError"]}')
                for l, w in (('findHistoryList', opts['findText']), ('replaceHistoryList', rep)):
                    if opts[l][-1] != w or opts[l].count(w) != 1: return no(k, f'{l} {opts[l]}')
            names = {}
            for i, f in enumerate(h['after']):
                names[FILES[books[i]]] = blob(f, enc)
                for n, g in enumerate(h['bak'][i]): names[FILES[books[i]] + '.bak' + (str(n + 1) if n else '')] = blob(g, enc)
            have = {}
            for fn in os.listdir(d):
                with open(os.path.join(d, fn), 'rb') as fh: have[fn] = fh.read()
            for fn in sorted(set(names) | set(have)):
                if names.get(fn) != have.get(fn): return no(k, f'file {fn}: code {have.get(fn)}, specification {names.get(fn)}')
            if not want['fails']: touched |= set(want['replaced'])
            flagged = {b for b in books if x.bookNeedsReloading.get(b)}
            if flagged != {books[i - 1] for i in touched}: return no(k, f'to be read again: code {flagged}, specification {touched}')
            if salt % 4 == 1:   # the Bible reads them again
                for b in books: x.loadBookIfNecessary(b)
                touched = set()
        for b in books: x.loadBookIfNecessary(b)
        y = F.CLS[kind](d, givenName='Test', encoding=enc); y.preload()
        for b in books:
            y.loadBook(b)
            if b in y.books and (b not in x.books or lines(x.books[b]) != lines(y.books[b])): return no(len(hist) - 1, f'{b} read again is not what is in the file')
        return []
    finally: shutil.rmtree(d)
def lines(b): return [(e.getMarker(), e.getFullText()) for e in b._processedLines]
def setup(): F.setup()
def main():
    chk = vt.Check('C28'); vt.quiet_import(); setup()
    q = lambda y: '"' + y.replace('\\', '\\\\').replace('\n', '\\n') + '"'
    S = lambda l: '{' + ', '.join('<<' + ', '.join(map(q, x)) + '>>' if isinstance(x, (list, tuple)) else q(x) for x in l) + '}'
    def run(books, pieces, pm, runs, plain, pats, repls, num=0):
        gen = {'MCRep.tla': f'---- MODULE MCRep ----\nEXTENDS Replace\nBk == <<{", ".join(chr(34) + F.IDS.get(b, b) + chr(34) for b in books)}>>\nPc == {S(pieces)}\nPl == {S(plain)}\nPt == {S(pats)}\nRp == {S(repls)}\n====\n'}
        r = chk.tlc('MCRep', f'SPECIFICATION Spec\nCONSTANTS\n Books <- Bk\n Pieces <- Pc\n PiecesMax = {pm}\n RunsMax = {runs}\n Plain <- Pl\n Patterns <- Pt\n Repls <- Rp\n Sim = {str(bool(num)).upper()}\n'
                    'INVARIANTS Working Apart Untouched Confirmed NoneLeft Kept\nCHECK_DEADLOCK FALSE\n', mode='sim' if num else 'bfs', num=num, depth=200, gen=gen)
        if r.records: chk.sample([{'answers': ''.join(q['a'] for q in h['q']), 'options': h['o'], 'after': [f['t'] for f in h['after']]} for h in r.records[len(r.records) // 2]])
        return [(books, ('USFM', 'USFM2')[n % 4 == 3], chk.seed + n * 7, h) for n, h in enumerate(r.records)]
    t = chk.thorough
    PATS = ['x+', 'x(?=y)', '(?<=y)x', '(x)(y)', 'x(y|z)', 'x$', '(?m)x$', 'x*(?=y)', 'x*']
    REPS = [(), ('x',), ('xx',), ('y',), ('z1',), ('xyx',), ('w',), ('q',), (' ',), ('g0', 'g0'), ('g2', 'g1'), ('y', 'g1')]
    REPS = [r or ('',) for r in REPS]
    cases = run(('GEN', 'RUT'), ['x', 'y'], 2 if t else 2, 1, ['x', 'xx'], ['x+', 'x(?=y)'] if t else ['x(?=y)'], [('',), ('xx',)])
    cases += run(('RUT', 'JNA', 'JDE'), ['x', 'y', 'z', 'xx', 'xy', 'yx', ' ', '1', '\n', 'w', 'x\n', ' x ', '\n\\m '], 8, 3, ['x', 'xx', 'xy', 'xyx', 'x1', 'x y', 'w'], PATS, REPS, 12000 if t else 900)
    cases += run(('GEN', 'RUT'), ['x', 'y', 'q', 'xx', '\n'], 5, 7, ['x', 'xx', 'q'], PATS, REPS, 1500 if t else 100)
    vt.replay_all(chk, cases, case, seconds=6, chunk=100)
    return chk.finish()
vt.main(main)
