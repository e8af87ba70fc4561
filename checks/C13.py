"C13: loading the books of a Bible with several worker processes"
import multiprocessing as mp, os, time
import vt, bookdrv as B, biblefolder as F
BOOKS = ['RUT', 'JNA', 'MRK', 'JDE']
ORDER = None          # the order in which the workers shall finish
def paced(cls):
    "workers of the class finish in the wanted order"
    real = cls._loadBookMP
    def _loadBookMP(self, x, *a):
        r = real(self, x, *a); b = x if isinstance(x, str) else x[0]; d = os.path.join(str(self.sourceFolder), 'log')
        if ORDER and b in ORDER and os.path.isdir(d):
            i = ORDER.index(b); end = time.time() + 5
            while i and not os.path.exists(os.path.join(d, 'done' + ORDER[i - 1])) and time.time() < end: time.sleep(0.001)
            time.sleep(0.003); open(os.path.join(d, 'done' + b), 'w').close()
        return r
    cls._loadBookMP = _loadBookMP
def state(bible): return {k: dict(getattr(bible, k)) for k in ('BBBToNameDict', 'bookNameDict', 'combinedBookNameDict')} | {'availableBBBs': sorted(bible.availableBBBs), 'loadedAllBooks': bible.loadedAllBooks}
def case(c):
    global ORDER
    kind, rec = c; start = rec['start']
    mp.current_process()._config['daemon'] = False
    def play(f, workers):
        "the history on a new Bible, loading all with so many workers"
        bible = f.bible()
        for b, v in start.items():
            if v != 1: f.version(b, v)
        for p in rec['pre']:
            if p['op'] == 'loadBook': bible.loadBook(p['b'])
            elif p['op'] == 'edit': f.version(p['b'], p['v'])
            else: F.MOD[kind].findReplaceText(bible, {'findText': 'before', 'replaceText': 'after', 'replaceHistoryList': [], 'bookList': [p['b']], 'doBackups': False}, lambda *x: 'A')
        F.B.G.maxProcesses, F.B.G.alreadyMultiprocessing = workers, False
        try: bible.loadBooks()
        finally: F.B.G.maxProcesses = 1
        return bible
    def bad(what): return [('parallel', f"{kind} files {start}; {rec['nw']} workers finishing {rec['done']} after {[(p['op'], p['b']) for p in rec['pre']]}: {what}", {'key': repr((kind, rec))})]
    with F.Folder(kind, start) as f, F.Folder(kind, start) as g:
        ORDER = rec['done']
        try: bible = play(f, rec['nw'])
        except Exception as e: return bad(f'{e!r}')
        finally: ORDER = None
        other = play(g, 1)
        if F.B.G.alreadyMultiprocessing: return bad('still multiprocessing')
        mem = {b: v for b, v in rec['mem'].items() if v}
        for name, x in (('one after another', other), ('in parallel', bible)):
            if x.getBookList() != rec['order'] or [y.BBB for y in x] != rec['order']: return bad(f"books {x.getBookList()} {name}; specification {rec['order']}")
            for b, v in mem.items():
                p, q = F.proj(x[b]), F.fresh(kind, b, v)
                if p != q: return bad(f'{b} {name} is not version {v}: {F.differs(p, q)}')
                if x[b].containerBibleObject is not x: return bad(f'{b} {name} belongs to another Bible')
                if x[b].checkResultsDictionary != other[b].checkResultsDictionary if hasattr(x[b], 'checkResultsDictionary') else False: return bad(f'{b}: other remarks')
        if state(bible) != state(other): return bad(f'names {state(bible)}, one after another {state(other)}')
        for b in BOOKS: # nothing is left to be read, and the Bible goes on as any other
            try: n = bible.getNumChapters(b)
            except Exception as e: return bad(f'{b}: {e!r}')
            if n != (F.nch(mem[b]) if b in mem else None): return bad(f'{b} has {n} chapters')
        bible.discover(); other.discover()
        if bible.discoveryResults != other.discoveryResults: return bad('other survey')
        for h in (f, g):
            n = {b: k for b, k in h.opened().items()}
            if {b: n.get(b, 0) for b in start} != rec['reads']: return bad(f"files opened {n} {'in parallel' if h is f else 'one after another'}; specification {rec['reads']}")
    return []
def main():
    chk = vt.Check('C13'); F.setup()
    for c in F.CLS.values(): paced(c)
    def run(books, workers, pre, num=0, starts='{1, Blank}', replace=True):
        gen = {'MCPar.tla': '---- MODULE MCPar ----\nEXTENDS Parallel\nBk == <<' + ', '.join(f'"{x}"' for x in books) + '>>\nWk == ' + workers + '\nSt == ' + starts + '\n====\n'}
        r = chk.tlc('MCPar', f'SPECIFICATION Spec\nCONSTANTS\n Books <- Bk\n Workers <- Wk\n Starts <- St\n Replacing = {str(replace).upper()}\n MaxPre = {pre}\n Emit = TRUE\n Sim = {str(bool(num)).upper()}\nINVARIANTS Same OnceEach NothingLeft Emitting\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=pre + 14, gen=gen)
        if r.records: chk.sample(r.records[len(r.records) // 2])
        return r.records
    t = chk.thorough
    cases = [('USFM', r) for r in run(BOOKS[:3], '{2, 3}', 1)]                        # every order of finishing
    if t: cases += [('USFM', r) for r in run(BOOKS, '{2, 3, 4}', 1)]
    cases += [('USFM', r) for r in run(BOOKS, '{2, 3, 4}', 3, 300 if t else 25)]
    cases += [('USFM2', r) for r in run(BOOKS, '{2, 3, 4}', 3, 100 if t else 10)]
    cases += [('ESFM', r) for r in run(BOOKS, '{2, 3, 4}', 2, 100 if t else 10, replace=False)]
    cases += [('USX', r) for r in run(BOOKS, '{2, 3, 4}', 2, 100 if t else 10, '{1}', False)]
    vt.replay_all(chk, cases, case, seconds=60, chunk=10)
    chk.extra['schedules'] = len(cases)
    return chk.finish()
vt.main(main)
