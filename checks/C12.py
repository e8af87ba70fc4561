"C12: the life of a Bible object over a folder of files"
import vt, bookdrv as B, biblefolder as F
BOOKS = ['RUT', 'JNA', 'MRK', 'JDE']; NEVER = 'OBA'
def case(c):
    kind, rec = c
    with F.Folder(kind, rec['start']) as f: return one(kind, rec, f)
def one(kind, rec, f):
    start, ops = rec['start'], rec['ops']
    bible = f.bible()
    for b, v in start.items():
        if v != 1: f.version(b, v)
    def bad(k, what): return [('history', f"{kind} files {start}; after {[(o['op'], o['args']) for o in ops[:k + 1]]}: {what}", {'key': repr((kind, start, ops[:k + 1]))})]
    for k, o in enumerate(ops):
        op, a, exc, got = o['op'], o['args'], '', ''
        try:
            if op == 'load': bible.loadBooks()
            elif op in ('loadBook', 'loadBookIfNecessary', 'reloadBook', 'reProcessBook'): getattr(bible, op)(a[0])
            elif op == 'discover': bible.discover()
            elif op == 'edit': f.version(*a)
            elif op == 'replace':
                _, res = F.MOD[kind].findReplaceText(bible, {'findText': 'before', 'replaceText': 'after', 'replaceHistoryList': [], 'bookList': a, 'doBackups': False}, lambda *x: 'A')
                got = [b for b in start if b in res['replacedBookList']]
                if len(res['replacedBookList']) != len(got): return bad(k, f"books replaced in: {res['replacedBookList']}")
            elif op == 'getNumChapters': got = str(bible.getNumChapters(a[0]))
            elif op == 'getNumVerses': got = str(bible.getNumVerses(a[0], str(a[1])))
            elif op == 'getVerseText':
                got = bible.getVerseText(B.SimpleVerseKey(a[0], str(a[1]), str(a[2])))
                got = 'None' if got is None else got.replace('¶', '')
            elif op == 'range':
                r = bible.getContextVerseDataRange((a[0], str(a[1]), str(a[2])), (a[3], str(a[4]), str(a[5])))
                got = ['None'] if r is None else [e.getCleanText() for e in r[0] if e.getMarker() == 'v~']
            elif op == 'find':
                r = bible.findText({'findText': 'before', 'caselessFlag': False})[2]
                got = {b: sum(x[0].getBBB() == b for x in r) for b in start}
                if len(r) != sum(got.values()): return bad(k, 'places in other books')
        except Exception as e: exc = type(e).__name__; got = ''; msg = repr(e)
        if exc != o['exc']: return bad(k, f"{msg if exc else 'no exception'}; specification {o['exc'] or 'no exception'}")
        want = o['ans']
        if got != want: return bad(k, f'answer {got!r}; specification {want!r}')
        s = o['seen']; mem = {b: v for b, v in s['mem'].items() if v}
        lst = bible.getBookList()
        if sorted(lst) != sorted(mem) or len(bible) != len(mem) or [x.BBB for x in bible] != lst or [bible[i].BBB for i in range(len(bible))] != lst: return bad(k, f'books {lst}, length {len(bible)}; specification {sorted(mem)}')
        n = f.opened()
        if {b: n.get(b, 0) for b in start} != s['reads'] or n.get(NEVER): return bad(k, f"files opened {n}; specification {s['reads']}")
        for b in list(start) + [NEVER]:
            if (b in bible) != (b in mem): return bad(k, f'{b} in the Bible: {b in bible}')
            if b in mem:
                p = F.proj(bible[b]); q = F.fresh(kind, b, mem[b])
                if p != q: return bad(k, f'{b} is not as freshly loaded: {F.differs(p, q)}')
                if bible[b].containerBibleObject is not bible: return bad(k, f'{b} belongs to another Bible')
            n = (bible.getAssumedBookName(b), bible.getLongTOCName(b), bible.getShortTOCName(b))
            if n != (F.fresh(kind, b, mem[b])[2:] if b in mem else (None, None, None)): return bad(k, f'names of {b}: {n}')
        disc = getattr(bible, 'discoveryResults', None)
        if (disc is None) != (s['disc'] == []) : return bad(k, f'survey: {disc is not None}')
        if disc is not None:
            if {b for b in disc if b != 'ALL'} != {x['b'] for x in s['disc']}: return bad(k, f"survey of {list(disc)}; specification {s['disc']}")
            for x in s['disc']:
                if disc[x['b']] != F.fresh_disc(kind, ((x['b'], x['v']),))[x['b']]: return bad(k, f"survey of {x['b']} is not that of version {x['v']}")
            if s['current']:
                order = tuple((b, mem[b]) for b in disc if b != 'ALL'); q = F.fresh_disc(kind, order)['ALL']
                if disc['ALL'] != q: return bad(k, f"survey of all books: {[(x, disc['ALL'].get(x), q.get(x)) for x in {**q, **disc['ALL']} if disc['ALL'].get(x) != q.get(x)][:3]}")
    return []
def main():
    chk = vt.Check('C12'); F.setup()
    ALL = ['load', 'loadBook', 'loadBookIfNecessary', 'reloadBook', 'reProcessBook', 'discover', 'edit', 'replace', 'getNumChapters', 'getNumVerses', 'getVerseText', 'range', 'look', 'find']
    def run(books, ops, mx, num=0, starts='{1, Blank, Gone}'):
        gen = {'MCLife.tla': '---- MODULE MCLife ----\nEXTENDS Lifecycle\nBk == <<' + ', '.join(f'"{x}"' for x in books) + '>>\nOp == {' + ', '.join(f'"{x}"' for x in ops) + '}\nSt == ' + starts + '\n====\n'}
        r = chk.tlc('MCLife', f'SPECIFICATION Spec\nCONSTANTS\n Books <- Bk\n Never = "{NEVER}"\n Ops <- Op\n Starts <- St\n MaxOps = {mx}\n MaxVer = 3\n Emit = TRUE\n Sim = {str(bool(num)).upper()}\nINVARIANTS ReadOnce InMemory Emitting\nPROPERTIES Stays Necessary\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=mx + 1, gen=gen)
        if r.records: x = r.records[len(r.records) // 2]; chk.sample([x['start'], [(y['op'], y['args'], y['ans']) for y in x['ops']]])
        return r.records
    t = chk.thorough; few = [x for x in ALL if x not in ('getNumVerses', 'getVerseText', 'range', 'look', 'replace')]
    cases = [('USFM', r) for r in run(BOOKS[:2], ALL, 2)]
    cases += [('USFM', r) for r in run(BOOKS[:1], few + ['replace'], 4 if t else 3)]
    # the other kinds of Bible keep the same books (USX and ESFM have no replacing; an empty file is no USX)
    cases += [('USFM2', r) for r in run(BOOKS, ALL, 20, 600 if t else 40)]
    cases += [('ESFM', r) for r in run(BOOKS, [x for x in ALL if x != 'replace'], 20, 600 if t else 40)]
    cases += [('USX', r) for r in run(BOOKS, [x for x in ALL if x != 'replace'], 20, 600 if t else 40, '{1}')]
    cases += [('USFM', r) for r in run(BOOKS, ALL, 20, 3000 if t else 200)]
    vt.replay_all(chk, cases, case, seconds=20, chunk=40)
    chk.extra['histories'] = len(cases)
    return chk.finish()
vt.main(main)
