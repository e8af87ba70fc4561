import vt, lookupcheck as L, bookcheck as K, bookdrv as B
ALPHA = K.KALL.replace('v:k+ ', '')
T = {'chapters': ("h:+ c:c c:C c:c+ v:v+ v:V+ v:a+ v:B+ v:b+ v:g+ p s:+ ip:+", 5, 6)}

def manybooks(case):
    "a range over two or three books = tail of the first, the books between, head of the last (each as Lookup.tla answers it)"
    recs, BBBs, between, strict, viakeys = case
    books = [L.Book([(l['m'], B.raw_text(l)) for l in r['raw']], BBB) for r, BBB in zip(recs, BBBs)]
    bible = B.Bible(); bible.name = 'V'
    order = list(range(len(books)))
    if between % 2: order.reverse() # the order they were loaded in makes no difference
    for i in order: bible.books[BBBs[i]] = books[i].book
    loose = '' if strict else 'loose'
    def q(r, kind): return next(((q, a) for q, a in zip(r['qs'], r['as']) if q['k'] == kind), None)
    first, last = q(recs[0], 'tail' + loose), q(recs[-1], 'head' + loose)
    mids = [q(r, 'all' + loose) for r in recs[1:-1]]
    if first is None or last is None or None in mids: return None
    parts = [first] + mids + [last]
    want = None
    if all(a['ok'] for _q, a in parts):
        want = []
        for b, (_q, a) in zip(books, parts): want += b.pick(a['segs'])
    s = (BBBs[0], first[0]['c'], first[0]['v']); e = (BBBs[-1], last[0]['ec'], last[0]['ev'])
    if viakeys and s[1].isdigit() and s[2].isdigit() and e[2].isdigit(): s, e = B.SimpleVerseKey(*s), B.SimpleVerseKey(*e)
    try:
        r = bible.getContextVerseDataRange(s, e, strict=strict); got = L.lines_of(r[0])
        ctx = [B.amark(m) for m in r[1]]
    except KeyError: got = None
    except Exception as ex: got = repr(ex)
    raw = {'books': [r['raw'] for r in recs], 'range': [str(s), str(e)], 'strict': strict}
    if got != want: return [('bookrange', f'{s}–{e} strict={strict}: code {str(got)[:500]}, specification {str(want)[:500]}', raw)]
    if got is not None and ctx != first[1]['ctx']: return [('bookrange', f'context {ctx}, specification {first[1]["ctx"]}', raw)]

def extra(chk):
    a = ALPHA.split(); small = 'h:+ ip:+ c:c v:v+ v:b+ v:g+ v:a+ v:B+ p s1:+ q:+ ms1:+'
    r = L.behaviours(chk, small, 12, 5, 8, ['tail', 'head', 'all', 'tailloose', 'headloose', 'allloose'], mode='sim', num=1500 if chk.thorough else 250, seed=chk.seed + 3)
    recs = [x for x in r.records if any(l['m'] == 'c' for l in x['raw'])]
    cases = []
    SEQ = ['GEN', 'EXO', 'RUT', 'SA1', 'MAT', 'CO1', 'REV']
    for n in range(0, len(recs) - 4):
        k = chk.rng.choice([2, 3, 3])
        BBBs = sorted(chk.rng.sample(SEQ, k), key=SEQ.index)
        cases.append((recs[n:n + k], BBBs, n, chk.rng.random() < .5, n % 3 == 0))
    vt.replay_all(chk, cases, manybooks)
    chk.extra['ranges_over_books'] = len(cases)
vt.main(lambda: L.check('C06', ['chapter', 'plainchapter', 'whole', 'range', 'rangeloose'], T, ALPHA, extra))
