"C16: what Versification.tla answers about the chapter and verse tables, against the real systems"
import vt, tables as T, json, os, argparse
_S = {}
def vsys(n):
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystem
    if ('v', n) not in _S: _S['v', n] = BibleVersificationSystem(n)
    return _S['v', n]
def osys(n):
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    if ('o', n) not in _S: _S['o', n] = BibleBookOrderSystem(n)
    return _S['o', n]
def vss():
    from BibleOrgSys.Reference.BibleVersificationSystems import BibleVersificationSystems
    if 'all' not in _S: _S['all'] = BibleVersificationSystems().loadData()
    return _S['all']

def facts(f):
    v, b = vsys(f['sys']), f['book']
    ch = [tuple(x) for x in f['ch']]
    def eq(name, got, want): return [] if got == want else [('table', f'{f["sys"]} {b} {name}: code {str(got)[:300]}, specification {str(want)[:300]}', {'key': f'{f["sys"]} {b} {name}'})]
    bad = []
    bad += eq('getNumChapters', v.getNumChapters(b), f['n']) + eq('isSingleChapterBook', v.isSingleChapterBook(b), f['single'])
    bad += eq('getNumVersesList', v.getNumVersesList(b), [n for _c, n in ch]) + eq('getTotalNumVerses', v.getTotalNumVerses(b), f['total'])
    bad += eq('in', b in v, True) + eq('iteration', list(v).count(b), 1)
    got = {c: v.getNumVerses(b, str(c)) for c in range(0, 200)}
    want = {c: dict(ch).get(c, 0) for c in range(0, 200)}
    bad += eq('getNumVerses', got, want) + eq('getNumVerses int', {c: v.getNumVerses(b, c) for c in range(0, 200)}, want)
    om = [(str(c), str(x)) for c, x in f['om']]
    bad += eq('getOmittedVerseList', v.getOmittedVerseList(b) or [], om)
    if om: bad += eq('getOmittedVerseList full', v.getOmittedVerseList(b, fullRefs=True), [(b, c, x) for c, x in om])
    bad += eq('getAuxilliaryVerseList', v.getAuxilliaryVerseList('omitted').get(b, []), om)
    for k in f['valid']:
        n = dict(ch)[k['c']]
        for ext, key in ((False, 'bad'), (True, 'badx')):
            bad += eq(f'validity in chapter {k["c"]} ext={ext}', [x for x in range(n + 3) if not v.isValidBCVRef((b, str(k['c']), str(x), ''), extended=ext)], sorted(k[key]))
        bad += eq(f'omitted in chapter {k["c"]}', [x for x in range(n + 3) if v.isOmittedVerse((b, str(k['c']), str(x), ''))], sorted({x for c, x in f['om'] if c == k['c']}))
        bad += eq('omitted int', [x for x in range(n + 3) if v.isOmittedVerse((b, k['c'], x, ''))], sorted({x for c, x in f['om'] if c == k['c']}))
        bad += eq(f'validity of the whole chapter {k["c"]}', v.isValidBCVRef((b, str(k['c']), '', '')), True)
    return bad[:3]

def st(n): return '' if n == -1 else str(n)
def case(c):
    rec, salt = c
    for n, (q, a) in enumerate(zip(rec['qs'], rec['as'])):
        v = vsys(q['s'])
        try:
            if q['k'] == 'expand':
                x, y = q['x'], q['y']
                s1 = 'a' if x['v'] > 0 and (n + salt) % 3 == 0 else ''; s2 = 'b' if y['v'] > 0 and (n + salt) % 4 == 0 else ''
                try: got = v.expandCVRange((x['b'], str(x['c']), st(x['v']), s1), (y['b'], str(y['c']), st(y['v']), s2), bookOrderSystem=osys(q['o']))
                except KeyError: got = None # a book that is not in the order
                want = None
                if a['ok']:
                    want = [(b, str(c), str(i), '') for b, c, lo, hi in a['runs'] for i in range(lo, hi + 1)]
                    want[0] = want[0][:3] + (s1,); want[-1] = want[-1][:3] + (s2,)
            elif q['k'] == 'valid':
                x = q['x']
                if x['c'] == -1 and x['v'] == -1: continue
                got, want = bool(v.isValidBCVRef((x['b'], str(x['c']), st(x['v']), ''), extended=q['ext'])), a['ok']
            elif q['k'] == 'count': got, want = v.getNumVerses(q['x']['b'], str(q['x']['c'])), a['n']
            elif q['k'] == 'match':
                sch = {}
                for b, ch, nv in q['sch']: sch.setdefault(b, {})[str(ch)] = str(nv)
                if (n + salt) % 2: sch = {b: list(d.items()) for b, d in sch.items()}
                got, want = vss().checkVersificationSystem('test', sch), a['n']
        except Exception as e: got, want = repr(e), 'an answer'
        if got != want:
            i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), '') if isinstance(got, list) and isinstance(want, list) else ''
            return [('answer', f'{q}: code {str(got)[:300]}, specification {str(want)[:300]}' + (f'; first difference at {i}, lengths {len(got)} and {len(want)}' if isinstance(got, list) and isinstance(want, list) else ''), {'q': q, 'history': rec['qs'][:n]})]

def data():
    vers = {n: {'books': list(t), 'tab': {b: {'n': x['n'], 'ch': [[int(c), k] for c, k in x['ch']], 'om': [[int(c), int(k)] for c, k in x['omitted']]} for b, x in t.items()}} for n, t in T.versifications().items()}
    return {'vers': vers, 'order': T.orders()}

def run(chk, mq, kinds, mode, num=10, seed=None):
    gen = {'data.json': json.dumps(data()), 'MCVers.tla': '---- MODULE MCVers ----\nEXTENDS Versification\nK_ == {' + ', '.join(map(T.s, kinds)) + '}\n====\n'}
    return chk.tlc('MCVers', f'SPECIFICATION VSpec\nCONSTANTS\n MaxQ = {mq}\n Kinds <- K_\n Sim = {str(mode == "sim").upper()}\n Emit = TRUE\nINVARIANTS {"ExpandSound" if mode == "sim" else "FactsAgree"}\nCHECK_DEADLOCK FALSE\n', mode=mode, num=num, depth=mq + 2, seed=seed, gen=gen)

def main():
    chk = vt.Check('C16'); G = vt.quiet_import()
    G.commandLineArguments = argparse.Namespace(export=False)
    r = run(chk, 0, ['expand'], 'bfs')
    vt.replay_all(chk, r.records, facts, chunk=20)
    chk.extra['books_of_systems'] = len(r.records)
    want = {n: list(t) for n, t in T.versifications().items()}
    for n in want:
        if list(vsys(n)) != want[n] or len(vsys(n)) != len(want[n]) or vsys(n).numAvailableBooks() != len(want[n]): chk.violation('table', f'{n}: the books are {list(vsys(n))[:5]}.., {len(vsys(n))} of them; the table has {len(want[n])}', {'key': n})
    if set(vss().getAvailableVersificationSystemNames()) != set(want): chk.violation('table', 'the available systems are not those of the tables', {})
    r = run(chk, 12, ['expand', 'expand', 'valid', 'count'], 'sim', 2500 if chk.thorough else 150, chk.seed)
    vt.replay_all(chk, [(x, i) for i, x in enumerate(r.records)], case, chunk=10)
    chk.extra['question_histories'] = len(r.records)
    chk.sample({'q': r.records[0]['qs'][0], 'a': r.records[0]['as'][0]})
    r = run(chk, 3, ['match'], 'sim', 250 if chk.thorough else 20, chk.seed + 1)
    vt.replay_all(chk, [(x, i) for i, x in enumerate(r.records)], case, chunk=5)
    chk.extra['schemes_matched'] = 3 * len(r.records)
    chk.exhaustive = False
    chk.assumptions = ['the tables are the XML data files, read by an independent reader; every book of every system is asked about exhaustively, ranges are sampled']
    return chk.finish()
vt.main(main)
