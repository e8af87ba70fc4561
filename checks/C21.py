"C21: names: what every text that could be entered stands for, in publications of many books and few"
import vt, tables as T, json
from orgcheck import ask
NAMES = T.names(); LISTS = {}
def upto(t, k):   # in which letter cases
    return [x for x in dict.fromkeys([t, t.lower(), t.title(), t.swapcase()]) if x.upper() == t][:k]
def case(f):
    from BibleOrgSys.Reference.BibleBooksNames import BibleBooksNamesSystem
    s = f['sys']; n = NAMES[s]; bad = []; has = {b['id']: b for b in n['book']}
    def eq(what, got, want):
        if got != want: bad.append(('answer', f'{s} ({f["list"]}) {what}: code {str(got)[:200]}, specification {str(want)[:200]}', {'key': f'{s} {what}'}))
    x = BibleBooksNamesSystem(s, list(f['books'])); y = BibleBooksNamesSystem(s, list(f['books']))
    eq('name', x.getBooksNamesSystemName(), s)
    for b in f['books']: eq(f'{b} name', (ask(x.getBookName, b), ask(x.getBookAbbreviation, b)), (has[b]['name'], has[b]['abbr']))
    one = lambda a: a[0] if a else None
    ts = list(f['t'].items())
    for t, a in ts:
        for k in upto(t, 4): eq(f'{k!r}', ask(x.getBBBFromText, k), one(a['b'])); eq(f'{k!r} as division', ask(x.getDivisionAbbreviation, k), one(a['d']))
        if len(bad) > 5: break
    for t, a in reversed(ts):   # a second object, asked in another order
        if ask(y.getBBBFromText, t) != one(a['b']): eq(f'{t!r} asked later', ask(y.getBBBFromText, t), one(a['b'])); break
    for t, a in ts:   # near misses: nothing that the specification knows
        for k in (t + 'ŵ', '.' + t):
            if k not in f['t'] and len(bad) < 5:
                r = ask(x.getBBBFromText, k)
                if r is not None:
                    from BibleOrgSys import BibleOrgSysGlobals as G
                    eq(f'{k!r}', r, G.loadedBibleBooksCodes.getBBBFromText(k))
    for d in n['div']:
        inc = d['id'] in f['divs']
        eq(f'division {d["id"]}', ask(x.getDivisionBooklist, d['id']), d['books'] if inc else one([]) if not f['t'].get(d['id'].upper(), {'d': []})['d'] else [e['books'] for e in n['div'] if e['id'] == f['t'][d['id'].upper()]['d'][0]][0])
    return bad[:3]
def anywhere(texts):
    "the lookup in all systems: a book is only given if some system has a name that starts so"
    from BibleOrgSys.Reference.BibleBooksNames import BibleBooksNamesSystems
    a = BibleBooksNamesSystems().loadData(); bad = []
    for t in texts:
        may = {b['id'] for n in NAMES.values() for b in n['book'] if any(i.startswith(t) for i in b['in'])}
        for k in upto(t, 2):
            r = ask(a.getBBBFromText, k)
            if (r not in may) if may else r is not None: bad.append(('anywhere', f'{k!r}: code {r}, possible {sorted(may)}', {'key': k}))
    return bad[:3]
def main():
    chk = vt.Check('C21'); vt.quiet_import()
    from BibleOrgSys.Reference import BibleBooksCodes as C
    from BibleOrgSys.Reference.BibleBooksNames import BibleBooksNamesSystems
    a = BibleBooksNamesSystems().loadData()
    if sorted(a.getAvailableBooksNamesSystemNames()) != sorted(NAMES) or len(a) != len(NAMES) or any(n not in a for n in NAMES) or a.getAvailableLanguageCodes() != {n[:3] for n in NAMES}: chk.violation('answer', 'the systems are not those of the tables', {})
    lists = {'OT39': C.BOOKLIST_OT39, 'NT27': C.BOOKLIST_NT27, '66': C.BOOKLIST_66, '81': C.BOOKLIST_81}
    gen = {'data.json': json.dumps({**T.codes(), 'sys': NAMES, 'lists': lists})}
    r = chk.tlc('Names', f'SPECIFICATION NSpec\nCONSTANTS\n Mode = "any"\n MaxQ = {0 if chk.thorough else 6}\n Emit = TRUE\nINVARIANT NamesExact\nCHECK_DEADLOCK FALSE\n', gen=gen)
    vt.replay_all(chk, r.records, case, seconds=120, chunk=1)
    texts = sorted({t for f in r.records for t in f['t']}); chk.extra['texts'] = len(texts); chk.extra['publications'] = len(r.records)
    chk.extra['texts_asked'] = sum(len(f['t']) for f in r.records); chk.extra['ambiguous'] = sum(not a['b'] and not a['d'] for f in r.records for a in f['t'].values())
    vt.replay_all(chk, [texts[i::40] for i in range(40)] if chk.thorough else [texts[i::400] for i in range(40)], anywhere, seconds=200, chunk=1)
    chk.sample({k: r.records[0]['t'][k] for k in list(r.records[0]['t'])[:4]})
    chk.exhaustive = True; chk.assumptions = ['the names are the XML data files, read by an independent reader']
    return chk.finish()
vt.main(main)
