"C20: book codes: every lookup in every letter case, lists, sorting"
import vt, tables as T, json
from orgcheck import ask
def codes(): 
    from BibleOrgSys import BibleOrgSysGlobals as G
    return G.loadedBibleBooksCodes
BOOKS = T.books()
def cases(k): return list(dict.fromkeys([k, k.lower(), k.title(), k[:1] + k[1:].lower()]))
def told(a): return 'refused' if not a else a[0] if len(a) == 1 else list(a)
def lookup(op, k):
    c = codes()
    if op == 'is': return k.upper() if c.isValidBBB(k.upper()) and k.upper() in c else 'refused'
    if op == 'text': r = ask(c.getBBBFromText, k); return 'refused' if r is None else r
    r = {'short': lambda: ask(c.getBBBFromShortAbbreviation, k), 'shortStrict': lambda: ask(c.getBBBFromShortAbbreviation, k, strict=True), 'OSIS': lambda: ask(c.getBBBFromOSISAbbreviation, k),
         'OSISStrict': lambda: ask(c.getBBBFromOSISAbbreviation, k, strict=True), 'USFM': lambda: ask(c.getBBBFromUSFMAbbreviation, k), 'Unbound': lambda: ask(c.getBBBFromUnboundBibleCode, k),
         'Drupal': lambda: ask(c.getBBBFromDrupalBibleCode, k)}[op]()
    return r
def case(f):
    c = codes(); bad = []
    def eq(what, got, want, key=None):
        if got != want: bad.append(('answer', f'{what}: code {str(got)[:200]}, specification {str(want)[:200]}', {'key': key or what}))
    if 'bbbs' in f:
        eq('books', (list(c), c.getAllReferenceAbbreviations(), len(c)), (f['bbbs'], f['bbbs'], len(f['bbbs']))); eq('sequence', list(c.getSequenceList()), f['seq'])
        eq('single-chapter books', c.getSingleChapterBooksList(), f['singles']); eq('OSIS single-chapter books', c.getOSISSingleChapterBooksList(), f['osisSingles'])
        eq('OSIS codes', sorted(c.getAllOSISBooksCodes()), sorted(f['osis'])); eq('USFM codes', c.getAllUSFMBooksCodes(), f['usfm']); eq('upper-case USFM codes', c.getAllUSFMBooksCodes(True), [x.upper() for x in f['usfm']])
        for n, q in (('usfmN', c.getAllUSFMBooksCodeNumberTriples), ('usxN', c.getAllUSXBooksCodeNumberTriples), ('bibleditN', c.getAllBibleditBooksCodeNumberTriples)): eq(n, [list(x) for x in q()], f[n])
        nums = {int(b['referenceNumber']): b['referenceAbbreviation'] for b in BOOKS}
        for n in range(-1, 1003): 
            for x in (n, str(n)):
                r = ask(c.getBBBFromReferenceNumber, x); eq(f'book number {x}', 'refused' if r == 'ValueError()' else r, nums.get(n, 'refused'))
        return bad[:3]
    b = f['bbb']; own = f['own']; none = lambda x: x or None
    for n, q in (('short', c.getShortAbbreviation), ('SBL', c.getSBLAbbreviation), ('OSIS', c.getOSISAbbreviation), ('Sword', c.getSwordAbbreviation), ('USFM', c.getUSFMAbbreviation), ('USFMNumber', c.getUSFMNumStr),
                 ('USXNumber', c.getUSXNumStr), ('Unbound', c.getUnboundBibleCode), ('BibleditNumber', c.getBibleditNumStr), ('LogosNumber', c.getLogosNumStr), ('NET', c.getNETBibleAbbreviation),
                 ('Drupal', c.getDrupalBibleAbbreviation), ('Byzantine', c.getByzantineAbbreviation), ('CCELNumber', c.getCCELNumber)): eq(f'{b} {n}', ask(q, b), none(own[n]))
    eq(f'{b} number', (c.getReferenceNumber(b), ask(c.getBBBFromReferenceNumber, f['num']), ask(c.getBBBFromReferenceNumber, str(f['num']))), (f['num'], b, b))
    eq(f'{b} chapters', (c.getExpectedChaptersList(b), c.getMaxChapters(b), c.isSingleChapterBook(b), c.isChapterVerseBook(b)), (f['ch'], f['max'], f['single'], f['cv']))
    eq(f'{b} testament', (c.isOldTestament_NR(b), c.isNewTestament_NR(b)), (f['ot'], f['nt'])); eq(f'{b} alternatives', c.getPossibleAlternativeBooksCodes(b), f['alt'] or None); eq(f'{b} section', c.getTypicalSection(b), f['section'])
    eq(f'{b} names', (c.getEnglishNameList_NR(b), c.getEnglishName_NR(b), c.getBookName(b)), (f['names'], f['names'][0], BOOKS[f['i'] - 1]['bookName']))
    eq(f'{b} psalm titles', [p for p in range(1, 151) if c.hasPsalmTitle(b, str(p))], sorted(f['psalms'])); eq(f'{b} continues', c.continuesThroughChapters(b), f['through'])
    for x in f['lookups']:
        for k in cases(x['k']): eq(f"{x['op']} lookup of {k!r}", lookup(x['op'], k), told(x['a']), f"{x['op']} {x['k']}")
    return bad[:3]
def sorting(rec):
    c = codes()
    for q, a in zip(rec['qs'], rec['as']):
        if q['k'] == 'books':
            xs = [(x, i) for i, x in enumerate(q['xs'])] if q['tuples'] else list(q['xs']); keep = list(xs)
            got = ask(c.getSequenceList, xs); want = sorted(xs, key=lambda x: a['xs'].index(x[0])) if q['tuples'] else a['xs']
            if got != want or xs != keep: return [('sorting', f'{q["xs"]}: code {got}, specification {want}', {'q': q})]
            if not q['tuples'] and (ask(c.getSequenceList, set(xs)) != want or ask(c.getSequenceList, tuple(xs)) != want): return [('sorting', f'{q["xs"]} as set or tuple', {'q': q})]
        else:
            rs = [(r['b'], str(r['c']), f"{r['v']}-{r['v'] + r['to']}" if r['to'] else str(r['v'])) + ((r['s'],) if r['s'] else ()) for r in q['rs']]; keep = list(rs)
            got = ask(c.sortBCVReferences, rs); want = [rs[i - 1] for i in a['order']]
            if got != want or rs != keep: return [('sorting', f'{rs}: code {got}, specification {want}', {'q': q})]
def main():
    chk = vt.Check('C20'); vt.quiet_import(); gen = {'data.json': json.dumps(T.codes())}
    def tlc(mode, mq=0, num=1): return chk.tlc('Codes', f'SPECIFICATION CSpec\nCONSTANTS\n Mode = "{mode}"\n MaxQ = {mq}\n Emit = TRUE\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n', mode='sim' if mq else 'bfs', num=num, depth=mq + 2, gen=gen)
    r = tlc('facts'); vt.replay_all(chk, r.records, case, chunk=4)
    chk.extra['books'] = len(r.records) - 1; chk.extra['lookups'] = sum(len(x.get('lookups', ())) for x in r.records); chk.extra['ambiguous'] = sorted({f"{y['op']} {y['k']} {y['a']}" for x in r.records for y in x.get('lookups', ()) if len(y['a']) > 1})
    chk.sample({x: r.records[5][x] for x in ('bbb', 'num', 'max')} | {'lookups': r.records[5]['lookups'][:5]} if 'bbb' in r.records[5] else r.records[5]['seq'])
    r = tlc('ask', 10, 1000 if chk.thorough else 150); vt.replay_all(chk, r.records, sorting, chunk=20); chk.extra['lists_sorted'] = 10 * len(r.records)
    chk.exhaustive = False; chk.assumptions = ['the code tables are the XML data file, read by an independent reader; every book, number and code and near misses of each code are asked about, lists to sort are sampled']
    return chk.finish()
vt.main(main)
