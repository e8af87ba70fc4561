"C19: organisational systems hold and walk exactly the books and tables that their definitions select"
import vt, orgcheck as O, tables as T
def case(f):
    d = O.Diff(f['name']); b = O.bos(f['name'], True); e = d.eq
    e('is', O.boss().getOrganisationalSystem(f['name']) is O.boss().getOrganisationalSystem(f['is']), True)
    for (n, v), w in zip(f['vals'], f['boss']):
        e(f'value {n}', b.getOrganisationalSystemValue(n), v['val'] if v['has'] else None)
        e(f'basic value {n}', O.boss().getOrganisationalSystemValue(f['name'], n), w['val'] if w['has'] else None)
    books = dict(f['vals'])['includesBooks']; books = books['val'] if books['has'] else []
    e('name', b.getOrganisationalSystemName(), f['name']); e('type', b.getOrganisationalSystemType(), dict(f['vals'])['type']['val'])
    e('book list', b.getBookList(), books)
    codes = f['codes']
    e('contains', [x for x in codes if b.containsBook(x)], [x for x in codes if x in books])
    e('alternatives', [O.ask(b.getAlternativeBBBIfNecessary, x) for x in codes], [O.none(x) for x in f['alt']])
    if f['order'] != 'none':
        e('order', b.getBookOrderSystemName(), f['order']); e('order list', b.getBookOrderList(), f['ord'])
        e('next', [O.ask(b.getNextBookCode, x) for x in f['ord']], [O.none(x) for x in f['next']])
        e('previous', [O.ask(b.getPreviousBookCode, x) for x in f['ord']], [O.none(x) for x in f['prev']])
        e('first', O.ask(b.getFirstBookCode), f['walk'][0] if f['walk'] else None)
        w, x = [], O.ask(b.getFirstBookCode)
        while x in f['ord'] and len(w) < 400: w.append(x); x = O.ask(b.getNextBookCode, x)
        e('walk', w, f['walk'])
        for x in codes:
            if x not in f['ord']: e('next of a book it does not have', O.ask(b.getNextBookCode, x), 'refused'); e('previous of a book it does not have', O.ask(b.getPreviousBookCode, x), 'refused'); break
    if f['vers'] != 'none':
        t = f['tables'][f['vers']]; e('versification', b.getVersificationSystemName(), f['vers'])
        for x in codes:
            if x in t:
                e(f'verses of {x}', O.ask(b.getNumVersesList, x), [n for _c, n in t[x]['ch']]); e(f'chapters of {x}', O.ask(b.getNumChapters, x), t[x]['n'])
                e(f'verses of {x}, alternatives allowed', O.ask(b.getNumVersesList, x, allowAlternatives=True), [n for _c, n in t[x]['ch']])
                if f['order'] != 'none':
                    c, n = t[x]['ch'][-1]
                    e(f'last verse of {x}', O.ask(b.isValidBCVRef, (x, c, str(n), ''), 'test'), x in f['ord'] and n > 0 and (c, str(n)) not in t[x]['omitted'])
                    e(f'verse after the last of {x}', O.ask(b.isValidBCVRef, (x, c, str(n + 1), ''), 'test'), False)
            else:
                e(f'verses of {x}', O.ask(b.getNumVersesList, x), 'refused')
                a = [y for y in f['alts'].get(x, []) if y in t]
                if f['alts'].get(x): e(f'verses of {x} by an alternative', O.ask(b.getNumVersesList, x, allowAlternatives=True), [n for _c, n in t[a[0]]['ch']] if a else None)
    return d.bad[:3]
def history(h):
    d = O.Diff('history')
    for q, a in zip(h['qs'], h['as']):
        ref = (q['b'], str(q['c']), '' if q['v'] == -1 else str(q['v']), '')
        if q['c'] == -1 and q['v'] == -1: continue
        got = O.ask(O.bos(q['n']).isValidBCVRef, ref, 'test', q['ext']) if q['ext'] else O.ask(O.bos(q['n']).isValidBCVRef, ref, 'test')
        d.eq(f"validity in {q['n']} of {ref} extended={q['ext']}", got, a['ok'])
    return d.bad[:3]
def main():
    chk = vt.Check('C19'); vt.quiet_import()
    r = O.tlc(chk, 'systems')
    o = T.organisations(); codes = [b['referenceAbbreviation'] for b in T.books()]; tables = T.versifications(); alts = T.data('org')['alt']
    if sorted(x['name'] for x in r.records) != sorted(set(o['org']) | set(o['index'])): raise vt.MachineryError('systems are missing')
    for f in r.records: f['codes'] = codes; f['tables'] = tables; f['alts'] = alts
    got = set(O.boss().getAvailableOrganisationalSystemNames())
    if got != set(o['index']): chk.violation('answer', f'available systems differ: {sorted(got ^ set(o["index"]))[:10]}', {})
    if len(O.boss()) != len(o['org']): chk.violation('answer', f'{len(O.boss())} systems, {len(o["org"])} definitions', {})
    for n in ('', 'XXX', 'KJV-', 'kjv-1611'):
        if n and O.boss().getOrganisationalSystem(n) is not None: chk.violation('answer', f'{n!r} is no system', {})
    vt.replay_all(chk, r.records, case, chunk=5)
    h = O.tlc(chk, 'valid', 25, 3000 if chk.thorough else 100, chk.seed); vt.replay_all(chk, h.records, history, chunk=5)
    chk.sample({'questions': h.records[0]['qs'][:6], 'answers': h.records[0]['as'][:6]})
    chk.sample({k: r.records[0][k] for k in ('name', 'is', 'order', 'vers', 'walk')}); chk.extra['systems'] = len(r.records); chk.extra['validity histories'] = len(h.records); chk.exhaustive = True
    chk.assumptions = ['the definitions are the XML data files, read by an independent reader', 'systems whose definition selects no known book order or versification are asked nothing about it']
    return chk.finish()
vt.main(main)
