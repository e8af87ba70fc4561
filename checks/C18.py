"C18: book orders: positions, next and previous, and which orders a list of books matches"
import vt, orgcheck as O, tables as T, argparse
def case(f):
    d = O.Diff(f['name']); e = d.eq; b = O.osys(f['name']); n = len(f['books']); all_ = O.orders()
    e('list', b.getBookOrderList(), f['books']); e('number of books', (b.numBooks(), len(b)), (n, n)); e('name', b.getBookOrderSystemName(), f['name'])
    e('positions', [O.ask(b.getBookOrderPosition, x) for x in f['books']], f['pos'])
    e('book at position', [O.ask(b.getBookAtOrderPosition, i) for i in range(-2, n + 4)], ['refused'] * 3 + f['books'] + ['refused'] * 3)
    e('next', [O.ask(b.getNextBookCode, x) for x in f['books']], [O.none(x) for x in f['next']])
    e('previous', [O.ask(b.getPreviousBookCode, x) for x in f['books']], [O.none(x) for x in f['prev']])
    e('holds', [O.ask(b.containsBook, x) for x in f['books']] + [x in b for x in f['books']], [True] * 2 * n)
    e('does not hold', [x for x in f['not'] if O.ask(b.containsBook, x) is not False or x in b], [])
    for q in (b.getBookOrderPosition, b.getNextBookCode, b.getPreviousBookCode):
        e(f'{q.__name__} of books it does not have', [x for x in f['not'] if O.ask(q, x) != 'refused'], [])
    e('ordered', [(x, y) for i, x in enumerate(f['books']) for j, y in enumerate(f['books']) if O.ask(b.correctlyOrdered, x, y) != (i < j)][:3], [])
    e('system: list', list(all_.getBookOrderList(f['name'])), f['books']); e('system: number', all_.numBooks(f['name']), n)
    e('system: holds', [x for x in f['books'] + f['not'] if all_.containsBook(f['name'], x)], f['books'])
    return d.bad[:3]
def match(rec):
    for q, a in zip(rec['qs'], rec['as']):
        xs = list(q['xs']); got = O.ask(O.orders().checkBookOrderSystem, 'test', xs)
        if got != a['n']: return [('match', f'{q["xs"]}: code matches {got} orders, specification {a["n"]}', {'q': q})]
        if xs != q['xs']: return [('match', 'the list that was asked about has changed', {'q': q})]
def main():
    chk = vt.Check('C18'); G = vt.quiet_import(); G.commandLineArguments = argparse.Namespace(export=False)
    r = O.tlc(chk, 'orders'); vt.replay_all(chk, r.records, case, chunk=1)
    names = set(T.orders())
    if set(O.orders().getAvailableBookOrderSystemNames()) != names or len(O.orders()) != len(names): chk.violation('answer', 'the available book orders are not those of the tables', {})
    chk.extra['orders'] = len(r.records)
    r = O.tlc(chk, 'match', 10, 2000 if chk.thorough else 200, chk.seed); vt.replay_all(chk, r.records, match, chunk=20)
    chk.extra['lists_matched'] = 10 * len(r.records); chk.extra['lists_matched_by_number'] = {n: sum(a['n'] == n for x in r.records for a in x['as']) for n in range(0, 18)}
    chk.sample({'q': r.records[0]['qs'][0], 'a': r.records[0]['as'][0]})
    chk.exhaustive = False; chk.assumptions = ['the orders are the XML data files, read by an independent reader; every book and position of every order is asked about, lists to match are sampled']
    return chk.finish()
vt.main(main)
