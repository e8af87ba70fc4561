"C17: absolute verse numbers, of every system, in any order of asking"
import vt, orgcheck as O
ALL = set()
def case(f):
    d = O.Diff(f['name']); e = d.eq; b = O.bos(f['name'], True); rs = f['ranges']; total = rs[-1][3] if rs else 0
    def sweep():
        step = 1 if f['name'] in ALL else 0
        for bk, c, lo, hi in rs:
            vs = range(1, hi - lo + 2) if step else sorted({x for x in (1, 2, (hi - lo) // 2, hi - lo + 1) if 1 <= x <= hi - lo + 1})
            for v in vs:
                yield (bk, c, v, lo + v - 1)
    got = [(bk, c, v, n, b.getAbsoluteVerseNumber(bk, str(c), str(v)), b.convertAbsoluteVerseNumber(n) if f['back'] or v == 1 else (bk, str(c), str(v))) for bk, c, v, n in sweep()]
    e('number of a verse', [x for x in got if x[4] != x[3]][:3], [])
    e('verse of a number', [x for x in got if x[5] != (x[0], str(x[1]), str(x[2]))][:3], [])
    e('beyond a chapter', [(bk, c) for bk, c, lo, hi in rs if b.getAbsoluteVerseNumber(bk, str(c), str(hi - lo + 2)) is not None or b.getAbsoluteVerseNumber(bk, str(c), '0') is not None][:3], [])
    e('beyond the ends', [b.convertAbsoluteVerseNumber(n) for n in (0, total + 1, total + 2, 99999)], [None] * 4)
    e('integers', [x[3] for x in got[:40] if b.getAbsoluteVerseNumber(x[0], x[1], x[2]) != x[3]], [])
    return d.bad[:3]
def history(rec):
    sys_ = {}
    for i, (q, a) in enumerate(zip(rec['qs'], rec['as'])):
        if q['n'] not in sys_: sys_[q['n']] = O.bos(q['n'], True)   # made when first asked about, among questions to others
        b = sys_[q['n']]
        if q['k'] == 'number': got, want = O.ask(b.getAbsoluteVerseNumber, q['b'], str(q['c']), str(q['v'])), a['n'] or None
        else: got, want = O.ask(b.convertAbsoluteVerseNumber, q['x']), None if a['v'][0] == 'none' else (a['v'][0], str(a['v'][1]), str(a['v'][2]))
        if got != want: return [('history', f'question {i} {q}: code {got}, specification {want}; asked before: {rec["qs"][max(0, i - 3):i]}', {'q': q, 'history': rec['qs'][:i]})]
def main():
    import time; chk = vt.Check('C17'); vt.quiet_import(); t0 = time.time()
    def tick(s): chk.extra.setdefault('phase_seconds', {})[s] = round(time.time() - t0, 1)
    r = O.tlc(chk, 'numbers'); facts = [f for f in r.records if f['vers'] != 'none' and f['ranges']]
    tick('tlc numbers'); seen = set()
    for f in sorted(facts, key=lambda f: f['name']):
        k = str(f['ranges'])
        if k not in seen: ALL.add(f['name'])   # every verse of each distinct numbering
        f['back'] = chk.thorough or k not in seen and len(seen) < 6
        seen.add(k)
    vt.replay_all(chk, facts, case, seconds=300, chunk=1)
    tick('replay'); chk.extra['systems'] = len(facts); chk.extra['distinct_numberings'] = len(seen); chk.extra['verses_numbered'] = sum(f['ranges'][-1][3] for f in facts if f['name'] in ALL)
    r = O.tlc(chk, 'ask', 25, 600 if chk.thorough else 15, chk.seed); tick('tlc ask'); vt.replay_all(chk, r.records, history, chunk=5)
    chk.extra['question_histories'] = len(r.records); chk.sample({'q': r.records[0]['qs'][:3], 'a': r.records[0]['as'][:3]})
    chk.exhaustive = False; chk.assumptions = ['systems with no known versification number nothing and are not asked']
    return chk.finish()
vt.main(main)
