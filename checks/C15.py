"C15: verse keys, as texts and as sets of verses"
import itertools
import vt, tables
K = None
def make(cls, *a, **kw):
    try: return cls(*a, **kw)
    except TypeError: return None
def bcvs(k): return (k.getBBB(), k.getChapterNumStr(), k.getVerseNumStr(), k.getVerseSuffix())
def case(r):
    if r['kind'] == 'call': return call(r)
    bad = []; t = r['text']; o = r['kind'] == 'osis'; kw = {'OSIS': True} if o else {}
    def no(what): bad.append(('key', f'{t!r}{" (OSIS)" if o else ""}: {what}', {'key': t, 'record': {**r, 'verses': len(r['verses'])}}))
    for name, cls in K.items():
        want = r['verdict'][name]
        if want == 'any':
            make(cls, t, **kw); continue
        try: k = make(cls, t, **kw)
        except Exception as e: no(f'{name}: raises {e!r}'); continue
        if (k is not None) != (want == 'yes'): no(f'{name}: code {"reads" if k is not None else "refuses"} it, specification {want}'); continue
        if k is None: continue
        try: check(name, cls, k, t, o, r, no)
        except Exception as e: no(f'{name}: raises {e!r}')
    return bad[:2]
def check(name, cls, k, t, o, r, no):
    kt = k.getVerseKeyText()
    esuf = any(v[2] in ('e', 'f') for v in r['verses'])
    if kt != r['keytext']: no(f'{name}: key text {kt!r}, specification {r["keytext"]!r}')
    if k.getShortText() != r['short']: no(f'{name}: short text {k.getShortText()!r}, specification {r["short"]!r}')
    if not esuf:
        k2 = cls(kt)
        if not (k == k2 and k2 == k) or k != k2: no(f'{name}: not equal to the key read from its key text {kt!r}')
        if name == 'simple' and (hash(k) != hash(k2) or len({k, k2}) != 1): no(f'{name}: equal keys have different hashes')
    b = r['keytext'][:3]
    want = [(b,) + tuple(v) for v in r['verses']]
    if r['fields'] and r['fields'][4]: want = [(b, *r['verses'][0][:2], None)]
    got = [bcvs(v) for v in k.getIncludedVerses()]
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        no(f'{name}: stands for {len(got)} verses, specification {len(want)}; from {i}: code {got[i:i+3]}, specification {want[i:i+3]}')
    if any(type(v) is not K['simple'] for v in k.getIncludedVerses()): no(f'{name}: a verse is not a simple key')
    items = list(k)
    if name == 'flex':
        p = [x.getVerseKeyText() for x in items]
        if p != r['parts']: no(f'flex: parts {p}, specification {r["parts"]}')
    elif [bcvs(v) for v in items] != want: no(f'{name}: iteration gives {[bcvs(v) for v in items][:8]}')
    if any(x not in k for x in items[:5] + items[-5:]): no(f'{name}: a verse it stands for is not in it')
    S = K['simple']; have = set(map(tuple, r['verses']))
    if name != 'flex' and not r['fields']:
        for c, v in itertools.product({x[0] for x in r['verses']} | {'198'}, {x for y in r['verses'][:1] + r['verses'][-1:] for x in (y[1], str(int(y[1]) + 1), str(max(1, int(y[1]) - 1)))}):
            for s in ('', 'a', 'd'):
                if (S(b, c, v, s) in k) != ((c, v, s) in have): no(f'{name}: membership of {b} {c}:{v}{s}')
    if name == 'simple':
        B, C, V, s, ix = r['fields']; si = ix or s
        if (len(k), k[0], k[1], k[2], k[3]) != (4, B, C, V, si): no('fields')
        if (k.getBBB(), k.getChapterNumber(), k.getChapterNumStr(), k.getVerseNumber(), k.getVerseNumStr(), k.getChapterNumberInt(), k.getVerseNumberInt()) != (B, C, C, V, V, int(C), int(V)): no('accessors')
        if ix:
            if (k.getVerseIndex(), k.getVerseSuffix()) != (ix, None) or k.getBCVI() != (B, C, V, ix) or k.getCVI() != (C, V, ix): no('index')
        elif (k.getVerseIndex(), k.getVerseSuffix()) != (None, s) or k.getBCVS() != (B, C, V, s) or k.getCVS() != (C, V, s): no('suffix')
        if k.getBCV() != (B, C, V) or k.getCV() != (C, V): no('BCV')
        for a in ((B, C, V, si), (B, int(C), int(V), si), (B, C, V, int(si)) if si.isdigit() and str(int(si)) == si else (B, C, V, si)):
            k3 = cls(*a)
            if k3 != k or not k3 == k or hash(k3) != hash(k) or k3.getVerseKeyText() != kt: no(f'differs from the key made with {a}')
        for a in ((B, C, V, 'd' if s != 'd' else 'c'), (B, C, V, '8' if ix != '8' else '9'), (B, C, '198' if V != '198' else '197', si), (B, '198' if C != '198' else '197', V, si), ('EXO' if B != 'EXO' else 'LEV', C, V, si)):
            k3 = cls(*a)
            if k3 == k or not k3 != k: no(f'equals the key made with {a}')
        if r['osis']:
            x = k.getOSISReference()
            if x != r['osis']: no(f'OSIS text {x!r}, specification {r["osis"]!r}')
            if FIRST[x.split('.')[0]] == B:
                k4 = cls(x, OSIS=True)
                if k4 != k or hash(k4) != hash(k): no(f'not equal to the key read from its OSIS text {x!r}')
    if not o and r['orig'] != t:
        k5 = make(cls, r['orig'])
        if k5 is not None and (k5 == k or not k5 != k): no(f'{name}: equals the key of {r["orig"]!r}')
    if k == t or k == None or not k != t: no('equals something else')
    str(k); repr(k)
def call(r):
    a = r['args']; k = make(K['simple'], *a)
    if (k is not None) != r['ok']: return [('call', f'SimpleVerseKey{tuple(a)}: code {"makes a key" if k is not None else "refuses"}, specification {r["ok"]}', {'key': repr(a)})]
    if k is not None and (k.getBCV() != tuple(a[:3]) or (k.getVerseIndex() if a[3].isdigit() else k.getVerseSuffix()) != a[3]): return [('call', f'SimpleVerseKey{tuple(a)} has {k.getBCV()} {k.getVerseIndex()} {k.getVerseSuffix()}', {'key': repr(a)})]
    return []
FIRST = None
def main():
    global K, FIRST
    chk = vt.Check('C15'); vt.quiet_import()
    from BibleOrgSys.Reference import VerseReferences as V
    K = {'simple': V.SimpleVerseKey, 'verses': V.SimpleVersesKey, 'range': V.VerseRangeKey, 'flex': V.FlexibleVersesKey}
    rows = tables.books(); osis = {r['referenceAbbreviation']: r['OSISAbbreviation'] for r in rows if r.get('OSISAbbreviation')}
    FIRST = {}
    for r in rows:
        if r.get('OSISAbbreviation'): FIRST.setdefault(r['OSISAbbreviation'], r['referenceAbbreviation'])
    allb = [r['referenceAbbreviation'] for r in rows]; s = tables.s
    def run(books, C, Vs, S, X, noise, mp, ms, num=0, inv='RoundTrip Faithful OneClass Contiguous Emitting'):
        used = {b: osis[b] for b in books if b in osis}
        first = {o: FIRST[o] for o in set(used.values()) | {osis[x] for x in noise if x in osis} | {x for x in noise if x in FIRST}}
        more = {FIRST[x]: x for x in noise if x in FIRST}; used = {**more, **used}
        st = lambda xs: '{' + ', '.join(map(s, xs)) + '}'
        gen = {'MCKeys.tla': '---- MODULE MCKeys ----\nEXTENDS VerseKeys\nB == ' + st(books) + '\nO == ' + tables.fun({s(k): s(v) for k, v in used.items()}) + '\nF == ' + tables.fun({s(k): s(v) for k, v in first.items()}) +
               '\nC == ' + st(C) + '\nV == ' + st(Vs) + '\nS == ' + st(S) + '\nX == ' + st(X) + '\nNo == ' + st(noise) + '\n====\n'}
        r = chk.tlc('MCKeys', f'SPECIFICATION Spec\nCONSTANTS\n BookSet <- B\n Osis <- O\n FirstOf <- F\n Chapters <- C\n Verses <- V\n Suffixes <- S\n Indexes <- X\n Noise <- No\n MaxPoints = {mp}\n MaxSpoil = {ms}\n Sim = {str(bool(num)).upper()}\n Emit = TRUE\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=mp + ms + 4, gen=gen)
        for x in r.records:
            if x['kind'] != 'call': x = {k: v.replace('@', '–') if isinstance(v, str) else v for k, v in x.items()}; x['verses'] = [(y['c'], y['v'], y['s']) for y in x['verses']]; x['parts'] = [y.replace('@', '–') for y in x['parts']]
            cases[(x['kind'], x.get('text') if x['kind'] != 'call' else tuple(x['args']), x.get('orig'))] = x
        if r.records: chk.sample({k: v for k, v in r.records[len(r.records) // 2].items() if k != 'verses'})
    cases = {}; t = chk.thorough
    run(['GEN', 'SA2'], ['1', '2'], ['1', '2', '3'], ['', 'a'], ['0', '12'], ['EXO', 'b'], 3, 0)
    run(['PS2'], ['1'], ['4', '5'], ['', 'b'], ['007'], ['XYZ', 'JHN', '0', 'John', 'a'], 3 if t else 2, 1)
    nums = ['1', '2', '3', '9', '10', '11', '22', '99', '100', '109', '119', '150', '176', '190', '199']
    n = 30000 if t else 3000
    run(allb, nums, nums, ['', '', 'a', 'b', 'c', 'd'], ['0', '7', '42', '007', '999', '100'], ['0', '01', '200', '9999', 'e', 'f', 'a', 'EXO', 'Exod', 'XYZ', 'gen', ' ', 'GEN 1', '*', 'REV'], 9, 2, n)
    run(allb, ['1', '2', '3'], [str(i) for i in range(1, 31)], ['', 'a', 'd'], ['3'], ['2', 'c'], 8, 0, n)
    vt.replay_all(chk, list(cases.values()), case, seconds=5, chunk=400)
    chk.extra['texts'] = len(cases)
    chk.assumptions = ['a chapter has 222 verses as far as a range key knows', 'mixtures of lists and ranges beyond the 19 supported shapes, a lone "!" and a trailing newline are not judged', 'OSIS codes shared by several books are read as the first of them']
    return chk.finish()
vt.main(main)
