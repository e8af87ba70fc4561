"C14: written references, and what they denote"
import vt, tables as T, json, re
_S = {}
PUNCT = {'English': {'br': '-', 'cbr': '-', 'suf': list('abcdef'), 'dot': True}, 'Matigsalug': {'br': '-', 'cbr': '–', 'suf': list('ab'), 'dot': False}}
SYSTEMS = ('GENERIC-KJV-66-ENG', 'GENERIC-KJV-80-ENG', 'RSV52', 'VUL', 'MBT')
def bos(n):
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    if n not in _S: _S[n] = BibleOrganisationalSystem(n)
    return _S[n]
def data():
    d = T.data(); names = T.names(); codes = T.codes()['b']; ref = {}
    use = {}
    for c in codes: use.setdefault(c['up']['OSIS'], []).append(c['bbb'])
    osis = {c['bbb']: c['own']['OSIS'] for c in codes if c['own']['OSIS'] and use[c['up']['OSIS']][0] == c['bbb']}
    for n in SYSTEMS:
        b = bos(n); v, o, nm, pn = (b.getOrganisationalSystemValue(k) for k in ('versificationSystem', 'bookOrderSystem', 'booksNamesSystem', 'punctuationSystem'))
        nm = nm if nm in names else b.getBooksNamesSystemName()
        have = set(b.getBookList()); order = [x for x in d['order'][o] if x in have]; tab = d['vers'][v]['tab']
        entries = [x for x in names[nm]['book'] if x['id'] in have]
        lead = {}
        def real(u, x):   # a text as people write it
            return x['name'] if u == x['name'].upper() else x['abbr'] if u == x['abbr'].upper() else u.title()
        texts = {}
        for x in entries:
            if x['id'] not in order or x['id'] not in tab or not tab[x['id']]['ch']: continue
            ok = []
            for u in x['in']:
                if not re.fullmatch(r'([0-9]+ ?)?[^\W\d_]+( [^\W\d_]+)*', u) or real(u, x).upper() != u: continue
                if {y['id'] for y in entries if any(i.startswith(u) for i in y['in'])} != {x['id']}: continue
                if any(u == z[:len(u)] for l in names[nm]['div'] for z in l['in']): continue
                ok.append(real(u, x))
            if ok: texts[x['id']] = ok[:5]
        ref[n] = {'v': v, 'books': [x for x in order if x in texts], 'names': texts, **PUNCT[pn], 'osis': {x: osis.get(x, '') for x in order}}
        d['order'][n] = order
    d['ref'] = ref; used = {r['v'] for r in ref.values()}
    d['vers'] = {k: x for k, x in d['vers'].items() if k in used}; d['order'] = {n: d['order'][n] for n in SYSTEMS}
    return d

def st(n): return '' if n == -1 else str(n)
def tup(p): return (p['b'], str(p['c']), st(p['v']), p['s'])
def expanded(d):
    out = []
    for i, runs in zip(d['l'], d['runs']):
        if not i['r']: out.append(tup(i['x'])); continue
        e = [(b, str(c), str(v), '') for b, c, lo, hi in runs for v in range(lo, hi + 1)]
        e[0] = e[0][:3] + (i['x']['s'],); e[-1] = e[-1][:3] + (i['y']['s'],)
        out += e
    return out
def one(p, d, salt, others):
    "one document with one parser"
    t = d['t']; o = d['k'] == 'osis'; bad = []
    def no(what): bad.append(('reference', f'{t!r}{" (OSIS)" if o else ""}: {what}', {'key': t, 'doc': d}))
    try: ok, warn, l = (p.parseOSISReferenceString if o else p.parseReferenceString)(t)
    except Exception as e: no(f'raises {e!r}'); return bad
    if bool(ok) != d['ok']: no(f'code {"reads" if ok else "refuses"} it ({l}), specification the opposite'); return bad
    if not ok: return bad
    want = [(tup(i['x']), tup(i['y'])) if i['r'] else tup(i['x']) for i in d['l']]
    if l != want: no(f'code {l}, specification {want}'); return bad
    if p.getReferenceList() != want: no('getReferenceList'); return bad
    ex = expanded(d); got = p.getReferenceList(expanded=True)
    if got != ex:
        i = next((i for i in range(min(len(got), len(ex))) if got[i] != ex[i]), min(len(got), len(ex)))
        no(f'expanded to {len(got)} verses, specification {len(ex)}; from {i}: code {got[i:i+3]}, specification {ex[i:i+3]}')
    if len(set(ex)) < len(ex) and not warn: no('verses are there twice, and no warning')
    if not o and p.getFirstReference(t) != (want[0][0] if d['l'][0]['r'] else want[0]): no('getFirstReference')
    verses = {e[:3] for e in ex if e[2]}; whole = {e[:2] for e in ex if not e[2]}
    near = ex[:2] + ex[-2:] + [ex[len(ex) // 2]] + [(b, c, str(int(v) + k), s) for b, c, v, s in ex[:1] + ex[-1:] if v for k in (1, -1) if int(v) + k > 0]
    for b, c, v, s in near + [(others[salt % len(others)], '1', '1', '')]:
        if not v or (b, c) in whole: continue
        if p.containsReference(b, c, v) != ((b, c, v) in verses): no(f'containsReference {b} {c}:{v}')
        if (b, c, v, s) in ex and not p.containsReference(b, c, v, s): no(f'containsReference {b} {c}:{v}{s}')
        q = str(int(v) + 2)
        if not o and salt % 3 == 0:
            if p.containsReference(b, c, f'{v},{q}') != ((b, c, v) in verses or (b, c, q) in verses): no(f'containsReference {b} {c}:{v},{q}')
            top = next((int(r[3]) for rs in d['runs'] for r in rs if r[0] == b and str(r[1]) == c), 0)
            if int(q) <= top and p.containsReference(b, c, f'{v}-{q}') != any((b, c, str(k)) in verses for k in range(int(v), int(q) + 1)): no(f'containsReference {b} {c}:{v}-{q}')
    if d['osis'] and not bad:
        g = p.getOSISRefList() if not o else p.getOSISRefList().replace('; ', '; ')
        if g != d['osis']: no(f'as OSIS: code {g!r}, specification {d["osis"]!r}')
        if not o and p.parseToOSIS(t) != d['osis']: no('parseToOSIS')
        if not any(i['x']['v'] == -1 and i['y']['v'] == -1 and i['r'] for i in d['l']) and not any(i['x']['v'] == -1 for i in d['l'][:-1] if not i['r']):
            r = p.parseOSISReferenceString(d['osis'])
            w = [tuple(x[:3] + ('',) for x in ((tup(i['x'])[:2] + (st(i['x']['v']) or '1', ''), tup(i['y'])) if i['x']['v'] == -1 else (tup(i['x']), tup(i['y'])))) if i['r'] else tup(i['x'])[:3] + ('',) for i in d['l']]
            if not r[0] or r[2] != w: no(f'its OSIS text {d["osis"]!r} read back: {r}, specification {w}')
    return bad
def singles(n, d, P2, P1):
    "the parsers for single references"
    t = d['t']; bad = []; L = d['l']
    def no(what): bad.append(('single', f'{t!r}: {what}', {'key': t, 'doc': d}))
    short = re.search(r'(^|;)[^:;]*($|;)', t) # the chapter is not written
    if d['k'] == 'osis' or any(i['r'] for i in L) or any(i['x']['v'] == -1 for i in L): return bad
    want = [tup(i['x']) for i in L]
    try:
        if not short or (len(L) == 1):
            r = P2.parseReferenceString(t)
            if bool(r[0]) != d['ok'] or (r[0] and r[2] != want): no(f'single references: code {r}, specification {d["ok"]} {want}')
        if len(L) == 1:
            r = P1.parseReferenceString(t)
            if bool(r[0]) != d['ok'] or (r[0] and tuple(r[2:]) != want[0]): no(f'single reference: code {r}, specification {d["ok"]} {want}')
        elif P1.parseReferenceString(t)[0]: no('read as one single reference')
        if len({x[:2] for x in want}) == 1:
            # as the anchor of a note, without the book name
            from BibleOrgSys.Reference.BibleReferences import BibleAnchorReference
            b, c = want[0][:2]
            if all(x[3] in 'abcde' for x in want):
                a = (c + ':' if not short else '') + ','.join(x[2] + x[3] for x in want)
                for home in {x[2] for x in want} | {want[0][2] + '1', str(int(want[-1][2]) + 1)}:
                    m = BibleAnchorReference(b, c, home)
                    if m.matchesAnchorString(a) != (home in {x[2] for x in want}) or m.matchesAnchorString(a + ':') != (home in {x[2] for x in want}): no(f'anchor {a!r} at {c}:{home}')
                    if c != '1' and BibleAnchorReference(b, str(int(c) + 1), home).matchesAnchorString(a): no(f'anchor {a!r} in another chapter')
                if m.getReferenceList() != want: no(f'anchor {a!r}: {m.getReferenceList()}')
    except Exception as e: no(f'raises {e!r}')
    return bad
def case(c):
    r, salt = c
    from BibleOrgSys.Reference.BibleReferences import BibleReferenceList, BibleSingleReference, BibleSingleReferences
    n = r['sys']; b = bos(n); p = BibleReferenceList(b); p2, p1 = BibleSingleReferences(b), BibleSingleReference(b); bad = []
    others = b.getBookList(); done = []
    for d in r['docs'] + r['docs'][::-1]:   # the same parser for all, in both orders
        bad += one(p, d, salt, others)
        if len(done) < len(r['docs']): bad += singles(n, d, p2, p1)
        done.append(d['t'])
        if bad: break
    for q in ('Qqqq 7:3', 'x'):   # no book of any system: nothing is read, and nothing is left of the texts before
        for P in (p, p2):
            if not bad and P.parseReferenceString(q)[0::2] != (False, []): bad.append(('reference', f'{q!r} after {done[-1]!r}: {P.parseReferenceString(q)}', {'key': q}))
    if not bad:   # and one of its own
        bad += one(BibleReferenceList(b), r['docs'][salt % len(r['docs'])], salt, others)
    return [(k, f'{n}: {m}', {**x, 'parsed_before': done[:-1]}) for k, m, x in bad[:2]]
def main():
    chk = vt.Check('C14'); vt.quiet_import()
    d = data()
    cfg = 'SPECIFICATION RSpec\nCONSTANTS\n MaxItems = %d\n MaxDocs = 6\n Emit = TRUE\nINVARIANTS Sound CarryOn\nCHECK_DEADLOCK FALSE\n'
    r = chk.tlc('References', cfg % (6 if chk.thorough else 5), mode='sim', num=6000 if chk.thorough else 400, depth=60, seed=chk.seed, gen={'data.json': json.dumps(d)})
    vt.replay_all(chk, [(x, i) for i, x in enumerate(r.records)], case, chunk=10)
    ds = [x for y in r.records for x in y['docs']]
    chk.extra['documents'] = len(ds); chk.extra['valid'] = sum(x['ok'] for x in ds); chk.extra['ranges'] = sum(i['r'] for x in ds for i in x['l'])
    chk.extra['texts_of_books'] = {n: sum(map(len, x['names'].values())) for n, x in d['ref'].items()}
    chk.extra['systems'] = list(SYSTEMS)
    for x in ds[:3]: chk.sample({'text': x['t'], 'ok': x['ok'], 'list': x['l']})
    chk.exhaustive = False
    chk.assumptions = ['book names and chapter tables are the XML data files, read by an independent reader; texts are those of the grammar of spec/References.tla']
    return chk.finish()
vt.main(main)
