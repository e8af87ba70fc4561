"""Conformance of book processing with spec/Book.tla (used by C01, C02, C04)."""
import vt, bookdrv as B

KALL = ("h:+ h1:+ toc1:+ mt1:+ mt2:+ imt1:+ is1:+ ip:+ iot:+ io1:+ io2:+ ili:+ ili2:+ ib iq1:+ iex:+ ie rem:+ cl:+ c:c c:c c:C c:c+ cp:+ "
        "v:v+ v:v v:b+ v:a+ v:B+ v:V+ v:k+ v:l+ v:L+ v:e+ v:f+ v:d+ v:o+ v:g v:g+ p p:+ m pi1 pi:+ q:+ q1:+ q2:+ q3 qr:+ qm1 qc:+ qa:+ b nb nb:+ li:+ li1:+ li2 pc:+ cls:+ "
        "s:+ s1:+ s2:+ s3:+ sr:+ r:+ d:+ sp:+ ms:+ ms1:+ ms2:+ mr:+ lh:+ lf:+ po:+ qd:+ lim1:+ tr:+ pb")
# name: (kinds, quick MaxLines, thorough MaxLines, chapter book)
THEMES = {
    'general': ("h:+ ip:+ io1:+ c:c v:v+ p s:+ q:+", 6, 8, True),
    'poetry': ("c:c v:v+ v:b+ p q:+ q2:+ b li1:+ s1:+", 5, 7, True),
    'blocks': ("c:c v:v+ p ms1:+ ms2:+ mr:+ s1:+ d:+ q1", 5, 8, True),
    'intro': ("h:+ mt1:+ is1:+ ip:+ iot:+ io1:+ io2:+ ili:+ iex:+ c:c v:v", 5, 7, True),
    'numbers': ("c:c c:C v:v v:v+ v:V+ v:k v:a+ v:B+ v:l+ v:L+ v:e+ v:f+ v:d+ v:g+ p p:+ nb", 5, 7, True),
    'chapters': ("c:c c:c+ cp:+ cl:+ d:+ v:v+ p nb:+ sp:+ iex:+ s3:+ sr:+", 5, 7, True),
    'lists': ("c:c v:v v:v+ p li1 li1:+ li2:+ q1:+ s1:+", 5, 7, True),
    'matter': ("h:+ ip:+ p:+ p q:+ s1:+ ms1:+ b li1:+ io1:+ mt1:+", 4, 6, False),
}
INV = "Balanced LayerStack EndNumbers Regions Conserved NumbersKept MarkersKept Partition OneEach"
NUM = {'': 'none', 'c': 'chapter', 'C': 'chapterskip', 'v': 'verse', 'V': 'verseskip', 'b': 'bridge', 'a': 'a', 'B': 'b', 'l': 'list', 'L': 'list3', 'e': 'bridgetoa', 'f': 'bridgefromb', 'k': 'back', 'd': 'again', 'o': 'onb', 'g': 'longbridge'}

def kinds(spec):
    out = []
    for s in spec.split():
        m, _, opt = s.partition(':')
        out.append('[m |-> "%s", num |-> "%s", txt |-> %s]' % (m, NUM[opt.replace('+', '')], 'TRUE' if '+' in opt else 'FALSE'))
    return '{' + ', '.join(out) + '}'

def behaviours(chk, K, mx, mn=3, cb=True, mode='bfs', num=1000, sink=None, inv=INV, seed=None):
    return chk.tlc('MCBook', f"SPECIFICATION Spec\nCONSTANTS\n Kinds <- K\n MaxLines = {mx}\n MinLines = {mn}\n ChapterBook = {str(cb).upper()}\n Emit = TRUE\n Sim = {str(mode == 'sim').upper()}\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n",
                   mode=mode, num=num, depth=600, seed=seed,
                   gen={'MCBook.tla': '---- MODULE MCBook ----\nEXTENDS Book\nK == ' + kinds(K) + '\n====\n'})

def runs(chk, sim_quick=90, sim_thorough=1500):
    "all behaviours of the themes, then random long ones over the full alphabet"
    allrecs = []
    for name, (K, q, t, cb) in THEMES.items():
        r = behaviours(chk, K, t if chk.thorough else q, cb=cb)
        yield name, cb, r.records
    n = sim_thorough if chk.thorough else sim_quick
    for k, (mx, mn) in enumerate([(15, 10), (40, 25)]):
        r = behaviours(chk, KALL, mx, mn, True, 'sim', n, seed=chk.seed * 10 + k)
        yield f'random{mx}', True, r.records
    r = behaviours(chk, "h:+ ip:+ p:+ p q:+ s1:+ ms1:+ b li1:+ io1:+ mt1:+ ili:+ m:+ q2:+ is1:+", 20, 10, False, 'sim', n // 2, seed=chk.seed * 10 + 5)
    yield 'random-matter', False, r.records

def joined(raw, k):
    "the same source with some lines written behind the one before (k chooses which)"
    out = []; last = ''
    for j, (m, t) in enumerate(raw):
        prev, last = last, m
        if out and m != 'h1' and prev not in ('cp', 'cl', 'h', 'rem') and (k >> (j % 11)) & 1 and (out[-1][1] or m not in ('c', 'v')): out[-1] = (out[-1][0], (out[-1][1] + ' ' if out[-1][1] else '') + '\\' + m + (' ' + t if t else ''))
        else: out.append((m, t))
    return out

def check(pid, compare, layouts=False):
    chk = vt.Check(pid)
    B.setup()
    counts = {}
    for name, cb, recs in runs(chk):
        def case(rec):
            raw = [(l['m'], B.raw_text(l)) for l in rec['raw']]
            BBB = 'GEN' if cb else 'FRT'
            try: b = B.make_book(raw, BBB)
            except Exception as e: return [('raises', f'processing raised {e!r}', {'raw': raw, 'BBB': BBB})]
            bad = compare(b, rec, raw)
            if bad or not layouts: return bad
            raw2 = joined(raw, 1 + sum(len(t) * (j + 1) for j, (m, t) in enumerate(raw)) * 7919 % 2047)
            if len(raw2) == len(raw): return bad
            try: b = B.make_book(raw2, BBB)
            except Exception as e: return [('raises', f'processing raised {e!r}', {'raw': raw2, 'BBB': BBB})]
            return [(c, 'several on a line: ' + w, d) for c, w, d in compare(b, rec, raw2) or []]
        vt.replay_all(chk, recs, case)
        counts[name] = len(recs)
        for r in recs[:1]: chk.sample({'theme': name, 'lines': r['raw'], 'expected': r['lines'][:12]})
        if chk.nviol: break
    chk.extra['behaviours_per_theme'] = counts
    chk.extra['invariants'] = INV.split()
    chk.exhaustive = False
    chk.assumptions = ['source lines are well-formed in the sense of Book!Allowed (each kind of line where USFM lets it be)',
                       'line texts are opaque words; what is inside a text is the subject of C03/C26',
                       'every sequence up to the bound of each theme is covered; longer ones are sampled over the whole alphabet']
    return chk.finish()
