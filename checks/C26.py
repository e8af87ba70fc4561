"C26: the list of the markers within a text"
import vt
SETS = None
def case(r):
    bad = []
    want = [(e['m'], e['i'], e['x'], e['w'], e['cx'], e['e'] - 1 if e['e'] else None, e['t']) for e in r['ents']]
    want1 = want
    if r['init'] and want: want1 = [(None, 0, None, None, None, 1, r['init'])] + [(a, b, c, d, e, None if f is None else f + 1, g) for a, b, c, d, e, f, g in want]
    for name, M in SETS:
        for init in (False, True):
            for ver in (False, True):
                try: got = [tuple(x) for x in M.getMarkerListFromText(r['text'], includeInitialText=init, verifyMarkers=ver)]
                except Exception as e: got = repr(e)
                w = want1 if init else want
                if got != w: bad.append(('markers', f'{name} of {r["text"]!r} (initial text {init}): code {got}, specification {w}', {'text': r['text'], 'key': r['text']}))
    return bad[:1]
def q(xs): return '{' + ', '.join('"' + x.replace('\\', '\\\\') + '"' for x in xs) + '}'
def main():
    global SETS
    chk = vt.Check('C26'); vt.quiet_import()
    from BibleOrgSys.Reference.USFM3Markers import USFM3Markers
    from BibleOrgSys.Reference.USFM2Markers import USFM2Markers
    SETS = [('USFM3', USFM3Markers().loadData()), ('USFM2', USFM2Markers().loadData())]
    inv = 'AllThere InOrder Stacked EndsLater Emitting'
    def run(T, C, L, mx, mn, num=0, seed=None):
        gen = {'MCChar.tla': f'---- MODULE MCChar ----\nEXTENDS CharMarkers\nT == {q(T)}\nC == {q(C)}\nL == {q(L)}\n====\n'}
        return chk.tlc('MCChar', f'SPECIFICATION Spec\nCONSTANTS\n Texts <- T\n Chars <- C\n Lines <- L\n MaxPieces = {mx}\n MinPieces = {mn}\n Emit = TRUE\n Sim = {str(bool(num)).upper()}\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n',
                       mode='sim' if num else 'bfs', num=num, depth=mx + 3, gen=gen, seed=seed)
    recs = {}
    def add(r):
        for x in r.records: recs[x['text']] = x
        if r.records: chk.sample(r.records[len(r.records) // 2])
    add(run(['a b', ' c'], ['nd', 'bd'], ['p'], 5 if chk.thorough else 4, 1))
    add(run([r'x\ ', r'y\*', r'\+ z', '*'], ['f', 'ft'], ['q1'], 5 if chk.thorough else 4, 1))
    n = 12000 if chk.thorough else 1000
    T = ['In the beginning ', 'ë', ' ', '1:2 ', 'word|lemma=x ', r'\ ', r'\*', r'\+*', '* ', '+ ', '— “', ',', 'two  ', 'a\tb\t']
    C = 'nd bd it bdit wj add qs f fr ft fq fqa fk fv x xo xt k w rb jmp sls pro sup no em ff'.split()
    L = 'p q1 q2 v c s1 b m nb li1 h id'.split()
    add(run(T, C, L, 10, 6, n)); add(run(T, C[:4], L[:2], 24, 14, n))
    vt.replay_all(chk, list(recs.values()), case, chunk=400)
    chk.extra['texts'] = len(recs)
    chk.assumptions = ['a marker is followed by a space, a star or the end of the text; a backslash before anything else starts no marker', 'a closing nested marker closes the innermost one']
    return chk.finish()
vt.main(main)
