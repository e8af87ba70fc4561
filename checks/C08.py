"C08: standard-format files: lines and records"
import os, vt
RD = None
LAYOUTS = [(bom, eol, last, enc) for bom in (False, True) for eol in ('\n', '\r\n') for last in (True, False) for enc in ('utf-8',)] + [(False, '\n', True, 'utf-16'), (False, '\n', False, 'UTF-8'), (True, '\n', True, None), (False, '\r', True, 'utf-8')]
def case(r):
    U, E, S, R = RD
    bad = []; path = os.path.join(os.environ['VERIF_SCRATCH'], f'sfm-{os.getpid()}.sfm')
    pairs = lambda x: [(p['m'], p['t']) for p in x]
    ign = tuple(r['ign'])
    want = {'USFMFile': pairs(r['usfm']), 'ESFMFile': pairs(r['esfm']), 'SFMLines': pairs(r['sfm']), 'SFMRecords': 'OSError' if r['failed'] else [pairs(x) for x in r['recs']]}
    n = sum(len(l) for l in r['file'])
    for k in range(r.get('layouts', 2)):
        bom, eol, last, enc = LAYOUTS[(n + 5 * k) % len(LAYOUTS)]
        text = eol.join(r['file']) + (eol if last else '')
        with open(path, 'wb') as fh: fh.write((('\ufeff' if bom else '') + text).encode(enc or 'utf-8'))
        kw = {} if enc is None else {'encoding': enc}
        got = {}; recs = None
        for nm in want:
            try:
                if nm == 'USFMFile': o = U(); o.read(path, ignoreSFMs=ign or None, **kw); got[nm] = list(map(tuple, o.lines))
                elif nm == 'ESFMFile':
                    if enc == 'utf-16': continue
                    o = E(); o.read(path, ignoreSFMs=ign or None); got[nm] = list(map(tuple, o.lines))
                elif nm == 'SFMLines': o = S(); o.read(path, ignoreSFMs=ign or None, **kw); got[nm] = list(map(tuple, o.lines))
                else:
                    recs = o = R(); o.read(path, key=r['key'] or None, ignoreSFMs=ign or None, ignoreEntries=tuple(r['ent']) or None, changePairs=[tuple(x) for x in r['chg']] or None, **kw)
                    got[nm] = [list(map(tuple, x)) for x in o.records]
            except OSError: got[nm] = 'OSError'
            except Exception as e: got[nm] = repr(e)
        for nm in got:
            if got[nm] != want[nm]: bad.append((nm, f'{nm} of {r["file"]!r} (ignoring {ign}, key {r["key"]!r}, entries {r["ent"]}, changing {r["chg"]}, BOM {bom}, {eol!r}, last {last}, {enc}): code {got[nm]}, specification {want[nm]}', {'file': r['file'], 'key': repr(r['file'])}))
        if not r['failed'] and got['SFMRecords'] == want['SFMRecords'] and want['SFMRecords']:
            W = want['SFMRecords']
            try:
                a = recs.analyze()
                marks = list(dict.fromkeys(m for x in W for m, t in x))
                w = (min(map(len, W)), max(map(len, W)), marks, {m: list(dict.fromkeys(t for x in W for n, t in x if n == m)) for m in marks})
                if tuple(a) != w: bad.append(('analyze', f'analysis of {W}: code {a}, specification {w}', {'key': repr(r['file'])}))
                if all(x[0][0] == r['k'] for x in W):
                    for how, f in (('list', lambda x: x[1:]), ('dict', lambda x: dict(x[1:]))):
                        d = recs.copyToDict(how); w = {x[0][1]: f(x) for x in W}
                        if d != w or list(d) != list(w): bad.append(('copyToDict', f'{W} as {how}: code {d}, specification {w}', {'key': repr(r['file'])}))
            except Exception as e: bad.append(('records', f'analysis of {r["file"]!r}: {e!r}', {'key': repr(r['file'])}))
    os.unlink(path)
    return bad[:1]
def T(x): return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
def q(xs): return '{' + ', '.join(map(T, xs)) + '}'
def opt(ign=(), key='', ent=(), chg=()): return f'[ign |-> {q(ign)}, key |-> {T(key)}, ent |-> {q(ent)}, chg |-> <<' + ', '.join(f'<<{T(a)}, {T(b)}>>' for a, b in chg) + '>>]'
def main():
    global RD
    chk = vt.Check('C08'); vt.quiet_import()
    from BibleOrgSys.InputOutput.USFMFile import USFMFile
    from BibleOrgSys.InputOutput.ESFMFile import ESFMFile
    from BibleOrgSys.InputOutput.SFMFile import SFMLines, SFMRecords
    RD = (USFMFile, ESFMFile, SFMLines, SFMRecords)
    recs = {}
    def run(M, X, A, C, N, O, mn, mx, num=0):
        gen = {'MCSFM.tla': f'---- MODULE MCSFM ----\nEXTENDS SFMFile\nM == {q(M)}\nX == {q(X)}\nA == {q(A)}\nC == {q(C)}\nN == {q(N)}\nO == {{{", ".join(O)}}}\n====\n'}
        r = chk.tlc('MCSFM', f'SPECIFICATION Spec\nCONSTANTS\n Marks <- M\n Texts <- X\n Afters <- A\n Conts <- C\n Notes <- N\n Opts <- O\n MinLines = {mn}\n MaxLines = {mx}\n Emit = TRUE\n Sim = {str(bool(num)).upper()}\nINVARIANTS ReadsBack Counted NoLoss Divided Emitting\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=mx + 3, gen=gen)
        for x in r.records: recs[repr([x[k] for k in ('file', 'ign', 'key', 'ent', 'chg')])] = x
        if r.records: chk.sample(r.records[len(r.records) // 2])
    d = 4 if chk.thorough else 3
    run(['lx', 'ps'], ['a', ''], ['\\b'], ['c d'], [''], [opt(), opt(ign=['lx']), opt(key='ps', ent=['a'])], 0, d)
    run(['k', 'g'], ['1'], [], ['more', ' '], ['#'], [opt(ign=['k']), opt(key='g'), opt(key='g', ign=['g']), opt(ent=['1 more']), opt(chg=[('g', 'k')]), opt(ign=['k'], chg=[('g', 'k')]), opt(key='z')], 0, d + 1)
    n = 6000 if chk.thorough else 500
    M = 'id h c v p s1 q1 lx ge ps dt zzz +w'.split()
    X = ['', ' ', 'GEN - x', '1 In the beginning \\nd God\\nd* made', '  two', '\\f + \\ft note\\f*', '\\*', '# no', 'ēλ“’ א', 'end ', 'a=b|c', 'x\u2028y\u0085z\x0bw\x1c', '\t', '\ufeff', '\\', 'bank', '*']
    A = ['\\nd x\\nd*', '\\', '\\ x', '\\p', '\\\\*']
    C = ['carried on', ' led', '  ', 'x \\v 2 y', 'א', '1', '*', '\t#', ' #x', '“']
    N = ['', '#', '# comment', '#\\id x', '#\\*']
    O = [opt(), opt(), opt(ign=['id', 'h']), opt(ign=['c', 'v', 'p', 's1', 'zzz\\*', 'p*']), opt(key='lx'), opt(key='lx', ign=['dt', 'lx'], ent=['', 'bank']), opt(key='v', ent=['bank', 'bank carried on', '\\*']), opt(ign=['id'], chg=[('ge', 'gx'), ('h', 'id'), ('ps', 'v'), ('ge', 'p')]), opt(key='c', chg=[('v', 'c')])]
    run(M, X, A, C, N, O, 12, 24, n); run(M[:5], X[:8], A[:2], C[:4], N[:3], O, 5, 9, n)
    cases = list(recs.values())
    if chk.thorough:
        for x in cases: x['layouts'] = len(LAYOUTS)
    vt.replay_all(chk, cases, case, chunk=400)
    chk.extra['files'] = len(recs)
    chk.assumptions = ['files decode in the encoding given', 'the record reader refuses (OSError) text before the first marker line']
    return chk.finish()
vt.main(main)
