"C27: the containers of lines and notes"
import vt
I = None; LINES = NOTES = None
def mk(lines, spec):
    if not lines: return I.InternalBibleExtra(*spec)
    m, o, a, c, x, t = spec
    return I.InternalBibleEntry(m, o, a, c, None if x is None else I.InternalBibleExtraList([I.InternalBibleExtra(*y) for y in x]), t)
def fields(lines, spec):
    if not lines: return spec[:4]
    return spec[:4] + (None if spec[4] is None else I.InternalBibleExtraList([I.InternalBibleExtra(*y) for y in spec[4]]),) + spec[5:]
def case(c):
    lines, hist = c
    specs = dict(enumerate(LINES if lines else NOTES, 1)); L = I.InternalBibleEntryList if lines else I.InternalBibleExtraList
    objs = {i: mk(lines, s) for i, s in specs.items()}; st = {n: L() for n in hist[0]['store']}
    num = {id(o): i for i, o in objs.items()}
    no = lambda x: None if x == 99 else x
    ident = lambda x: num.get(id(x), repr(x))
    def out(step, what):
        h = [(x['op'], x['args']) for x in hist[:step + 1]]
        return [('containers', f'{"lines" if lines else "notes"}: after {h}: {what}', {'key': repr(h)})]
    for k, h in enumerate(hist):
        op, a, ans = h['op'], h['args'], h['ans']; got = ''
        try:
            if op == 'append': st[a[0]].append(objs[a[1]])
            elif op == 'pop': got = st[a[0]].pop(); got = 0 if got is None else ident(got)
            elif op == 'extend': st[a[0]].extend(st[a[1]])
            elif op == 'copy': st[a[0]] = L(st[a[1]])
            elif op == 'fromlist': st[a[0]] = L(list(st[a[1]]))
            elif op == 'add': st[a[0]] = st[a[1]] + st[a[2]]
            elif op == 'slice': st[a[0]] = st[a[1]][no(a[2]):no(a[3]):no(a[4])]
            elif op == 'item':
                try: got = ident(st[a[0]][a[1]])
                except IndexError: got = 0
            elif op == 'contains':
                key = LINES[a[1] - 1][0]
                got = st[a[0]].contains(key, no(a[2])) if a[2] != 99 or k % 2 else st[a[0]].contains(key)
                got = -1 if got is None else got
            elif op == 'checkForIndex':
                got = st[a[0]].checkForIndex(a[1]); got = [] if got is None else [ident(x) for x in got] if isinstance(got, list) else [ident(got)]
            elif op == 'equal':
                x, y = st[a[0]], st[a[1]]; got = x == y
                if (x != y) == got or x == y.data or x == None: return out(k, 'equality is not consistent')
            elif op == 'same':
                x, y = objs[a[0]], objs[a[1]]; got = x == y
                if (x != y) == got or x == specs[a[1]] or x == None: return out(k, 'equality is not consistent')
            elif op == 'settext':
                objs[a[0]].setCleanText(f'new {a[0]}'); s = specs[a[0]]; specs[a[0]] = (s[0], s[1], f'new {a[0]}', f'new {a[0]}', s[4], f'new {a[0]}')
        except Exception as e: got = repr(e)
        if got != ans or type(got) is not type(ans): return out(k, f'code {got!r}, specification {ans!r}')
        for n, want in h['store'].items():
            x = st[n]
            if type(x) is not L: return out(k, f'{n} is a {type(x)}')
            if any(st[n] is st[o] for o in st if o != n): return out(k, f'{n} is the same container as another')
            a1 = [ident(y) for y in x]; a2 = [ident(x[j]) for j in range(len(x))]; a3 = [ident(y) for y in reversed(x)][::-1]
            if not (a1 == a2 == a3 == want): return out(k, f'{n}: iterating gives {a1}, indexing {a2}, specification {want}')
            if (len(x), bool(x)) != (len(want), bool(want)): return out(k, f'{n} has length {len(x)}, specification {len(want)}')
            if want and any((y in x) != any(specs[y_][:6 if lines else 4] == specs[w][:6 if lines else 4] for w in want) for y_, y in objs.items()): return out(k, f'{n}: membership')
            str(x)
    for i, o in objs.items():
        f = fields(lines, specs[i])
        if len(o) != len(f) or tuple(o) != f or tuple(o[j] for j in range(len(f))) != f: return out(len(hist), f'fields of {i}: {tuple(o)}, specification {f}')
        acc = (o.getMarker(), o.getOriginalMarker(), o.getAdjustedText(), o.getCleanText(), o.getExtras(), o.getOriginalText()) if lines else (o.getType(), o.getIndex(), o.getText(), o.getCleanText())
        if acc != f or (lines and (o.getText() != f[2] or o.getFullText() != f[5])): return out(len(hist), f'accessors of {i}: {acc}, specification {f}')
        for j in (len(f), len(f) + 1):
            try: o[j]; return out(len(hist), f'field {j} of {i}')
            except IndexError: pass
    return []
def main():
    global I, LINES, NOTES
    chk = vt.Check('C27'); vt.quiet_import()
    from BibleOrgSys.Internals import InternalBibleInternals as I
    fn = ('fn', 3, '+ \\ft note', 'note', 'here')
    LINES = [('v', 'v', '1', '1', None, '1'), ('v', 'v', '1', '1', None, '1'), ('v~', 'v', 'a \\nd b\\nd*', 'a b', None, 'a \\nd b\\nd*'), ('v~', 'v', 'a \\nd b\\nd*', 'a b', [fn], 'a \\f + \\ft note\\f*\\nd b\\nd*'),
             ('v~', 'v', 'a \\nd b\\nd*', 'a b', [fn], 'a \\f + \\ft note\\f*\\nd b\\nd*'), ('v~', 'v', 'a \\nd b\\nd*', 'a b', [fn, fn], 'a \\f + \\ft note\\f*\\nd b\\nd*'), ('v~', 'p', 'a \\nd b\\nd*', 'a b', None, 'a \\nd b\\nd*'),
             ('v~', 'v', 'a \\bd b\\bd*', 'a b', None, 'a \\nd b\\nd*'), ('v~', 'v', 'a \\nd b\\nd*', 'a  b', None, 'a \\nd b\\nd*'), ('v~', 'v', 'a \\nd b\\nd*', 'a b', None, 'a  \\nd b\\nd*'), ('¬v', None, None, '1', None, None), ('v=', None, None, '1', None, None), ('p', 'p', '', '', None, '')]
    NOTES = [fn, ('fn', 3, '+ \\ft note', 'note', 'elsewhere'), ('xr', 3, '+ \\ft note', 'note', 'h'), ('fn', 4, '+ \\ft note', 'note', 'h'), ('fn', 3, '- \\ft note', 'note', 'h'), ('fn', 3, '+ \\ft note', 'not', 'h'), ('fig', 0, 'x', 'x', 'h'), ('en', 12, '1 \\ft z', 'z', 'h')]
    def run(lines, use, names, bounds, steps, mn, mx, maxlen, num=0):
        S = LINES if lines else NOTES
        same = lambda i: next(j for j in range(len(S)) if S[j][:6 if lines else 4] == S[i - 1][:6 if lines else 4]) + 1
        key = lambda i: next(j for j in range(len(S)) if S[j][0] == S[i - 1][0]) + 1 if lines else S[i - 1][1]
        con = ' @@ '.join(f'{i} :> [k |-> {key(i)}, c |-> {same(i)}, x |-> {"TRUE" if lines and S[i-1][4] or lines and S[i-1][1] is None else "FALSE"}]' for i in use)
        gen = {'MCCon.tla': '---- MODULE MCCon ----\nEXTENDS Containers\nN == {' + ', '.join(f'"{x}"' for x in names) + '}\nI == {' + ', '.join(map(str, use)) + '}\nC == ' + con + '\nB == {' + ', '.join(map(str, bounds)) + '}\nS == {' + ', '.join(map(str, steps)) + '}\n====\n'}
        r = chk.tlc('MCCon', f'SPECIFICATION Spec\nCONSTANTS\n Names <- N\n Items <- I\n Content <- C\n Bounds <- B\n Steps <- S\n Lines = {str(lines).upper()}\n MinOps = {mn}\n MaxOps = {mx}\n MaxLen = {maxlen}\n Emit = TRUE\n Sim = {str(bool(num)).upper()}\nINVARIANTS Slices Agree Emitting\nPROPERTIES Local\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=mx + 1, gen=gen)
        if r.records: chk.sample([(x['op'], x['args'], x['ans']) for x in r.records[len(r.records) // 2]])
        return [(lines, h) for h in r.records]
    cases = []; t = chk.thorough
    for lines in (True, False):
        use = [1, 2, 3, 4] if lines else [1, 2, 3, 4]
        cases += run(lines, use[:3] if t else use[:2], 'ab', [-1, 1, 99] if t else [1, 99], [99], 3, 3, 6)
        n = 8000 if t else 700
        S = LINES if lines else NOTES
        cases += run(lines, list(range(1, len(S) + 1)), 'abc', [-13, -3, -2, -1, 0, 1, 2, 3, 5, 13, 99], [99, 1, 2, 3, -1, -2], 25, 25, 12, n)
    vt.replay_all(chk, cases, case, seconds=4, chunk=300)
    chk.extra['histories'] = len(cases)
    return chk.finish()
vt.main(main)
