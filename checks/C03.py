"C03: notes and embedded fields are lifted out of the lines they stand in"
import vt, bookdrv as B
def T(x):
    if isinstance(x, str): return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
    if isinstance(x, bool): return str(x).upper()
    if isinstance(x, tuple): return '<<' + ', '.join(T(y) for y in x) + '>>'
    if isinstance(x, (set, list)): return '{' + ', '.join(T(y) for y in x) + '}'
    return '[' + ', '.join(f'{k} |-> {T(v)}' for k, v in x.items()) + ']'
def W(w, a=None, c=None): return {'w': w, 'a': w if a is None else a, 'c': (w if a is None else a) if c is None else c}
def P(*parts): return tuple({'m': m, 'w': w, 'c': w if c is None else c} for m, w, c in parts)
WORDS = [W('God '), W('in the beginning, '), W('“light”'), W('.'), W(' and '), W('—'), W('ëñ')]
CHARED = [W('<<yes>> ', '“yes” '), W("<no>", '‘no’'), W('this &amp; that', None, 'this & that'), W('a * b '), W('x - y '), W('[a+b]'), W('  ')]
FB = [P(('fr', '1:1 ', None), ('ft', 'some text', None)), P(('ft', 'text', None)), P(('fr', '1:2 ', None), ('fk', 'word: ', None), ('ft', 'of ', None), ('fqa', 'the \\+nd Lord\\+nd* God ', 'the Lord God '), ('ft', 'end ', None)),
      P(('', 'plain words', None)), P(('fr', '3:4 ', None), ('ft', 'one - two + three', None), ('fv', '5', None))]
XB = [P(('xo', '1:1 ', None), ('xt', 'Gen 1:1; 2:3', None)), P(('xt', '2 Kgs 3:4 ', None)), P(('xo', '1:1: ', None), ('xk', 'light ', None), ('xt', 'Jhn 1:1-3', None), ('xta', ' and ', None), ('xt', 'Rev 1', None))]
OTHER = [('fig', '|src="a.jpg" size="col" ref="1:1"'), ('fig', 'A cap|src="b.png" size="span" copy="me" ref="2:3"'), ('str', 'H430'), ('sem', 'GodOne'), ('vp', '1b')]
ATTR = [('Lord', 'lemma="lord"'), ('gracious', 'strong="H1234"'), ('a', 'strong="H1" x-occ="2"'), ('bread', 'loaf')]
LINES = {'v': ('v', '1 ', 'v~'), 'p': ('p', '', 'p~'), 's1': ('s1', '', 's1'), 'q2': ('q2', '', 'p~'), 'ip': ('ip', '', 'ip'), 'm': ('m', '', 'p~'), 'd': ('d', '', 'd'), 'mt1': ('mt1', '', 'mt1'), 'r': ('r', '', 'r'), 'n': ('v', '1', 'v~'), 'c': ('c', '1 ', 'c~')}
INTRO = ('ip', 'mt1')
def build(line, text, kind):
    m, pre, want = LINES[line]
    raw = [('id', 'GEN'), ('h', 'Genesis')]
    if line in INTRO: raw += [(m, text), ('c', '1'), ('p', ''), ('v', '1 End.')]
    elif line == 'c': raw += [(m, pre + text), ('p', ''), ('v', '1 Start.'), ('v', '2 End.')]
    elif line in 'vn': raw += [('c', '1'), ('p', ''), ('v', pre + text), ('v', '2 End.')]
    else: raw += [('c', '1'), ('p', ''), ('v', '1 Start.'), (m, text), ('v', '2 End.')]
    b = B.make_book(raw, kind=kind)
    es = list(b._processedLines); hit = [i for i, e in enumerate(es) if e.getMarker() == want and e.getOriginalMarker() == m and e.getCleanText() not in ('Start.', 'End.')]
    return es, hit, want, raw
def case(r):
    bad = []
    for line, kind in r['on']:
        def say(c, w): bad.append((c, f'\\{line} {r["text"]} ({kind}): {w}', {'text': r['text'], 'line': line}))
        try: es, hit, want, raw = build(line, r['text'], kind)
        except Exception as e: say('raises', f'processing raised {e!r}'); continue
        if len(hit) != 1: say('entry', f'{len(hit)} {want} entries'); continue
        e = es[hit[0]]; x = [(y.getType(), y.getIndex(), y.getText(), y.getCleanText()) for y in (e.getExtras() or [])]
        off = ' ' if line == 'c' else ''   # what follows a chapter number keeps the space before it
        wx = [(y['t'], y['i'] + len(off), y['s'], y['c']) for y in r['extras']]
        if e.getAdjustedText() != (off + r['adj']).rstrip(): say('text', f'text kept {e.getAdjustedText()!r}, specification {r["adj"]!r}')
        if e.getText() != e.getAdjustedText(): say('text', 'getText differs')
        if e.getCleanText() != (off + r['clean'] if r['adj'] else ''): say('clean text', f'{e.getCleanText()!r}, specification {r["clean"]!r}')
        if x != wx: say('extras', f'{x}, specification {wx}')
        if line != 'c' and e.getOriginalText().rstrip() != r['text'].rstrip(): say('original text', f'{e.getOriginalText()!r}')
        if line != 'c' and e.getFullText().rstrip() != r['text'].rstrip(): say('full text', f'{e.getFullText()!r}')
        for k, o in enumerate(es):
            if k != hit[0] and o.getExtras(): say('extras', f'an extra also at {o.getMarker()}: {o.getExtras()}')
        vp = [y for y in wx if y[0] == 'vp']; got = [(k, o.getCleanText()) for k, o in enumerate(es) if o.getMarker() == 'vp#']
        ve = [k for k, o in enumerate(es) if o.getMarker() == 'v' and k < hit[0]]
        if got != ([(ve[-1] - 1, vp[0][2])] if vp else []): say('verse label', f'{got}')
        for t in {y[1] for y in wx}:
            w = [y for y in x if y[1] == t]; g = e.getExtras().checkForIndex(t)
            g = [] if g is None else g if isinstance(g, list) else [g]
            if [(y.getType(), y.getIndex(), y.getText(), y.getCleanText()) for y in g] != w: say('extras', f'at {t}: {g}')
        if bad: break
    return bad[:2]
def main():
    chk = vt.Check('C03'); B.setup()
    recs = {}
    def run(name, line, words, chars, callers, bodies, other, attr, mx, mn, num=0, nested=True, seed=0):
        gen = {'MCNotes.tla': '---- MODULE MCNotes ----\nEXTENDS Notes\n' + ''.join(f'{k} == {T(v)}\n' for k, v in [('W', words), ('C', chars), ('A', callers), ('B', bodies), ('O', other), ('X', attr)]) + '====\n'}
        r = chk.tlc('MCNotes', f'SPECIFICATION Spec\nCONSTANTS\n Words <- W\n CharMs <- C\n Callers <- A\n NoteBodies <- B\n OtherFields <- O\n Attributed <- X\n NestedMs = {T(nested)}\n Nestable = TRUE\n MaxPieces = {mx}\n MinPieces = {mn}\n Line = "{line}"\n Emit = TRUE\nINVARIANTS Restores InOrder NoFieldLeft Emitting\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=mx + 8, gen=gen, seed=chk.seed + seed)
        chk.extra.setdefault('texts', {})[name] = len(r.records)
        if r.records: chk.sample({'theme': name, **r.records[len(r.records) // 2]})
        for x in r.records: x['line'] = line; recs[line == 'v', x['text']] = x
    t = 1 if chk.thorough else 0
    run('notes', 'v', WORDS[:1] + WORDS[4:5], ['nd'], ['+', ''], FB[:1] + XB[:1], [OTHER[0]], ATTR[:1], 3 + t, 1)
    run('callers', 'x', [WORDS[0]], [], ['+', '-', 'a', '*', '', '+^', '-^'], FB + XB, [], [], 2, 1)
    run('fields', 'v', [WORDS[1]], ['wj'], [], [], OTHER, ATTR, 3 + t, 1)
    n = 6000 if t else 350
    for k, line in enumerate(('v', 'x')):
        run('random-' + line, line, WORDS + CHARED, ['nd', 'wj', 'add', 'bd', 'it', 'qs', 'w', 'k', 'sc', 'em'], ['+', '-', 'a', '', '-^', '+^'], FB + XB, OTHER, ATTR, 9, 5, n, seed=k)
        run('long-' + line, line, WORDS + CHARED, ['nd', 'add'], ['+'], FB[:3] + XB[:2], OTHER, ATTR, 22, 14, n // 2, seed=k + 5)
    cases = list(recs.values()); others = [l for l in LINES if l not in 'vn']
    for k, r in enumerate(cases):
        r['on'] = [('v', 'USFM3' if k % 3 else 'USFM2')] + ([('n', 'USFM3')] if r['text'][0] == '\\' else []) if r['line'] == 'v' else [(others[(k + j) % len(others)], 'USFM3' if (k + j) % 3 else 'USFM2') for j in (0, 1)]
    vt.replay_all(chk, cases, case, chunk=100)
    chk.assumptions = ['fields are complete and not nested in one another; attributed words stand outside notes', 'a note without a caller or with "-" gets the automatic one, a note that marks nothing gets ft or xt; fields are stored without trailing spaces']
    return chk.finish()
vt.main(main)
