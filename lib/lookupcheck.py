"""Conformance of lookups with spec/Lookup.tla (C05, C06, C25)."""
import vt, bookdrv as B, bookcheck as K

SYMBOL = {'@d': '⌂', '@s1': '¹', '@s2': '²', '@s3': '³', '@s4': '⁴', '@p': '¶', '@q1': '₁', '@q2': '₂', '@q3': '₃', '@q4': '₄', '@mi': '◊', '@m': '§', '@li1': '•', '@li2': '◦'}
INV = {'C05': 'FindsItself NeverOther FoundIfThere', 'C06': 'ChaptersTile RangeIsChapter', 'C25': 'VersifyAgrees'}

def behaviours(chk, K_, mx, mn, asks, kinds, mode='bfs', num=1000, cb=True, seed=None, inv=''):
    return chk.tlc('MCLookup', f"SPECIFICATION LookupSpec\nCONSTANTS\n Kinds <- K\n MaxLines = {mx}\n MinLines = {mn}\n ChapterBook = {str(cb).upper()}\n Emit = TRUE\n Sim = {str(mode == 'sim').upper()}\n Asks = {asks}\n AskKinds <- AK\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n",
                   mode=mode, num=num, depth=700, seed=seed,
                   gen={'MCLookup.tla': '---- MODULE MCLookup ----\nEXTENDS Lookup\nK == ' + K.kinds(K_) + '\nAK == {' + ', '.join('"%s"' % k for k in kinds) + '}\n====\n'})

def lines_of(entries): return [(e.getMarker(), e.getOriginalMarker(), e.getText(), e.getCleanText(), e.getOriginalText()) for e in entries]

def token(s):
    for k in sorted(SYMBOL, key=len, reverse=True): s = s.replace(k, SYMBOL[k])
    return s

class Book:
    def __init__(self, raw, BBB='GEN'):
        self.book = B.make_book(raw, BBB); self.BBB = BBB
        self.bible = B.Bible(); self.bible.name = 'V'
        self.bible.books[BBB] = self.book
        self.all = lines_of(B.entries(self.book))
    def pick(self, segs):
        out = []
        for a, n in segs: out += self.all[a:a + n]
        return out
    def state(self):
        b = self.book
        return (lines_of(B.entries(b)), B.proj_index(b))

def ask(b, q, viaBible):
    "put one question to the real code -> ('no',) or the projected answer"
    k, c, v = q['k'], q['c'], q['v']
    bk = b.book
    try:
        if k in ('strict', 'loose', 'complete'):
            ref = (b.BBB, c, v)
            if v.isdigit() and k == 'loose' and c.isdigit() and viaBible: ref = B.SimpleVerseKey(b.BBB, c, v)
            src = b.bible if viaBible else bk
            r = src.getContextVerseData(ref, strict=(k == 'strict'), complete=(k == 'complete'))
            if viaBible and k == 'loose':
                r2 = b.bible.getVerseDataList(ref)
                if lines_of(r2) != lines_of(r[0]): return ('odd', 'getVerseDataList differs from getContextVerseData')
            return ('lines', lines_of(r[0]), [B.amark(m) for m in r[1]])
        if k in ('plainstrict', 'plainloose'):
            return ('lines', lines_of(bk._CVIndex.getVerseEntries((c, v), strict=(k == 'plainstrict'))), None)
        if k in ('text', 'textc'):
            return ('text', b.bible.getVerseText((b.BBB, c, v), includeNonCanonical=(k == 'text')))
        if k == 'chapter':
            r = (b.bible if viaBible else bk).getContextVerseData((b.BBB, c))
            return ('lines', lines_of(r[0]), [B.amark(m) for m in r[1]])
        if k == 'plainchapter': return ('lines', lines_of(bk._CVIndex.getChapterEntries(c)), None)
        if k == 'whole':
            r = (b.bible if viaBible else bk).getContextVerseData((b.BBB,))
            return ('lines', lines_of(r[0]), list(r[1]))
        if k in ('range', 'rangeloose'):
            refs = [(b.BBB, c, v), (b.BBB, q['ec'], q['ev'])]
            if viaBible: refs = [B.SimpleVerseKey(*x) if x[1].isdigit() and x[2].isdigit() else x for x in refs]
            r = (b.bible if viaBible else bk).getContextVerseDataRange(*refs, strict=(k == 'range'))
            return ('lines', lines_of(r[0]), [B.amark(m) for m in r[1]])
        if k == 'versify':
            r = b.bible.getVersification()[b.BBB] if viaBible and False else bk.getVersification()
            return ('val', {'chapters': [list(x) for x in r[0]], 'omitted': [list(x) for x in r[1]], 'combined': [list(x) for x in r[2]], 'reordered': [list(x) for x in r[3]]})
        if k == 'numchapters': return ('val', {'n': str((b.bible.getNumChapters(b.BBB) if viaBible else bk.getNumChapters()))})
        if k == 'numverses':
            n = b.bible.getNumVerses(b.BBB, c) if viaBible else bk.getNumVerses(c)
            return ('val', {'n': 'none' if n is None else str(n)})
        raise vt.MachineryError('unknown question ' + k)
    except KeyError: return ('no',)

def expect(b, q, a):
    if q['k'] in ('versify', 'numchapters', 'numverses'): return ('val', a)
    if not a['ok']: return ('no',)
    if 'text' in a: return ('text', token(a['text']))
    return ('lines', b.pick(a['segs']), None if q['k'].startswith('plain') else a['ctx'])

def case(rec):
    raw = [(l['m'], B.raw_text(l)) for l in rec['raw']]
    b = Book(raw); before = b.state()
    for n, (q, a) in enumerate(zip(rec['qs'], rec['as'])):
        want = expect(b, q, a)
        for via in (False, True):
            try: got = ask(b, q, via)
            except Exception as e: got = ('raise', repr(e))
            if got != want: return [('answer', f'question {n} {q} via {"Bible" if via else "book"}: code answers {str(got)[:400]}, specification {str(want)[:400]}', {'raw': raw, 'q': q, 'code': got, 'spec': want})]
    after = b.state()
    if after != before: return [('unchanged', f'the questions changed the book: {B.first_diff(before[0], after[0]) or B.first_diff(before[1], after[1])}', {'raw': raw, 'questions': rec['qs']})]
    # the same questions the other way round, of a fresh book
    b2 = Book(raw)
    for q, a in reversed(list(zip(rec['qs'], rec['as']))):
        want = expect(b2, q, a)
        try: got = ask(b2, q, False)
        except Exception as e: got = ('raise', repr(e))
        if got != want: return [('history', f'{q} asked in another order: code answers {str(got)[:400]}, specification {str(want)[:400]}', {'raw': raw, 'q': q})]

def check(pid, kinds, themes, alpha, extra=None, asks=(25, 40)):
    chk = vt.Check(pid); B.setup()
    exh = [k for k in kinds if not k.startswith('range')]
    for name, (kk, q, t) in themes.items():
        mx = t if chk.thorough else q
        if exh:
            r = behaviours(chk, kk, mx, 3, 0, exh, inv=INV[pid])
            vt.replay_all(chk, r.records, case)
            chk.extra[f'books_{name}_all_questions'] = len(r.records)
            for x in r.records[-1:]: chk.sample({'theme': name, 'lines': x['raw'], 'questions': len(x['qs'])})
        r = behaviours(chk, kk, mx + 7, mx, asks[0], kinds, mode='sim', num=4000 if chk.thorough else 250, seed=chk.seed, inv=INV[pid])
        vt.replay_all(chk, r.records, case)
        chk.extra[f'books_{name}_random_histories'] = len(r.records)
        if chk.nviol: return chk.finish()
    for mx, mn in ((16, 10), (40, 25)):
        r = behaviours(chk, alpha, mx, mn, asks[1], kinds, mode='sim', num=4000 if chk.thorough else 200, seed=chk.seed + mx, inv=INV[pid])
        vt.replay_all(chk, r.records, case)
        chk.extra[f'books_random{mx}'] = len(r.records)
        for x in r.records[:1]: chk.sample({'random': mx, 'questions': x['qs'][:5], 'answers': x['as'][:5]})
        if chk.nviol: return chk.finish()
    if extra: extra(chk)
    chk.extra['invariants'] = INV[pid].split()
    chk.exhaustive = False
    chk.assumptions = ['books are those of Book.tla: chapter and verse numbers increase, each chapter:verse label occurs once',
                       'histories of up to 40 questions per book, each also asked in reverse of a fresh book']
    return chk.finish()
