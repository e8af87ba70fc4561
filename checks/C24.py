import vt, bookdrv as B, copy
from bookcheck import kinds
TR = str.maketrans('@%&$', 'éÉæÆ')
def real(x):
    if isinstance(x, str): return x.translate(TR)
    if isinstance(x, list): return [real(y) for y in x]
    if isinstance(x, dict): return {k: real(v) for k, v in x.items()}
    return x
K = ("mt1:+ is1:+ ip:+ iot:+ io1:+ c:c c:c v:v+ v:v+ v:v+ v:b+ p p:+ q1:+ q:+ m:+ s1:+ s2:+ d:+ li1:+ b r:+")
WORDS = ['a', 'B', 'ab', 'Ab', 'b@', 'BA', 'aa', 'A', '%b', 'a&', '$', 'ba', 'aBa', '@']
BOOKS = ['GEN', 'EXO', 'LEV']

def behaviours(chk, K_, mx, mn, words, finds, searches, exhaust, mode, num=0, seed=None):
    q = lambda ws: '{' + ', '.join('"%s"' % w for w in ws) + '}'
    inv = 'Sound' + (' Narrower' if exhaust else '')
    return chk.tlc('MCSearch', f"SPECIFICATION SearchSpec\nCONSTANTS\n Kinds <- K\n MaxLines = {mx}\n MinLines = {mn}\n ChapterBook = TRUE\n Emit = TRUE\n Sim = {str(mode == 'sim').upper()}\n Asks = 0\n AskKinds = {{}}\n"
                   f" Searches = {searches}\n BooksMax = 3\n Words <- Ws\n Finds <- Fs\n Exhaust = {str(exhaust).upper()}\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n",
                   mode=mode, num=num, depth=600, seed=seed,
                   gen={'MCSearch.tla': '---- MODULE MCSearch ----\nEXTENDS Search\nK == ' + kinds(K_) + '\nWs == ' + q(words) + '\nFs == ' + q(finds) + '\n====\n'})

def text(x):
    n = x['note']
    if not n['k']: return x['a']
    return x['a'] + f"\\{n['k']} " + ('+ \\ft ' if n['k'] == 'f' else '- \\xt ') + n['t'] + f"\\{n['k']}*" + x['z']

def make(rec):
    bible = B.Bible(); bible.name = 'TestWork'
    for k, contents in enumerate(rec['bible']):
        raw = []
        for l, x in zip(rec['raw'], contents):
            t = B.raw_text(l)
            if l['x'] and l['m'] != 'id': t = (l['n'] + ' ' if l['n'] else '') + real(text(x))
            raw.append((l['m'], t))
        b = B.make_book(raw, 'GEN'); b.BBB = BOOKS[k]
        bible.books[BOOKS[k]] = b
    return bible, raw

def ask(bible, q, k):
    books = [BOOKS[i - 1] for i in q['books']]
    o = {'findText': ('regex:' if q['regex'] else '') + real(q['find']), 'wordMode': q['mode'], 'caselessFlag': q['nocase'], 'ignoreDiacriticsFlag': q['bare'],
         'includeIntroFlag': q['intro'], 'includeMainTextFlag': q['main'], 'includeMarkerTextFlag': q['markers'], 'includeExtrasFlag': q['extras'],
         'contextLength': q['ctx'], 'markerList': list(q['only']) or None,
         'bookList': (books if len(books) < len(bible.books) or k % 3 else ('ALL' if k % 2 else None)) if len(books) != 1 or k % 2 else books[0],
         'chapterList': (None if not q['chapters'] else [int(c) for c in q['chapters']] if k % 2 else list(q['chapters']))}
    # options that have their usual value may be left out
    usual = {'wordMode': 'Any', 'caselessFlag': True, 'ignoreDiacriticsFlag': False, 'includeIntroFlag': True, 'includeMainTextFlag': True,
             'includeMarkerTextFlag': False, 'includeExtrasFlag': False, 'contextLength': 30, 'markerList': None, 'chapterList': None}
    if k % 2:
        for f, v in usual.items():
            if o[f] == v: del o[f]
    return o, books

def results(res, q):
    out = []
    for r in res:
        key = r[0]
        d = {'b': key.getBBB(), 'c': key.getChapterNumber(), 'v': key.getVerseNumber(), 'at': int(key.getVerseIndex() or 0), 'o': r[1] or '', 'before': r[2], 'after': r[-1]}
        if len(r) == 5: d['word'] = r[3]
        out.append(d)
    return out

def case(rec):
    bible, raw = make(rec)
    history = []
    for k, (q, a) in enumerate(zip(rec['qs'], rec['as'])):
        o, books = ask(bible, q, k)
        o['findHistoryList'] = list(history); given = copy.deepcopy(o)
        data = {'raw': raw, 'bible': real(rec['bible']), 'options': given}
        try: o2, summary, res = bible.findText(o)
        except Exception as e: return [('raises', f'search raised {e!r}', data)]
        want = []
        for n, hits in enumerate(a):
            for h in real(hits):
                w = {'b': BOOKS[n], 'c': h['c'], 'v': h['v'], 'at': h['at'], 'o': h['o'], 'before': h['before'] if q['ctx'] else None, 'after': h['after'] if q['ctx'] else None}
                if q['nocase']: w['word'] = h['word']
                want.append(w)
        got = results(res, q)
        d = B.first_diff(got, want)
        if d:
            clause = 'missed' if len(got) < len(want) else 'too many' if len(got) > len(want) else 'result'
            return [(clause, f'search for {given["findText"]!r} ({q["mode"]}): result {d[0]} is {d[1]}, specification {d[2]}', data)]
        found = [BOOKS[n] for n, hits in enumerate(a) if hits]
        if summary.get('searchedBookList') != books: return [('summary', f'searched {summary.get("searchedBookList")}, specification {books}', data)]
        if summary.get('foundBookList') != found: return [('summary', f'found in {summary.get("foundBookList")}, specification {found}', data)]
        history = [h for h in history if h != given['findText']] + [given['findText']]
        if o2['findHistoryList'] != history: return [('history', f'history is {o2["findHistoryList"]}, specification {history}', data)]

def run():
    chk = vt.Check('C24'); B.setup()
    import logging; logging.disable(logging.CRITICAL)
    counts = {}
    def replay(name, recs):
        vt.replay_all(chk, recs, case); counts[name] = sum(len(r['qs']) for r in recs)
        for r in recs[len(recs) // 2:][:1]: chk.sample({'theme': name, 'lines': r['raw'], 'contents': r['bible'][0][:4], 'search': r['qs'][0], 'answer': r['as'][0]})
    import itertools
    lines = [''.join(w) for n in range(1, 6 if chk.thorough else 5) for w in itertools.product('aB@ ', repeat=n) if w[0] != ' ' and w[-1] != ' ']
    more = [''.join(w) for n in range(1, 4) for w in itertools.product('a&E-', repeat=n)]
    replay('every line', behaviours(chk, 'c:c v:v+', 3, 3, lines, ['a', 'b', 'A', '@', 'e', 'aB', 'aa', 'ab', '%', 'b ', ' a', 'B@'], 20, True, 'bfs').records)
    replay('every line (ligatures)', behaviours(chk, 'c:c v:v+', 3, 3, more, ['a', 'e', 'ae', '&', '$', 'ea', 'a-'], 20, True, 'bfs').records)
    n = 2500 if chk.thorough else 150
    for i, (mx, mn, s) in enumerate(((8, 4, 12), (20, 10, 14))):
        replay(f'bibles {mx}', behaviours(chk, K, mx, mn, WORDS, ['a'], s, False, 'sim', n, seed=chk.seed * 10 + i).records)
    chk.extra['searches'] = counts; chk.extra['invariants'] = ['Sound', 'Narrower']; chk.exhaustive = False
    chk.assumptions = ['texts over a few letters, accented letters, a ligature, spaces and punctuation', 'patterns (regex:) of letters, ., [..] and a final +',
                       'a heading is reported under the last verse number before it; introduction lines are counted without the markers the library adds']
    return chk.finish()
vt.main(run)
