import vt, bookdrv as B, bookcheck
from bookcheck import kinds
INV = "Tiling BeginsRight EveryHeading Distinct StartsAtVerse InOrder"
# name: (kinds, quick length, thorough length, book, story, chapters)
STORY = ('GEN', True, '{}'); UNITS = ('PSA', False, '{}'); PROV = ('PRO', True, '{"11", "12", "13"}')
THEMES = [
    ('general', "is1:+ c:c s1:+ ms1:+ v:v+ p p:+", 6, 8, STORY),
    ('bridges', "c:c s1:+ ms1:+ v:v+ v:b+ p:+ p", 6, 8, STORY),
    ('units', "ms1:+ c:c s1:+ v:v+ v:b+ q1 q1:+", 6, 8, UNITS),
    ('more headings', "mt1:+ c:c s1:+ s2:+ ms1:+ mr:+ r:+ d:+ v:v+ p", 5, 7, STORY),
    ('no headings', "mt1:+ is1:+ ip:+ c:c v:v+ v:v p q1:+ ms1:+", 5, 7, STORY),
    ('unit headings', "mt1:+ c:c v:v+ v:v d:+ s1:+ ms1:+ mr:+ r:+ q1", 5, 7, UNITS),
]
ALL = "mt1:+ is1:+ ip:+ iot:+ io1:+ rem:+ c:c c:c c:c c:c v:v+ v:v+ v:v+ v:v v:b+ v:g+ v:V+ p p:+ q1 q1:+ m:+ b nb s1:+ s1:+ s1:+ ms1:+ mr:+ s2:+ r:+ d:+ sp:+ li1:+"

def behaviours(chk, K, mx, book, mn=3, mode='bfs', num=1000, seed=None):
    BBB, story, also = book
    return chk.tlc('MCSections', f"SPECIFICATION SSpec\nCONSTANTS\n Kinds <- K\n MaxLines = {mx}\n MinLines = {mn}\n ChapterBook = TRUE\n Emit = TRUE\n Sim = {str(mode == 'sim').upper()}\n Asks = 0\n AskKinds = {{}}\n Story = {str(story).upper()}\n AlsoChapters <- Also\nINVARIANTS {INV}\nCHECK_DEADLOCK FALSE\n",
                   mode=mode, num=num, depth=900, seed=seed,
                   gen={'MCSections.tla': '---- MODULE MCSections ----\nEXTENDS Sections\nK == ' + kinds(K) + '\nAlso == ' + also + '\n====\n'})

def make(raw, BBB):
    b = B.make_book(raw, BBB)
    bible = B.Bible(); bible.name = 'TestWork'; bible.books[BBB] = b; b.containerBibleObject = bible
    bible.discover()
    b._makeBookSectionIndex()
    return b

def key(e): return (e.getMarker(), e.getOriginalMarker(), e.getCleanText())
def compare(b, rec, raw, BBB):
    si = b._SectionIndex; lines = b._processedLines
    name = b.getAssumedBookNames()[0]
    name = {'Psalms': 'Psalm', 'Songs': 'Song'}.get(name, name)
    got = [dict(c=k[0], v=k[1], ec=e.getEndCV()[0], ev=e.getEndCV()[1], ix=e.getStartIndex(), ex=e.getEndIndex(), r=e.getSectionNameReason()[1], n=e.getSectionNameReason()[0]) for k, e in si.items()]
    want = [dict(s, n=s['n'].replace('@', name).replace('#', BBB)) for s in rec['secs']]
    pos = 0
    for g in got:
        if g['ix'] != pos or g['ex'] < g['ix']: return [('tiling', f"section {g['c']}:{g['v']} has lines {g['ix']}-{g['ex']} where line {pos} comes next", {'raw': raw, 'sections': got})]
        pos = g['ex'] + 1
    if pos != len(lines): return [('tiling', f'sections cover {pos} of {len(lines)} lines', {'raw': raw, 'sections': got})]
    for g, w in zip(got, want):
        for f in ('ix', 'ex', 'c', 'v', 'ec', 'ev', 'r', 'n'):
            if g[f] != w[f]: return [('section ' + f, f'section has {g}, specification {w}', {'raw': raw, 'code': got, 'spec': want})]
    if len(got) != len(want): return [('sections', f'{len(got)} sections, specification {len(want)}', {'raw': raw, 'code': got, 'spec': want})]
    if len(si) != len(want): return [('sections', f'len is {len(si)}', {'raw': raw})]
    for w in want:
        k = (w['c'], w['v'])
        if k not in si: return [('lookup', f'{k} not found', {'raw': raw})]
        mine = [key(e) for e in lines[w['ix']:w['ex'] + 1]]
        if [key(e) for e in si.getSectionEntries(k)] != mine: return [('lookup', f'entries of section {k} are not its lines', {'raw': raw})]
        es, ctx = si.getSectionEntriesWithContext(k)
        if [key(e) for e in es] != mine: return [('lookup', f'entries of section {k} (with context) are not its lines', {'raw': raw})]
        if si[k].getEntryCount() != len(mine): return [('lookup', f'section {k} counts {si[k].getEntryCount()} lines', {'raw': raw})]
    bad = ('99', '1')
    for f in (si.getSectionEntries, si.getSectionEntriesWithContext):
        try: f(bad); return [('lookup', 'an absent section is found', {'raw': raw})]
        except KeyError: pass

def run():
    chk = vt.Check('C07'); B.setup()
    import logging; logging.disable(logging.CRITICAL)
    counts = {}
    def replay(name, book, recs):
        def case(rec):
            raw = [(l['m'], B.raw_text(l)) for l in rec['raw']]
            try: b = make(raw, book[0])
            except Exception as e: return [('raises', f'building the section index raised {e!r}', {'raw': raw, 'BBB': book[0]})]
            return compare(b, rec, raw, book[0])
        vt.replay_all(chk, recs, case); counts[name] = len(recs)
        for r in recs[len(recs) // 2:][:1]: chk.sample({'theme': name, 'lines': r['raw'], 'sections': r['secs']})
    for name, K, q, t, book in THEMES:
        replay(name, book, behaviours(chk, K, t if chk.thorough else q, book).records)
        if chk.nviol: break
    if not chk.nviol:
        n = 1500 if chk.thorough else 60
        for k, book in enumerate((STORY, UNITS, PROV)):
            for mx, mn in ((14, 9), (45, 25)):
                replay(f'random {book[0]} {mx}', book, behaviours(chk, ALL, mx, book, mn, 'sim', n if k < 2 else n // 2, seed=chk.seed * 20 + 2 * k + (mx > 20)).records)
    chk.extra['behaviours_per_theme'] = counts; chk.extra['invariants'] = INV.split(); chk.exhaustive = False
    chk.assumptions = ['source lines are well-formed in the sense of Book!Allowed', 'every sequence up to the bound of each theme; longer ones sampled',
                       'verse numbers are plain or bridges; headings carry their text on their line']
    return chk.finish()
vt.main(run)
