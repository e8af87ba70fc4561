import vt, bookdrv as B, bookcheck
def vis(lines): return [(e['m'], e['o'], e['t']) for e in lines if e['o'] or e['t'] and not e['m'].startswith('/')]
def compare(b, rec, raw):
    "every line that carries text or stands for a source line: marker, original marker and text, in order, and where (chapter:verse)"
    real, spec = vis(B.proj_lines(B.entries(b))), vis(rec['lines'])
    d = B.first_diff(real, spec)
    if d: return [('text', f'entry {d[0]}: code has {d[1]}, specification {d[2]}', {'raw': raw, 'code': real, 'spec': spec})]
    out = []
    for e in B.entries(b): # plain texts: the three forms of a text agree
        if e.getMarker() == 'c~' or e.getMarker().startswith('¬'): continue
        if (e.getText() or '') != (e.getCleanText() or '') or len(e.getExtras() or []):
            return [('text', f'{e.getMarker()}: text {e.getText()!r} but clean text {e.getCleanText()!r}', {'raw': raw})]
vt.main(lambda: bookcheck.check('C02', compare, True))
