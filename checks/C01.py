import vt, bookdrv as B, bookcheck
NEST = None
def compare(b, rec, raw):
    "the sequence of markers (openers, end markers and everything between) and the numbers end markers carry"
    real = [{'m': e['m'], 't': e['t'] if e['m'].startswith('/') or e['m'] in 'cv' else ''} for e in B.proj_lines(B.entries(b))]
    spec = [{'m': e['m'], 't': e['t'] if e['m'].startswith('/') or e['m'] in 'cv' else ''} for e in rec['lines']]
    d = B.first_diff(real, spec)
    if d: return [('nesting', f'line {d[0]}: code has {d[1]}, specification {d[2]}', {'raw': raw, 'code': real, 'spec': spec})]
vt.main(lambda: bookcheck.check('C01', compare))
