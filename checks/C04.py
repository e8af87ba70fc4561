import vt, bookdrv as B, bookcheck
def compare(b, rec, raw):
    "index entries: key, first line, number of lines, context"
    n = len(B.entries(b)); e = B.proj_index(b)
    pos = 0
    for x in e:
        if x['ix'] != pos or x['n'] < 1: return [('partition', f'entry {x["c"]}:{x["v"]} covers {x["ix"]}+{x["n"]} after {pos}', {'raw': raw, 'index': e})]
        pos += x['n']
    if pos != n: return [('partition', f'index covers {pos} of {n} lines', {'raw': raw, 'index': e})]
    d = B.first_diff(e, rec['index'])
    if d: return [('index', f'entry {d[0]}: code has {d[1]}, specification {d[2]}', {'raw': raw, 'code': e, 'spec': rec['index']})]
vt.main(lambda: bookcheck.check('C04', compare))
