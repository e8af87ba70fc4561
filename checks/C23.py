"C23: the directories Backups.tla says a history of writes and backups leaves, against the real function"
import vt, os, shutil

def name(k, ext): return 'f.txt' if k == 0 else 'f.txt.' + ext + ('' if k == 1 else str(k))
OTHERS = ['f.tx', 'f.txt.bakx', 'f.txt.bak99', 'f.txt1', 'g.txt', 'g.txt.bak', '.bak', 'bak', 'f.txt.bak0', 'f.txt.bak1', 'f.bak', 'f.txt.bak-1']
class Cut(Exception): pass

def case(c):
    from BibleOrgSys import BibleOrgSysGlobals as G
    rec, cutat, ext, aspath = c
    d = os.path.join(os.environ['VERIF_SCRATCH'], f'bk{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    slots = len(rec['bak'])
    def put(n, x):
        with open(os.path.join(d, n), 'wt') as fh: fh.write(str(x))
    f, baks = rec['start']
    if f: put(name(0, ext), f)
    for k, x in enumerate(baks, 1):
        if x: put(name(k, ext), x)
    others = [o for o in OTHERS if o not in {name(k, ext) for k in range(slots + 1)}]
    for o in others: put(o, 'other ' + o)
    path = os.path.join(d, 'f.txt')
    if aspath:
        import pathlib; path = pathlib.Path(path)
    data = {'start': rec['start'], 'history': rec['hist'], 'cut': cutat}
    def look():
        out = {}
        for n in os.listdir(d):
            with open(os.path.join(d, n)) as fh: out[n] = fh.read()
        return out
    try:
        for h in rec['hist']:
            if h['e'] == 'write': put('f.txt', h['n'])
            elif h['e'] == 'remove': os.remove(os.path.join(d, 'f.txt'))
            elif h['e'] == 'backup': G.backupAnyExistingFile(path, h['n'], **({} if ext == 'bak' else {'extension': ext if h['n'] % 2 else '.' + ext}))
            elif h['e'] == 'crash':
                n = [0]; saved = {}
                for m, fn in ((os, 'rename'), (os, 'replace'), (os, 'remove'), (os, 'unlink'), (shutil, 'move'), (shutil, 'copy'), (shutil, 'copy2'), (shutil, 'copyfile')):
                    def wrap(*a, _f=getattr(m, fn), **k):
                        if n[0] >= cutat: raise Cut()
                        n[0] += 1; return _f(*a, **k)
                    saved[m, fn] = getattr(m, fn); setattr(m, fn, wrap)
                try: G.backupAnyExistingFile(path, h['n'], ext)
                except Cut: pass
                finally:
                    for (m, fn), o in saved.items(): setattr(m, fn, o)
    except vt.MachineryError: raise
    except Exception as e: return [('raises', f'{h}: {e!r}', data)]
    got = look()
    for o in others:
        if got.pop(o, None) != 'other ' + o: return [('othersUntouched', f'the file {o} changed', data)]
    crashed = rec['hist'][-1]['e'] == 'crash'
    if not crashed:
        want = {name(k, ext): str(x) for k, x in enumerate([rec['file'] if False else 0] + list(rec['bak'])) if x}
        if rec['file']: want[name(0, ext)] = str(rec['file'])
        if got != want: return [('generations', f'the directory holds {got}, specification {want}', data)]
    else:
        order = [got[name(k, ext)] for k in range(slots + 2) if name(k, ext) in got]
        it = iter(order)
        if not all(str(g) in it for g in rec['keep']): return [('newestKept', f'cut off after {cutat} steps: generations left {order}, must keep {rec["keep"]}', data)]
        extra = set(got) - {name(k, ext) for k in range(slots + 2)}
        if extra: return [('othersUntouched', f'new files {extra}', data)]

def run(chk, maxn, slots, ev, crashes, mode='bfs', num=1000, seed=None):
    return chk.tlc('Backups', f'SPECIFICATION Spec\nCONSTANTS\n MaxN = {maxn}\n Slots = {slots}\n MaxEvents = {ev}\n Crashes = {str(crashes).upper()}\n Sim = {str(mode == "sim").upper()}\n Emit = TRUE\nINVARIANTS NewestKept StepsAgree\nPROPERTIES NewestIsFirst\nCHECK_DEADLOCK FALSE\n',
                   mode=mode, num=num, depth=ev + 4, seed=seed)

def main():
    chk = vt.Check('C23'); vt.quiet_import()
    cases = []
    def add(recs):
        seen = set()
        for r in recs:
            k = repr((r['start'], r['hist']))
            if k in seen: continue
            seen.add(k)
            for cut in (range(0, 2 * r['hist'][-1]['n'] + 1) if r['hist'][-1]['e'] == 'crash' else [0]):
                cases.append((r, cut, chk.rng.choice(['bak', 'bak', 'old']), chk.rng.random() < .5))
    r = run(chk, 4, 5, 4 if chk.thorough else 3, True)
    add(r.records); chk.extra['histories_exhaustive'] = len(r.records)
    r = run(chk, 10, 11, 14, True, 'sim', 4000 if chk.thorough else 500, chk.seed)
    add(r.records); chk.extra['histories_random'] = len(r.records)
    for x in r.records[:2]: chk.sample(x)
    vt.replay_all(chk, cases, case, chunk=300)
    chk.exhaustive = False
    chk.assumptions = ['a crash is modelled as the interruption before any one of the file operations of the backup', 'rename within a directory is atomic']
    return chk.finish()
vt.main(main)
