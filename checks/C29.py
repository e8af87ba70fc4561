"C29: Bibles kept one verse to a line are read whole, and what is exported that way can be read back"
import vt, json, os, shutil, tempfile
import bookdrv as B
G = None
N = lambda b, id, gen, num, ub, forge, dr, vpl, name, fb, ss, ps=False: dict(b=b, id=id, gen=gen, num=num, ub=ub, forge=forge, dr=dr, vpl=vpl, name=name, fb=fb, ss=ss, ps=ps)
BOOKS = [N('GEN', 'GEN', 'Gen', 1, '01O', 'Ge', 'GEN', 'Gen', 'Genesis', 'Ge', 'Ge'), N('RUT', 'RUT', 'Rut', 8, '08O', 'Ruth', 'RUT', 'Rut', 'Ruth', 'RUT', 'Ru'),
         N('PSA', 'PSA', 'Psa', 19, '19O', 'Ps', 'PS', 'Psa', 'Psalms', 'PSA', 'Ps', True), N('SNG', 'SNG', 'Song', 22, '22O', 'Song', 'SON', 'Song', 'Song of Songs', 'SNG', 'Song'),
         N('MAT', 'MAT', 'Mat', 40, '40N', 'Mt', 'MAT', 'Mat', 'Matthew', 'Mt', 'Mt'), N('CO1', '1CO', '1Co', 46, '46N', '1 Cor', '1CO', '1Co', '1 Corinthians', 'CO1', '1Co'),
         N('JN1', '1JN', '1Jn', 62, '62N', '1 John', '1JN', '1Jn', '1 John', 'JN1', '1Jo'), N('JDE', 'JUD', 'Jude', 65, '65N', 'Jude', 'JUD', 'Jude', 'Jude', 'Jude', 'Jude')]
FMT = {'csvq': ('CSVBible', 't.csv'), 'csvb': ('CSVBible', 't.csv'), 'csvx': ('CSVBible', 't.csv'), 'tsv': ('CSVBible', 't.tsv'), 'tsvref': ('CSVBible', 't.tsv'),
       'vpl1': ('VPLBible', 't.txt'), 'vpl2': ('VPLBible', 't.txt'), 'vpl3': ('VPLBible', 't.txt'), 'vpl5': ('VPLBible', 't.txt'), 'yet': ('YETBible', 't.yet'),
       'ub4': ('UnboundBible', 't_utf8.txt'), 'ub6': ('UnboundBible', 't_utf8.txt'), 'ub9': ('UnboundBible', 't_utf8.txt'), 'drupal': ('DrupalBible', 't.bc'), 'forge': ('ForgeForSwordSearcherBible', 't.txt')}
# all the books, as the formats with numbers have them: the reference number, Unbound's number with O or N, and VPL's own numbers after those
B66 = 'GEN EXO LEV NUM DEU JOS JDG RUT SA1 SA2 KI1 KI2 CH1 CH2 EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZE DAN HOS JOL AMO OBA JNA MIC NAH HAB ZEP HAG ZEC MAL MAT MRK LUK JHN ACT ROM CO1 CO2 GAL EPH PHP COL TH1 TH2 TI1 TI2 TIT PHM HEB JAM PE1 PE2 JN1 JN2 JN3 JDE REV'.split()
BX = 'TOB JDT ESG WIS SIR BAR LJE PAZ SUS BEL MA1 MA2 MA3 MA4 GES LES MAN PS2 PSS ODE'.split()
ALL = [N(b, b, b, n + 1, f'{n + 1:02}' + ('O' if n < 39 else 'N'), b, b, b, b, b, b) for n, b in enumerate(B66)] + [N(b, b, b, n + 67, '', b, b, b, b, b, b) for n, b in enumerate(BX)]
NUMBERED = {'csvq', 'tsv', 'vpl2', 'vpl3', 'yet', 'ub4', 'ub6', 'ub9'}
NOCHECK = {'tsv', 'tsvref', 'vpl5'}   # formats whose file check (it says so) doesn't know them
def line(f, fs, verse):
    if f == 'csvq': return ','.join('"' + x + '"' for x in fs)
    if f == 'csvb': return '|'.join(fs)
    if f == 'csvx': return ','.join(fs)
    if f in ('vpl1', 'vpl5', 'forge'): return ' '.join(fs)
    if f == 'drupal': return '|'.join(fs)
    return '\t'.join(fs)
def books(y):
    out = []
    for BBB, b in y.books.items():
        if not b._processedFlag: b.processLines()
        ls = [[e.getMarker(), e.getOriginalText()] for e in b._processedLines if e.getMarker()[0] != '¬' and e.getMarker() not in ('chapters', 'c#', 'intro', 'iot', 'v=')]
        out.append({'b': BBB, 'lines': [[m, t] for m, t in ls if not (m == 'v~' and not t)]})
    return out
def differ(got, want):
    gb, wb = [x['b'] for x in got], [x['b'] for x in want]
    if gb != wb: return f'books: code {gb}, specification {wb}'
    for g, w in zip(got, want):
        d = B.first_diff(g['lines'], norm(w['lines']))
        if d: return f'{g["b"]} line {d[0] + 1}: code {d[1]}, specification {d[2]}'
def norm(ls): return [[m, t if m not in ('p', 'q1', 'q2', 'q3', 'q4', 'm') else t] for m, t in ls]
def read(cls, d, name, enc=None):
    c = getattr(MODS[cls], cls)
    y = c(d, name, encoding=enc) if enc else c(d, name)
    y.load(); return books(y)
MODS = {}
def case(c):
    rec, salt = c
    d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
    try: return list(files(rec, salt, d)) + list(exports(rec, salt, d))
    finally: shutil.rmtree(d)
def files(rec, salt, d):
    for n, f in enumerate(rec['files']):
        fmt = f['fmt']; cls, fn = FMT[fmt]
        if not f['want'] or (not rec['codes'] and fmt not in (NUMBERED if f['want'][0]['b'] in B66 else {'vpl2', 'vpl3'})): continue
        w = os.path.join(d, fmt); os.makedirs(w)
        text = '\n'.join(line(fmt, fs, True) for fs in f['lines']) + ('\n' if (salt + n) % 3 else '')
        bom = (salt + n) % 4 == 1 and fmt in ('vpl1', 'vpl2', 'vpl3', 'vpl5', 'drupal', 'forge')
        with open(os.path.join(w, fn), 'wt', encoding='utf-8', newline=('\n', '\r\n')[(salt + n) % 5 == 2]) as fh: fh.write(('\ufeff' if bom else '') + text)
        what = lambda s: ('read', f'{fmt}{" with BOM" if bom else ""}: {s}', {'key': fmt + text[:200], 'file': text, 'format': fmt})
        name = fn[:-9] if fn.endswith('_utf8.txt') else fn[:-4] if fmt not in ('drupal',) else fn[:-3]
        try: got = read(cls, w, name, 'utf-8' if (salt + n) % 2 or fmt.startswith('csv') or fmt.startswith('tsv') else None)
        except Exception as e: yield what(f'raises {e!r}'); continue
        x = differ(got, f['want'])
        if x: yield what(x); continue
        if fmt in NOCHECK or len(f['lines']) < 4 or (salt + n) % 3 == 0: continue
        check = getattr(MODS[cls], cls + 'FileCheck')
        try:
            k = check(w); y = check(w, autoLoad=True, autoLoadBooks=True)
            if k != 1: yield what(f'its file check finds {k}'); continue
            x = differ(books(y), f['want'])
            if x: yield what('loaded by its file check: ' + x)
        except Exception as e: yield what(f'its file check raises {e!r}')
def exports(rec, salt, d):
    if salt % 2: rec = json.loads(json.dumps(rec, ensure_ascii=False).replace('Word', 'Wörd'))
    if not rec['bible'] or (not rec['codes'] and rec['bible'][0]['b'] not in B66): return
    bible = B.Bible(); bible.name = 'Test'; bible.abbreviation = 'TST'; bible.workName = 'Test'
    for x in rec['bible']:
        b = B.make_book([tuple(l) for l in x['lines']], x['b']); b.containerBibleObject = bible; bible.stashBook(b)
    key = repr(rec['bible'])[:300]
    what = lambda f, s: ('export', f'{f}: {s}', {'key': f + key, 'bible': rec['bible']})
    def lines(p, skip=lambda l: False):
        with open(p, 'rt', encoding='utf-8') as fh: return [l for l in fh.read().lstrip('\ufeff').split('\n') if l and not skip(l)]
    if rec['codes'] and len(rec['backs']['ss']) == len(rec['bible']): # EasyWorship files are compressed (and have no place for a book without text): what comes back is compared
        w = os.path.join(d, 'xewb')
        try:
            bible.toEasyWorshipBible(w + '/')
            y = MODS['EasyWorshipBible'].EasyWorshipBible(w, 'tst.ewb'); y.load(); back = books(y)
        except Exception as e: yield what('ewb', f'raises {e!r}')
        else:
            mine = {x['b'] for x in rec['backs']['ss']}
            x = differ([z for z in back if z['b'] in mine], rec['backs']['ss'])
            if x: yield what('ewb', 'read back: ' + x)
            for z in back:
                if z['b'] not in mine and z['lines'] != [['c', '1'], ['v', '1'], ['v~', 'Book not available']]: yield what('ewb', f"read back {z['b']}: {z['lines'][:4]}"); break
    if rec['codes']: # a MyBible database: which verses it has
        import glob, re, sqlite3, pathlib
        w = os.path.join(d, 'xmyb')
        try:
            bible.toMyBible(pathlib.Path(w))
            fs = glob.glob(w + '/**/*.SQLite3', recursive=True)
            fs = [x for x in fs if '.commentaries.' not in x]
            con = sqlite3.connect(fs[0]); rows = con.execute('SELECT book_number,chapter,verse,text FROM verses').fetchall(); con.close()
        except Exception as e: yield what('mybible', f'raises {e!r}')
        else:
            low = lambda t: re.sub('[^A-Za-z0-9ö]', '', re.sub('<[^>]*>', '', re.sub('<n>.*?</n>|<t>Heading.*?</t>', '', t)))
            want = []
            for x in rec['backs']['ss']:
                counts = [int(z) for z in BOS.getNumVersesList(x['b'])]; ch = v = 0
                for m, t in x['lines']:
                    if m == 'c': ch = int(t)
                    elif m == 'v': v = int(t)
                    elif m == 'v~' and t and ch <= len(counts) and v <= counts[ch - 1]: want.append([MB[x['b']], ch, v, low(t)])
            rows = [r_ for r_ in rows if low(r_[3])]; got = [[a_, b_, c_, low(t_)] for a_, b_, c_, t_ in rows]
            x = B.first_diff(got, want)
            if x: yield what('mybible', f'row {x[0] + 1}: code {x[1]}, specification {x[2]} RAW {rows[x[0]] if x[0] < len(rows) else None}')
    for f, meth, reader in (('swordsearcher', 'toSwordSearcher', 'ForgeForSwordSearcherBible'), ('drupal', 'toDrupalBible', 'DrupalBible'), ('vpl', 'toVPL', 'ForgeForSwordSearcherBible')):
        w = os.path.join(d, 'x' + f); r = os.path.join(d, 'r' + f); os.makedirs(w); os.makedirs(r)
        try: ok = getattr(bible, meth)(w + '/')
        except Exception as e: yield what(f, f'raises {e!r}'); continue
        if f == 'swordsearcher':
            p = os.path.join(w, 'Bible.txt'); got = lines(p, lambda l: l.startswith('; ')); want = rec['ss']; shutil.copy(p, os.path.join(r, 't.txt')); bk = rec['backs']['ss']
        elif f == 'drupal':
            p = os.path.join(w, 'Bible.txt'); got = lines(p); want = rec['dr']; bk = rec['backs']['dr']; shutil.copy(p, os.path.join(r, 't.bc'))
            if '*Context' in got: got = got[got.index('*Context') + 2:]
        if f != 'vpl':
            x = B.first_diff(got, want) if rec['codes'] else None
            if x: yield what(f, f'line {x[0] + 1} of the export: code {x[1]!r}, specification {x[2]!r}'); continue
            if bk:
                try: x = differ(read(reader, r, 't'), bk)
                except Exception as e: x = f'raises {e!r}'
                if x: yield what(f, 'read back: ' + x)
        else:
            fs = sorted(fn for fn in os.listdir(os.path.join(w, 'Forge')) if fn.endswith('.txt'))
            if len(fs) != len(rec['bible']): yield what(f, f'files {fs}'); continue
            back = []
            for y, x in enumerate(rec['bible']):
                fn = f'BOS-BibleWriter-{BYB[x["b"]]["fb"]}.txt' if rec['codes'] else fs[0]
                p = os.path.join(w, 'Forge', fn)
                if not os.path.exists(p): yield what(f, f'no file {fn} but {fs}'); return
                got = lines(p, lambda l: l.startswith('; '))
                z = B.first_diff(got, rec['vpl'][y]) if rec['codes'] else None
                if z: yield what(f, f'line {z[0] + 1} of {fn}: code {z[1]!r}, specification {z[2]!r}'); return
                shutil.copy(p, os.path.join(r, 't.txt'))
                try: back += read(reader, r, 't')
                except Exception as e: yield what(f, f'{fn} read back raises {e!r}'); return
            x = differ(back, rec['backs']['vpl'])
            if x: yield what(f, 'read back: ' + x)
BOS = None
MB = {'GEN': 10, 'RUT': 80, 'PSA': 230, 'SNG': 260, 'MAT': 470, 'CO1': 530, 'JN1': 690, 'JDE': 720}   # MyBible's book numbers
BYB = {n['b']: n for n in BOOKS}
def setup():
    global G, BOS
    G = B.setup()
    import argparse, importlib
    if not hasattr(G, 'commandLineArguments') or G.commandLineArguments is None: G.commandLineArguments = argparse.Namespace(export=False)
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    BOS = BibleOrganisationalSystem('GENERIC-KJV-80-ENG')
    for cls in {c for c, _ in FMT.values()} | {"EasyWorshipBible"}: MODS[cls] = importlib.import_module('BibleOrgSys.Formats.' + cls)
def tla(n): return '[' + ', '.join(f'{k} |-> ' + (str(v).upper() if isinstance(v, bool) else str(v) if isinstance(v, int) else f'"{v}"') for k, v in n.items()) + ']'
KINDS = 'plain comma refrain tiny hex quote empty add wj two it para mid poetry note xref scr head heads space contin edges title'.split()
def main():
    chk = vt.Check('C29'); setup()
    def run(names, kinds, mv, mc, mn, dups, num=0, codes=True):
        gen = {'MCV.tla': '---- MODULE MCV ----\nEXTENDS VerseFiles\nNm == <<' + ', '.join(map(tla, names)) + '>>\nKd == {' + ', '.join(f'"{k}"' for k in kinds) + '}\n====\n'}
        r = chk.tlc('MCV', f'SPECIFICATION Spec\nCONSTANTS\n Names <- Nm\n Kinds <- Kd\n MaxV = {mv}\n CS = {mc}\n VS = {mn}\n Dups = {str(dups).upper()}\n Sim = {str(bool(num)).upper()}\n Emit = TRUE\nINVARIANTS Reads Whole Same NoLoss Emitting\nCHECK_DEADLOCK FALSE\n',
                    mode='sim' if num else 'bfs', num=num, depth=mv + 2, gen=gen)
        for x in r.records: x['codes'] = codes
        if r.records: chk.sample({'file': r.records[len(r.records) // 2]['files'][0]['lines'][:4]})
        return r.records
    t = chk.thorough
    recs = run(BOOKS[2:3] + BOOKS[5:6], KINDS if t else ['plain', 'empty', 'para', 'mid', 'title'], 2, '{1, 2}', '{1, 2}', True)
    recs += run(BOOKS, KINDS, 14, '{1, 2, 3, 4}', '{1, 2, 3, 4, 5, 6, 9}', True, 900 if t else 60)
    recs += run(BOOKS, ['plain', 'empty', 'mid', 'contin'], 26, '{1, 2, 10, 11, 150}', '{1, 2, 3, 4, 9, 10, 11, 99, 100, 101, 176}', False, 300 if t else 10)
    recs += run(ALL, ['plain'] if not t else ['plain', 'note', 'mid'], 1, '{1, 3}', '{1, 2}' if t else '{2}', False, codes=False)
    recs = list({repr(r): r for r in recs}.values())
    vt.replay_all(chk, [(r, chk.seed + n) for n, r in enumerate(recs)], case, seconds=20, chunk=10)
    chk.extra['Bibles'] = len(recs); chk.extra['files'] = sum(len(r['files']) for r in recs)
    return chk.finish()
vt.main(main)
