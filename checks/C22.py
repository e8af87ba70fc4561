"C22: the documents MLWriter.tla says a history of calls writes, against the files the real writer writes"
import vt, os, re, sys, json, subprocess, xml.parsers.expat
TOK = {'@e': 'é😀', '@L': 'long ' * 50}
def tok(s):
    for k, v in TOK.items(): s = s.replace(k, v)
    return s

def parse(data):
    "the events of an XML document, adjacent texts joined, white space at the ends of texts taken off"
    ev = []
    p = xml.parsers.expat.ParserCreate('utf-8'); p.ordered_attributes = True; p.buffer_text = True
    p.StartElementHandler = lambda t, a: ev.append(['open', t, [[a[i], a[i + 1]] for i in range(0, len(a), 2)]])
    p.EndElementHandler = lambda t: ev.append(['close', t, []])
    p.CharacterDataHandler = lambda d: ev.append(['text', d, []])
    p.CommentHandler = lambda d: ev.append(['comment', d, []])
    p.Parse(data, True)
    return squash(ev)

def squash(ev, pieces=False):
    "adjacent texts become one (with pieces: a pattern that allows layout between them)"
    out = []
    for e, t, a in ev:
        if e == 'text':
            if pieces: t = r'\s*' + re.escape(t) + r'\s*'
            if not pieces and not t.strip() and not (out and out[-1][0] == 'text'): t = ''
            if out and out[-1][0] == 'text': out[-1][1] += t; continue
        if e == 'comment': t = t.strip()
        out.append([e, t, a])
    return [x for x in out if x[0] != 'text' or x[1].strip()]

def same(got, want):
    return len(got) == len(want) and all(g == w if w[0] != 'text' else (g[0] == 'text' and re.fullmatch(w[1], g[1])) for g, w in zip(got, want))

def wanted(doc):
    return squash([[d['e'], (esc_spec(tok(d['t'])) if d['e'] == 'comment' else tok(d['t'])), [[k, tok(v)] for k, v in d['a']]] for d in doc], True)

def case(rec):
    from BibleOrgSys.InputOutput.MLWriter import MLWriter
    opt = rec['opt']
    path = os.path.join(os.environ['VERIF_SCRATCH'], f'ml{os.getpid()}.xml')
    w = MLWriter(os.path.basename(path), os.path.dirname(path), opt['type']) if opt['folder'] else MLWriter(path, outputType=opt['type'])
    w.setHumanReadable(opt['human'], opt['indent'])
    if not opt['limit']: w._limitColumns = False
    if opt['buf']: w._bufferFlushSize, w._bufferSaveSize = opt['buf'], max(0, opt['buf'] // 3)
    w.spaceBeforeSelfcloseTag = opt['space']
    w.start(lineEndings=opt['nl'], noAutoXML=opt['noauto'], writeBOM=opt['bom'])
    esc = MLWriter.escape_characters
    ctx = {'opt': opt, 'calls': rec['calls']}
    positions = []; stack = []
    try:
        for n, c in enumerate(rec['calls']):
            o, t, x = c['o'], c['t'], tok(c['x'])
            a = [(k, tok(v)) for k, v in c['a']]
            ea = [(k, esc(v)) for k, v in a]
            attr = None if not ea else ea[0] if len(ea) == 1 and n % 2 else dict(ea) if n % 3 == 0 else ea
            if o == 'open': w.writeLineOpen(t, attr); stack.append(t)
            elif o == 'opentext': w.writeLineOpenText(t, esc(x), attr); stack.append(t)
            elif o == 'openclose': w.writeLineOpenClose(t, esc(x), attr)
            elif o == 'markup': w.writeLineOpenClose(t, esc(x) + '<i>in</i>', attr, noTextCheck=True)
            elif o == 'selfclose': w.writeLineOpenSelfclose(t, attr)
            elif o == 'text': w.writeLineText(esc(x))
            elif o == 'comment': w.writeLineComment(esc(x))
            elif o == 'close': w.writeLineClose(stack.pop())
            elif o == 'newline': w.writeNewLine(1 + n % 2)
            elif o == 'removenl': w.removeFinalNewline(n % 2 == 0)
            elif o == 'section': w.setSectionName(['Header', 'Main', 'None'][n % 3])
            elif o == 'human': w.setHumanReadable(['All', 'Header', 'None', 'NLSpace'][n % 4], n % 3)
            elif o == 'position': positions.append((n, w.getFilePosition()))
            elif o == 'auto': w.autoClose()
            elif o in ('badclose', 'badfinish'):
                w.haltOnErrors = True
                try: w.writeLineClose(t) if o == 'badclose' else w.close()
                except Exception: return None
                return [('refuses', f'{o} {t if o == "badclose" else ""} is taken while {stack} are open', ctx)]
            elif o == 'finish': w.close()
            elif o == 'finishnl': w.close(writeFinalNL=True)
            else: raise vt.MachineryError('call ' + o)
    except vt.MachineryError: raise
    except Exception as e:
        return [('raises', f'{c}: {e!r}', ctx)]
    if 'Closed' not in str(w): return [('closed', f'after {rec["calls"][-1]["o"]} the writer says {str(w)!r}', ctx)]
    data = open(path, 'rb').read()
    if data.startswith(b'\xef\xbb\xbf') != opt['bom']: return [('bom', f'byte-order mark asked for: {opt["bom"]}', ctx)]
    try: text = data.decode('utf-8')
    except UnicodeDecodeError as e: return [('encoding', f'the file is not UTF-8: {e}', ctx)]
    if (opt['nl'] == 'w') != ('\r' in text) and '\n' in text: return [('lineend', 'line ends are not the chosen ones', ctx)]
    if opt['nl'] == 'w' and text.count('\n') != text.count('\r\n'): return [('lineend', 'line ends are not the chosen ones', ctx)]
    if (text.lstrip('\ufeff')[:5] == '<?xml') != (opt['type'] == 'XML' and not opt['noauto']): return [('declaration', text[:60], ctx)]
    try: got = parse(data)
    except xml.parsers.expat.ExpatError as e: return [('wellformed', f'{e}: {text[:600]!r}', ctx)]
    want = wanted(rec['doc'])
    if not same(got, want): return [('document', f'the file holds {str(got)[:700]}, the calls stand for {str(want)[:700]}', ctx)]
    # what was on disk at each position asked for is the document up to there
    for n, pos in positions:
        if not (0 <= pos <= len(data)): return [('position', f'position {pos} in a file of {len(data)} bytes', ctx)]
        try: piece = events_of_prefix(data[:pos])
        except Exception as e: return [('position', f'the file up to the position after call {n} ends inside something: {data[max(0,pos-80):pos]!r}', ctx)]
        k = sum(len(adds(c)) for c in rec['calls'][:n])
        pre = wanted(rec['doc'][:k])
        if not same(piece, pre): return [('position', f'up to position {pos} the file holds {str(piece)[-300:]}, the calls so far {str(pre)[-300:]}', ctx)]

def adds(c): return {'open': [1], 'opentext': [1] * 2, 'openclose': [1] * 3, 'markup': [1] * 6, 'selfclose': [1] * 2, 'text': [1], 'comment': [1], 'close': [1]}.get(c['o'], [])
def esc_spec(s): return s.replace('&', '&amp;').replace('"', '&quot;').replace('<', '&lt;').replace('>', '&gt;') # a comment holds its text as it was written
def events_of_prefix(data):
    ev = []
    p = xml.parsers.expat.ParserCreate('utf-8'); p.ordered_attributes = True
    p.StartElementHandler = lambda t, a: ev.append(['open', t, [[a[i], a[i + 1]] for i in range(0, len(a), 2)]])
    p.EndElementHandler = lambda t: ev.append(['close', t, []])
    p.CharacterDataHandler = lambda d: ev.append(['text', d, []])
    p.CommentHandler = lambda d: ev.append(['comment', d, []])
    p.Parse(data, False)
    if data.decode('utf-8').rfind('<') > data.decode('utf-8').rfind('>'): raise ValueError
    return squash(ev)

def escapes(raw):
    "the characters of a text come out as Escape says"
    from BibleOrgSys.InputOutput.MLWriter import MLWriter
    got = MLWriter.escape_characters(tok(raw['t'])); want = tok(raw['e'])
    if got != want: return [('escape', f'{tok(raw["t"])!r}: code {got!r}, specification {want!r}', raw)]

def fit(raw):
    "a text is taken as it is just where Fit says that it is fit to be"
    from BibleOrgSys.InputOutput.MLWriter import MLWriter
    t = raw['t']; out = []
    for kind in ('XML', 'HTML'):
        w = MLWriter(os.path.join(os.environ['VERIF_SCRATCH'], f'fit{os.getpid()}.xml'), outputType=kind); w.haltOnErrors = True
        try: got = w.checkText(t) == t
        except Exception: got = False
        if got != raw['ok']: out.append(('fit', f'{t!r} in {kind}: taken {got}, specification {raw["ok"]}', raw))
    return out

def setof(xs): return '{' + ', '.join(xs) + '}'
def s(x): return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
def opts(types, humans, limits, bufs, nls, others):
    return setof(f'[type |-> {s(t)}, human |-> {s(h)}, indent |-> {i}, limit |-> {str(l).upper()}, buf |-> {b}, nl |-> {s(n)}, noauto |-> {str(na).upper()}, bom |-> {str(bom).upper()}, space |-> {str(sp).upper()}, folder |-> {str(f).upper()}]'
                 for t in types for h in humans for l in limits for b in bufs for n in nls for (i, na, bom, sp, f) in others)
ALLOPS = ['open', 'opentext', 'openclose', 'markup', 'selfclose', 'text', 'comment', 'close', 'newline', 'removenl', 'position', 'section', 'human']
ALLOPT = opts(['XML', 'HTML'], ['All', 'Header', 'None', 'NLSpace'], [True, False], [0, 1, 30, 7], ['l', 'w'], [(2, False, False, False, True), (0, True, False, True, False), (3, False, True, False, False)])
ATTRS = ['<<>>', '<<<<"id", "1">>>>', '<<<<"z", "a&b<c>\\"d\\""  >>, <<"b", "@e">>>>', '<<<<"n", "4">>, <<"a", "x y">>, <<"c", "&amp;">>>>']

def run(chk, ops, tags, texts, attrs, options, mx, mn, mode='bfs', num=1000, seed=None):
    gen = '---- MODULE MCML ----\nEXTENDS MLWriter\n' + f'O_ == {setof(map(s, ops))}\nT_ == {setof(map(s, tags))}\nX_ == {setof(map(s, texts))}\nA_ == {setof(attrs)}\nP_ == {options}\n' + '====\n'
    return chk.tlc('MCML', f'SPECIFICATION Spec\nCONSTANTS\n Ops <- O_\n Tags <- T_\n Texts <- X_\n Attrs <- A_\n Options <- P_\n MaxCalls = {mx}\n MinCalls = {mn}\n Sim = {str(mode == "sim").upper()}\n Emit = TRUE\nINVARIANTS WellFormed\nCHECK_DEADLOCK FALSE\n',
                   mode=mode, num=num, depth=4 * mx + 20, seed=seed, gen={'MCML.tla': gen})

def main():
    chk = vt.Check('C22'); vt.quiet_import()
    if os.environ.get('C22_CHILD'): # the same files written where the locale is not UTF-8
        recs = json.load(open(os.environ['C22_CHILD']))
        bad = [v for r in recs for v in (vt.run_case(case, r, 20) or [])]
        print('@@CHILD' + json.dumps(bad[:3], default=repr)); return 0
    small = opts(['XML', 'HTML'], ['All', 'None'], [True], [0, 1], ['l'], [(2, False, False, False, True)])
    r = run(chk, ALLOPS, ['p'], ['x'], ATTRS[:2], small, 4 if chk.thorough else 3, 1)
    vt.replay_all(chk, r.records, case); chk.extra['short_histories'] = len(r.records)
    one = opts(['XML'], ['None'], [False], [0], ['l'], [(2, True, False, False, False)])
    r = run(chk, ['open', 'openclose', 'text', 'close', 'newline', 'removenl', 'position'], ['div'], ['x'], ATTRS[:1], one, 7 if chk.thorough else 5, 1)
    vt.replay_all(chk, r.records, case); chk.extra['short_histories_one_option'] = len(r.records)
    texts = ['x', 'a&b', '<', '"q"', '>&lt;', '&amp;', '@e', 'two words', '@L', "it's", '&&;']
    for mx, mn in ((12, 5), (60, 30), (150, 80)):
        r = run(chk, ALLOPS, ['p', 'b', 'div', 'span', 'x:y-z', 'li'], texts, ATTRS, ALLOPT, mx, mn, 'sim', (1500 if chk.thorough else 100), chk.seed + mx)
        vt.replay_all(chk, r.records, case); chk.extra[f'random_histories_{mx}'] = len(r.records)
        for x in r.records[:1]: chk.sample({'options': x['opt'], 'calls': x['calls'][:6], 'document': x['doc'][:6]})
        some = r.records[:60]
    p = os.path.join(chk.scratch, 'some.json'); json.dump(some, open(p, 'wt'))
    env = dict(os.environ, LC_ALL='POSIX', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', C22_CHILD=p); env.pop('PYTHONIOENCODING', None)
    q = subprocess.run([sys.executable, __file__], env=env, capture_output=True, text=True)
    out = [l for l in q.stdout.splitlines() if l.startswith('@@CHILD')]
    if not out: raise vt.MachineryError('no answer in the other locale: ' + q.stderr[-1500:])
    for clause, what, data in json.loads(out[0][7:]): chk.violation(clause, 'where the locale is not UTF-8: ' + what, data)
    chk.validated += len(some); chk.extra['other_locale'] = len(some)
    # escaping: every text of up to 4 characters over the special ones
    gen = '---- MODULE MCEsc ----\nEXTENDS MLWriter\nO_ == {"open"}\nT_ == {"p"}\nX_ == {"x"}\nA_ == {<<>>}\nP_ == {[type |-> "XML"]}\nCH == {"&", "<", ">", "\\"", "a", ";", "@e"}\nRECURSIVE All(_)\nAll(n) == IF n = 0 THEN {""} ELSE LET S == All(n - 1) IN S \\cup {x \\o c : x \\in S, c \\in CH}\nOK == \\A x \\in All(%d) : Unescape(Escape(x)) = x /\\ PrintT("@@" \\o ToJson([t |-> x, e |-> Escape(x)]))\nASSUME OK\n====\n' % (5 if chk.thorough else 4)
    r = chk.tlc('MCEsc', 'SPECIFICATION Spec\nCONSTANTS\n Ops <- O_\n Tags <- T_\n Texts <- X_\n Attrs <- A_\n Options <- P_\n MaxCalls = 0\n MinCalls = 1\n Sim = FALSE\n Emit = FALSE\nCHECK_DEADLOCK FALSE\n', gen={'MCEsc.tla': gen})
    recs = {x['t']: x for x in r.records}
    vt.replay_all(chk, list(recs.values()), escapes, chunk=500); chk.extra['texts_escaped'] = len(recs)
    # which texts are fit to be written as they are
    gen = '---- MODULE MCFit ----\nEXTENDS MLWriter\nO_ == {"open"}\nT_ == {"p"}\nX_ == {"x"}\nA_ == {<<>>}\nP_ == {[type |-> "XML"]}\nCH == {"&", "<", ">", "\\"", "a", ";", "&lt;", "&amp;", "&quot;", "&zz;", "gt;"}\nRECURSIVE All(_)\nAll(n) == IF n = 0 THEN {""} ELSE LET S == All(n - 1) IN S \\cup {x \\o c : x \\in S, c \\in CH}\nOK == \\A x \\in All(%d) \\ {""} : PrintT("@@" \\o ToJson([t |-> x, ok |-> Fit(x)]))\nASSUME OK\n====\n' % (5 if chk.thorough else 4)
    r = chk.tlc('MCFit', 'SPECIFICATION Spec\nCONSTANTS\n Ops <- O_\n Tags <- T_\n Texts <- X_\n Attrs <- A_\n Options <- P_\n MaxCalls = 0\n MinCalls = 1\n Sim = FALSE\n Emit = FALSE\nCHECK_DEADLOCK FALSE\n', gen={'MCFit.tla': gen})
    recs = {x['t']: x for x in r.records}
    vt.replay_all(chk, list(recs.values()), fit, chunk=500); chk.extra['texts_fit_or_not'] = len(recs)
    chk.assumptions = ['callers escape their text first (as the class says), close tags in reverse order, and give non-empty text',
                       'white space between pieces is layout and not compared', 'escape_characters_with_extras is unwritten in the code and not covered']
    return chk.finish()
vt.main(main)
