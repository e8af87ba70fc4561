"""The data tables of the repository, read straight from its XML data files (not through the code under test),
and written down as TLA+ data modules."""
import os, glob, xml.etree.ElementTree as ET
import vt

DATA = os.path.join(vt.REPO, 'BibleOrgSys', 'DataFiles')

def systems(folder, prefix):
    out = {}
    for p in sorted(glob.glob(os.path.join(DATA, folder, prefix + '_*.xml'))):
        out[os.path.basename(p)[len(prefix) + 1:-4]] = ET.parse(p).getroot()
    return out

def versifications():
    "{system: {book: {'n': chapters declared, 'ch': [(chapter, verses)], 'omitted': [(c, v)]}}}"
    out = {}
    for name, root in systems('VersificationSystems', 'BibleVersificationSystem').items():
        t = {}
        for b in root.findall('BibleBookVersification'):
            BBB = b.find('referenceAbbreviation').text
            ch = [(c.get('chapter'), int(c.text)) for c in b.findall('numVerses')]
            om = [(c.get('chapter'), v) for c in b.findall('numVerses') for v in (c.get('omittedVerses') or '').split(',') if v]
            t[BBB] = {'n': int(b.find('numChapters').text), 'ch': ch, 'omitted': om}
        out[name] = t
    return out

def orders():
    return {name: [b.text for b in sorted(root.findall('book'), key=lambda b: int(b.get('id')))] for name, root in systems('BookOrders', 'BibleBookOrder').items()}

# ------------------------------------------------------------------ as TLA+
def s(x): return '"' + str(x).replace('\\', '\\\\').replace('"', '\\"') + '"'
def seq(xs): return '<<' + ', '.join(xs) + '>>'
def rec(d): return '[' + ', '.join(f'{k} |-> {v}' for k, v in d.items()) + ']'
def fun(d): return ' @@ '.join(f'({k} :> {v})' for k, v in d.items()) if d else '<<>>'

def organisations():
    "{'org': {combined name: {'type', 'v': {value name: value}}}, 'index': {short name: [combined names]}}"
    org, index = {}, {}
    one = ('publicationDate', 'versificationSystem', 'punctuationSystem', 'bookOrderSystem', 'booksNamesSystem')
    many = ('name', 'derivedFrom', 'usesText')
    for e in ET.parse(os.path.join(DATA, 'BibleOrganisationalSystems.xml')).getroot().findall('BibleOrganisationalSystem'):
        ref, typ = e.find('referenceAbbreviation').text, e.get('type')
        v = {'referenceAbbreviation': ref, 'languageCode': e.find('languageCode').text, 'type': typ}
        for n in one:
            if e.find(n) is not None: v[n] = e.find(n).text
        for n in many:
            if e.findall(n): v[n] = [x.text for x in e.findall(n)]
        if e.find('includesBooks') is not None: v['includesBooks'] = e.find('includesBooks').text.split()
        full = ref if ref.endswith('_' + typ) else ref + '_' + typ
        org[full] = {'type': typ, 'v': v}
        index.setdefault(ref, []).append(full)
    return {'org': org, 'index': index}

def books():
    "[{field: text}] of BibleBooksCodes.xml, in the order of the file"
    return [{x.tag: x.text for x in e} for e in ET.parse(os.path.join(DATA, 'BibleBooksCodes.xml')).getroot().findall('BibleBookCodes')]

def data(*parts):
    "the JSON that spec/Tables.tla reads"
    d = {'vers': {n: {'books': list(t), 'tab': {b: {'n': x['n'], 'ch': [[int(c), k] for c, k in x['ch']], 'om': [[int(c), int(k)] for c, k in x['omitted']]} for b, x in t.items()}} for n, t in versifications().items()},
         'order': orders()}
    if 'org' in parts:
        o = organisations(); d['org'] = o['org']; d['index'] = o['index']
        bs = books()
        d['codes'] = [b['referenceAbbreviation'] for b in bs]
        d['alt'] = {b['referenceAbbreviation']: b['possibleAlternativeBooks'].split(',') for b in bs if b.get('possibleAlternativeBooks')}
    return d

CODES = {'short': 'shortAbbreviation', 'SBL': 'SBLAbbreviation', 'OSIS': 'OSISAbbreviation', 'Sword': 'SwordAbbreviation', 'USFM': 'USFMAbbreviation', 'Unbound': 'UnboundCode',
         'Logos': 'LogosAbbreviation', 'NET': 'NETBibleAbbreviation', 'Drupal': 'DrupalBibleAbbreviation', 'BibleWorks': 'BibleWorksAbbreviation', 'Byzantine': 'ByzantineAbbreviation'}
NUMBERS = ('CCELNumber', 'USFMNumber', 'USXNumber', 'BibleditNumber', 'LogosNumber')
def codes():
    "the JSON that spec/Codes.tla reads"
    def num(x): return int(x) if x.isdigit() else -1
    out = []
    for b in books():
        ch = b['expectedChapters'].split(',') if b.get('expectedChapters') else []
        names = [x.strip() for x in b['bookNameEnglishGuide'].split('/')]
        out.append({'bbb': b['referenceAbbreviation'], 'num': int(b['referenceNumber']), 'seq': int(b['sequenceNumber']), 'ch': ch, 'chn': [num(x) for x in ch],
                    'own': {**{f: b.get(t) or '' for f, t in CODES.items()}, **{n: b.get(n) or '' for n in NUMBERS}}, 'up': {f: (b.get(t) or '').upper() for f, t in CODES.items()},
                    'names': [x.upper() for x in names if x], 'realnames': names, 'more': (b.get('possibleAlternativeAbbreviations') or '').split(',') if b.get('possibleAlternativeAbbreviations') else [],
                    'alt': b['possibleAlternativeBooks'].split(',') if b.get('possibleAlternativeBooks') else [], 'section': b.get('typicalSection') or '', 'title': b['bookName']})
    return {'b': out}

def names():
    "book names systems: {system: {div, lead, book}} with all texts in upper case"
    out = {}
    for n, root in systems('BookNames', 'BibleBooksNames').items():
        def text(e, f): return e.find(f).text
        div, lead, book = [], [], []
        for e in root:
            more = [x.text for x in e.findall('inputAbbreviation')]
            if e.tag == 'BibleDivisionNames':
                ins = [text(e, 'defaultName')] + ([] if text(e, 'defaultName').startswith(text(e, 'defaultAbbreviation')) else [text(e, 'defaultAbbreviation')]) + more
                div.append({'id': e.get('standardAbbreviation'), 'name': text(e, 'defaultName'), 'books': list(dict.fromkeys(x.text for x in e.findall('includesBook'))), 'in': list(dict.fromkeys(x.upper() for x in ins))})
            elif e.tag == 'BibleBooknameLeaders': lead.append([e.get('standardLeader').upper() + ' ', [x.upper() + ' ' for x in more]])
            elif e.tag == 'BibleBookNames':
                book.append({'id': e.get('referenceAbbreviation'), 'name': text(e, 'defaultName'), 'abbr': text(e, 'defaultAbbreviation'), 'in': list(dict.fromkeys(x.upper() for x in [text(e, 'defaultName'), text(e, 'defaultAbbreviation')] + more))})
        book = list({b['id']: b for b in book}.values())   # (a book that is listed twice is what its last entry says)
        book[0]['all'] = [b['id'] for b in book]
        out[n] = {'div': div, 'lead': lead, 'book': book}
    return out
