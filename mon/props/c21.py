"""C21: FAST model decks are read and written as a consistent set of files."""
import hashlib
import os
import shutil
import sys
from ..core import Workload, Raised, EXAMPLES
from ..gen import fastin
from . import c20
from .c02 import cmp_entries
from .c04 import entries

TECHNIQUE = 'runtime monitoring: generated decks in random directory layouts with decoy files are read, edited, written and read again; opened files are recorded by an interpreter audit hook, slots, paths and references are compared with the known layout'
RULE = 'A case is one generated deck: distinct by (kind, enabled modules, read list, unused and missing files, layout, writing options).'
ASSUME = ['Modules covered: ElastoDyn, BeamDyn, InflowWind, AeroDyn 14 and 15, ServoDyn, HydroDyn, SubDyn, MoorDyn (MAP, FEAM, ExtPtfm, ice modules are not).',
          'AeroDyn blade, airfoil and coordinate files, and files outside the deck (controllers, wind), are not rewritten: references to them are left as they are.',
          'Directories written to exist; decks that are written had all their enabled files.']

ALL = ['ED', 'AD', 'BD', 'BDbld', 'EDtwr', 'EDbld', 'ADbld', 'AF', 'AC', 'IW', 'HD', 'SrvD', 'SD', 'MD']
SLOT = dict(ED='ElastoDyn', EDtwr='ElastoDynTower', EDbld='ElastoDynBlade', BD='BeamDyn', BDbld='BeamDynBlade', IW='InflowWind', SrvD='ServoDyn', HD='HydroDyn', SD='SubDyn', MD='MoorDyn', ADbld='AeroDynBlade')
UNUSED = ['unused', 'none', 'NA', 'NaN', 'Unused', 'NONE', 'na']
OUT = dict(ED='ED', EDbld='ED_bld', EDtwr='ED_twr', BD='BD', BDbld='BD_bld', IW='IW', AD='AD', SrvD='SvD', HD='HD', SD='SD', MD='MD')


def with_entries(rnd, E, extra=()):
    """a module file with given entries among random ones"""
    keys = [k.lower() for k, _ in E]
    while True:
        doc = fastin.generic(rnd, rnd.choice([6, 12, 25]))
        L = [l.lower() for l in doc.labels()]
        if not any(k in L for k in keys + ['afnames', 'foilnm', 'numaffiles', 'numfoil', 'interporder', 'numturbines', 'compelast']):
            break
    n = 1
    for k, v in E:
        t = v if isinstance(v, str) else str(v)
        doc.items.insert(n, fastin.entry(rnd, k, v, t, d='about ' + k))
        n += 1
    for it in extra:
        doc.items.insert(n, it)
        n += 1
    return doc.text()


def names_table(rnd, lab, dim, ns):
    lines = [ns[0] + '   ' + lab + ' - names of the files'] + ['  ' + s for s in ns[1:]]
    return [fastin.entry(rnd, dim, len(ns), str(len(ns)), d='number of files'), fastin.Item('fil', lines, lab, ns, 'names of the files')]


class Deck:
    """files of the deck on disk, and what reading it has to give"""


class Layout:
    def __init__(self, case):
        self.case, self.rnd, self.n = case, case.rnd, 0
        self.dirs = ['', '', 'sub', 'my dir', 'a/b', '../common', '../' + 'main2']
        self.files = {}      # path -> text

    def place(self, base, stem, ext='.dat'):
        """(reference relative to base, path) of a new file"""
        while True:
            r = self._place(base, stem, ext)
            if stem != 'coords' or ' ' not in r[0]:      # the reader of airfoils takes no blanks there
                return r
            del self.files[r[1]]

    def _place(self, base, stem, ext):
        rnd = self.rnd
        self.n += 1
        rel = os.path.join(rnd.choice(self.dirs), rnd.choice([stem, stem + '_{}'.format(self.n), 'file {}'.format(self.n), 'x']) + rnd.choice([ext, ext, '.inp', '']))
        path = os.path.normpath(os.path.join(base, rel))
        if path in self.files:
            return self._place(base, stem, ext)
        self.files[path] = None
        # a decoy of the same name elsewhere: relative to other directories than the one of the referring file
        self.decoy = getattr(self, 'decoys', None)
        if rnd.random() < 0.1:
            rel = path     # absolute
        return rel, path


def quoted(rnd, s):
    return '"{}"'.format(s)


def build(case, top='deck'):
    """random deck. Returns object with: fst (path), kind, slots {key: path or None}, AF [paths], AC, comp, files"""
    rnd = case.rnd
    root = case.path(top)
    main = os.path.join(root, rnd.choice(['main', 'models/m 1']))
    lay = Layout(case)
    d = Deck()
    d.lay, d.root, d.main = lay, root, main
    d.kind = rnd.choice(['OF2'] * 10 + ['AD_driver', 'AD_driver', 'F7'])
    comp = dict(CompElast=rnd.choice([1, 1, 2]), CompInflow=rnd.randint(0, 1), CompAero=rnd.choice([0, 1, 2, 2, 2]), CompServo=rnd.randint(0, 1), CompHydro=rnd.randint(0, 1),
                CompSub=rnd.choice([0, 0, 1, 1, 1, 2]), CompMooring=rnd.choice([0, 0, 2, 2, 2, 3, 4]), CompIce=0)
    d.comp = comp
    d.ref, d.path = {}, {}          # of every file that the deck names
    d.AF, d.AC = [], []
    spec = {}
    for k in ('ED', 'BD', 'IW', 'AD', 'SrvD', 'HD', 'SD', 'MD'):
        d.ref[k], d.path[k] = lay.place(main, k)
    dirof = lambda k: os.path.dirname(d.path[k])
    for k, p in (('EDtwr', 'ED'), ('EDbld', 'ED'), ('BDbld', 'BD'), ('ADbld', 'AD')):
        d.ref[k], d.path[k] = lay.place(dirof(p), k)
    # --- files that are marked as unused, and files that are missing
    d.unused = set(k for k in d.ref if rnd.random() < 0.06)
    d.missing = set(k for k in d.ref if rnd.random() < 0.04)
    if rnd.random() < 0.5:
        d.unused, d.missing = set(), set()
    if d.kind == 'AD_driver' or rnd.random() < 0.5:
        d.unused.discard('ADbld')
    d.marks = []
    PAR = dict(EDtwr='ED', EDbld='ED', BDbld='BD', ADbld='AD')

    def name(k):
        if k not in d.unused:
            return quoted(rnd, d.ref[k])
        d.marks.append((k, os.path.join(dirof(PAR[k]) if k in PAR else main, rnd.choice(UNUSED))))
        return quoted(rnd, os.path.basename(d.marks[-1][1]))
    txt = {}
    old = rnd.random() < 0.2
    bl = ['BldFile1', 'BldFile2', 'BldFile3'] if old else ['BldFile(1)', 'BldFile(2)', 'BldFile(3)']
    d.bl = bl
    txt['ED'] = with_entries(rnd, [('NumBl', 3)] + [(b, name('EDbld') if i == 0 else quoted(rnd, d.ref['EDbld'])) for i, b in enumerate(bl)] + [('TwrFile', name('EDtwr'))])
    txt['EDtwr'], txt['EDbld'] = fastin.tower(rnd).text(), fastin.edblade(rnd).text()
    txt['BD'] = with_entries(rnd, [('BldFile', name('BDbld'))])
    txt['BDbld'] = fastin.beamdyn_blade(rnd).text()
    for k in ('IW', 'SrvD', 'HD'):
        txt[k] = with_entries(rnd, [('Module' + k, rnd.randint(0, 99))])
    txt['SD'] = fastin.subdyn(rnd).text()
    txt['MD'] = open(os.path.join(EXAMPLES, 'FASTIn_MD.dat')).read().replace('1500.0', '{}.0'.format(rnd.randint(100, 9999))) if rnd.random() < 0.3 else with_entries(rnd, [('ModuleMD', rnd.randint(0, 99))])
    # --- AeroDyn
    ad14 = d.kind == 'OF2' and comp['CompAero'] == 1
    naf = rnd.choice([1, 2, 2, 5, 5, 14])
    refs = []
    for i in range(naf):
        if i and rnd.random() < 0.15:
            refs.append(refs[-1])     # the same airfoil twice
            d.AF.append(d.AF[-1])
            d.AC += [a for a in d.AC if a[0] == d.AF[-1]][:1]
            continue
        r, p = lay.place(dirof('AD'), 'af')
        refs.append(r)
        d.AF.append(p)
        if ad14:
            lay.files[p] = open(os.path.join(EXAMPLES, 'FASTIn_AD14_arf.dat'), errors='replace').read()
            continue
        t = fastin.polar(rnd)
        it = t.get('NumCoords')
        if rnd.random() < 0.4:
            rr, cp = lay.place(os.path.dirname(p), 'coords', '.txt')
            it.lines = ['@"{}"   NumCoords   ! coordinates'.format(rr)]
            if rnd.random() < 0.85:
                lay.files[cp] = fastin.coords(rnd).text()
            d.AC.append((p, cp))
        else:
            it.lines = ['0   NumCoords   ! no coordinates']
        lay.files[p] = t.text()
    d.missAF = set(p for p in d.AF if d.missing and rnd.random() < 0.2)
    for p in d.missAF:
        lay.files[p] = None
    ns = [quoted(rnd, r) for r in refs]
    if ad14:
        txt['AD'] = with_entries(rnd, [], names_table(rnd, 'FoilNm', 'NumFoil', ns))
    else:
        txt['AD'] = with_entries(rnd, [('ADBlFile(1)', name('ADbld')), ('ADBlFile(2)', quoted(rnd, d.ref['ADbld'])), ('ADBlFile(3)', quoted(rnd, d.ref['ADbld']))], names_table(rnd, 'AFNames', 'NumAFfiles', ns))
    txt['ADbld'] = fastin.adblade(rnd).text()
    # --- main file
    if d.kind == 'OF2':
        E = [('InterpOrder', rnd.choice([1, 2]))] + list(comp.items()) + [('EDFile', name('ED'))] + [('BDBldFile({})'.format(i), name('BD') if i == 1 else quoted(rnd, d.ref['BD'])) for i in (1, 2, 3)]
        E += [('InflowFile', name('IW')), ('AeroFile', name('AD')), ('ServoFile', name('SrvD')), ('HydroFile', name('HD')), ('SubFile', name('SD')), ('MooringFile', name('MD')), ('IceFile', '"unused"')]
    elif d.kind == 'AD_driver':
        E = [('NumTurbines', 1), ('CompInflow', comp['CompInflow']), ('InflowFile', name('IW')), ('AeroFile', name('AD'))]
    else:
        E = [('TMax', 10.0), ('ADFile', quoted(rnd, 'AD.ipt')), ('TwrFile', quoted(rnd, 'twr.dat'))]
    d.fst = os.path.join(main, rnd.choice(['Main', 'Test 01', 'x']) + ('.dvr' if d.kind == 'AD_driver' else '.fst'))
    lay.files[d.fst] = with_entries(rnd, E)
    for k in txt:
        lay.files[d.path[k]] = None if k in d.missing else txt[k]
    # --- on disk, with decoys of the same names (other content) at the main directory, and at the working directory
    for p, t in list(lay.files.items()):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if t is not None:
            with open(p, 'w', newline='') as f:
                f.write(t)
    for k, q in d.marks:
        if q not in lay.files and not os.path.exists(q) and rnd.random() < 0.5:
            with open(q, 'w', newline='') as f:      # a file which has the name of the mark
                f.write(txt[k])
    D = [t for t in lay.files.values() if t is not None and t is not lay.files[d.fst]]
    for k in list(d.ref):
        if rnd.random() < 0.3 and not os.path.isabs(d.ref[k]):
            for b in (main, root, dirof('AD'), dirof('ED')):
                for q in (os.path.normpath(os.path.join(b, d.ref[k])), os.path.join(b, os.path.basename(d.ref[k]))):
                    if q not in lay.files and not os.path.isdir(q) and q.startswith(case.dir):
                        os.makedirs(os.path.dirname(q), exist_ok=True)
                        with open(q, 'w', newline='') as f:
                            f.write(txt[k] if rnd.random() < 0.3 else rnd.choice(D))
    return d


def expected(d, want):
    """slots that are read: key -> path; AF: list of paths or None; AC; opened paths"""
    S, opened = {}, [d.fst]

    def rd(k):
        if k not in want or k in d.unused or k in d.missing:
            return False
        S[k] = d.path[k]
        opened.append(d.path[k])
        return True
    c = d.comp
    AF, AC = [], []

    def aero():
        if rd('AD'):
            if not (d.kind == 'OF2' and c['CompAero'] == 1):
                rd('ADbld')
            for p in d.AF:
                ok = 'AF' in want and p not in d.missAF
                AF.append(p if ok else None)
                if ok:
                    opened.append(p)
                    for a, cp in d.AC:
                        if a == p:
                            okc = 'AC' in want and d.lay.files.get(cp) is not None
                            AC.append(cp if okc else None)
                            if okc:
                                opened.append(cp)
                            break
    if d.kind == 'OF2':
        if rd('ED'):
            rd('EDtwr'), rd('EDbld')
        if c['CompInflow']:
            rd('IW')
        if c['CompAero']:
            aero()
        for k, q in (('SrvD', 'CompServo'), ('HD', 'CompHydro'), ('SD', 'CompSub'), ('MD', 'CompMooring')):
            if c[q] == (2 if k == 'MD' else 1):
                rd(k)
        if c['CompElast'] == 2 and rd('BD'):
            rd('BDbld')
    elif d.kind == 'AD_driver':
        if c['CompInflow']:
            rd('IW')
        aero()
    return S, AF, AC, opened


def slots(deck, ad14=False):
    v = deck.fst_vt
    G = {k: v[s] for k, s in SLOT.items()}
    G['AD'] = v['AeroDyn14'] if ad14 else v['AeroDyn15']
    return G


def check_deck(case, d, deck, want, what):
    from weio.fast_input_file import FASTInputFile
    S, AF, AC, opened = expected(d, want)
    ad14 = d.kind == 'OF2' and d.comp['CompAero'] == 1
    G = slots(deck, ad14)
    case.check(deck.version == d.kind, what + 'version', 'version {} instead of {}'.format(deck.version, d.kind))
    got = sorted(k for k in G if G[k] is not None)
    case.check(got == sorted(S), what + 'modules', 'files read: {} instead of {}'.format(got, sorted(S)))
    other = [k for k, v in deck.fst_vt.items() if v is not None and k not in ('description', 'Fst', 'af_data', 'ac_data', 'AeroDyn14' if ad14 else 'AeroDyn15') and k not in SLOT.values()]
    case.check(not other, what + 'modules', 'unexpected entries {}'.format(other))

    def one(k, f, p):
        if f is None or p is None:
            return case.check((f is None) == (p is None), what + 'sub-files', '{}: {} instead of {}'.format(k, f is not None, p))
        case.check(os.path.realpath(f.filename) == os.path.realpath(p), what + 'path', '{}: {} was read instead of {}'.format(k, f.filename, p))
        ref = case.call('direct read', FASTInputFile, p)
        cmp_entries(case, entries(ref), entries(f), what + 'content-')
    one('Fst', deck.fst_vt['Fst'], d.fst)
    for k in S:
        if G[k] is not None:
            one(k, G[k], S[k])
    n0 = len(deck.fst_vt['af_data'])
    if case.check(n0 == len(AF), what + 'airfoils', '{} airfoils instead of {}'.format(n0, len(AF))):
        for i, (f, p) in enumerate(zip(deck.fst_vt['af_data'], AF)):
            one('AF{}'.format(i), f, p)
    n0 = len(deck.fst_vt['ac_data'])
    if case.check(n0 == len(AC), what + 'coordinates', '{} sets of coordinates instead of {}'.format(n0, len(AC))):
        for i, (f, p) in enumerate(zip(deck.fst_vt['ac_data'], AC)):
            one('AC{}'.format(i), f, p)
    # names of the files that were read
    I = deck.inputfiles
    E = dict(S, Fst=d.fst)
    A = [p for p in AF if p], [p for p in AC if p]
    if A[0]:
        E['AF'] = A[0][-1]
    if A[1]:
        E['AC'] = A[1][-1]
    ok = sorted(I) == sorted(E) and all(os.path.realpath(I[k]) == os.path.realpath(E[k]) for k in E)
    case.check(ok, what + 'inputfiles', 'inputfiles {} instead of {}'.format(sorted(I.items()), sorted(E.items())))
    # paths of structural files, and shortcuts
    if d.kind == 'OF2':
        for k, p in (('ED', deck.ED_path), ('EDtwr', deck.ED_twr_path), ('EDbld', deck.ED_bld_path), ('BD', deck.BD_path), ('BDbld', deck.BD_bld_path)):
            par = {'EDtwr': 'ED', 'EDbld': 'ED', 'BDbld': 'BD'}.get(k)
            if k in d.unused or (par and par not in S):
                e = 'none'
            else:
                e = os.path.realpath(d.path[k])
            case.check((p if p == 'none' else os.path.realpath(p)) == e, what + 'paths', '{}: {} instead of {}'.format(k, p, e))
        P = [deck.ED_path, deck.ED_twr_path, deck.ED_bld_path, deck.BD_path, deck.BD_bld_path]
        case.check(deck.inputFiles == [p for p in P if p != 'none'], what + 'input-files', 'inputFiles {}'.format(deck.inputFiles))
        case.check(deck.AD is None or (deck.AD.Bld1 is G['ADbld'] and deck.AD.AF is deck.fst_vt['af_data']), what + 'shortcuts', 'blade and airfoils of AeroDyn')
        case.check(deck.ED is G['ED'] and deck.IW is G['IW'] and deck.BD is G['BD'] and deck.AD is G['AD'], what + 'shortcuts', 'ED, IW, BD, AD are not the files read')
        case.check(deck.ADversion == ('' if d.comp['CompAero'] == 0 else 'AD14' if ad14 else 'AD15'), what + 'version', 'ADversion {}'.format(deck.ADversion))
    r = case.attempt('print', lambda: repr(deck))
    case.check(not isinstance(r, Raised) and d.fst.split(os.sep)[-1] in r, what + 'print', 'printing: {!r}'.format(r))
    return opened


def monitored(case, fn):
    if not c20.INSTALLED:
        c20.warm()
        sys.addaudithook(c20.hook)
        c20.INSTALLED.append(1)
    del c20.EVENTS[:]
    c20.ON[0] = True
    try:
        r = fn()
    finally:
        c20.ON[0] = False
    E = [(a, os.path.realpath(p)) for a, p in c20.EVENTS if a != 'open' or os.path.isfile(p)]
    E = [(a, p) for a, p in E if p.startswith(os.path.realpath(case.dir))]
    return r, E


def snap(d):
    S = {}
    for r, _, fs in os.walk(d):
        for n in fs:
            with open(os.path.join(r, n), 'rb') as f:
                S[os.path.join(r, n)] = hashlib.md5(f.read()).hexdigest()
    return S


def wl_deck(case):
    from weio.fast_input_deck import FASTInputDeck
    rnd = case.rnd
    d = build(case)
    want = list(ALL)
    arg = rnd.choice([None, None, ['all'], 'all', 'sub', 'sub', 'one'])
    kw = {}
    if arg == 'sub':
        want = rnd.sample(ALL, rnd.randint(0, len(ALL)))
        kw = dict(readlist=list(want))
    elif arg == 'one':
        want = [rnd.choice(ALL)]
        kw = dict(readlist=want[0])
    elif arg is not None:
        kw = dict(readlist=arg)
    here = os.getcwd()
    cwd = rnd.choice([None, None, d.main, d.root])
    fn = d.fst
    s0 = snap(case.dir)
    try:
        if cwd is not None:
            os.chdir(cwd)
            fn = os.path.relpath(d.fst, cwd)
            if rnd.random() < 0.3:
                fn = './' + fn
        kw0 = dict(kw, readlist=list(kw['readlist'])) if isinstance(kw.get('readlist'), list) else dict(kw)
        deck, E = monitored(case, lambda: case.call('read deck', FASTInputDeck, fn, **kw))
        opened = check_deck(case, d, deck, want, '')
        O = set(p for a, p in E if a == 'open')
        X = set(os.path.realpath(p) for p in opened)
        case.check(O == X, 'opened', 'opened {} instead of {}'.format(sorted(os.path.relpath(p, case.dir) for p in O), sorted(os.path.relpath(p, case.dir) for p in X)))
        case.check(not [a for a, p in E if a != 'open'], 'touched', 'reading touched files')
        case.event('files opened', str(len(O)))
        case.check(kw == kw0, 'arguments', 'the list given by the caller was changed: {}'.format(kw))
        if rnd.random() < 0.25:
            # another deck is read by the same object
            d2 = build(case, 'other')
            s0 = snap(case.dir)
            name = deck.filename
            case.call('read another deck', deck.read, d2.fst)
            check_deck(case, d2, deck, want, 'other-')
            deck.filename = name
            case.call('read deck again', deck.read)
            check_deck(case, d, deck, want, 'after-')
        if rnd.random() < 0.25 and d.kind == 'OF2' and deck.AD is not None and os.path.dirname(fn):
            # the aerodynamic files again
            rl = list(deck.readlist)
            ad14 = d.comp['CompAero'] == 1
            case.call('readAD', deck.readAD, key='AeroDyn14' if ad14 else 'AeroDyn15', readlist=rnd.choice([['AD'], ['AD', 'AF'], 'AD', 'all']))
            case.check(deck.readlist == rl, 'arguments', 'reading list {} instead of {}'.format(deck.readlist, rl))
            case.call('read deck again', deck.read)
            check_deck(case, d, deck, want, 'again-')
        if rnd.random() < 0.25:
            # the same object reads the deck again (maybe after another one)
            case.call('read deck again', deck.read)
            check_deck(case, d, deck, want, 'again-')
        case.check(snap(case.dir) == s0, 'touched', 'reading changed files')
        S = expected(d, want)[0]
        need = ['ED'] + [k for k, q in (('IW', 'CompInflow'), ('AD', 'CompAero'), ('SrvD', 'CompServo'), ('HD', 'CompHydro'), ('SD', 'CompSub'), ('MD', 'CompMooring')) if d.comp[q]]
        need += ['EDtwr'] + (['EDbld'] if d.comp['CompElast'] == 1 else ['BD', 'BDbld'])
        opt = None
        if d.kind == 'OF2' and d.comp['CompMooring'] in (0, 2) and d.comp['CompSub'] < 2 and all(k in S for k in need):
            for rep in range(rnd.choice([1, 1, 2])):
                opt = write_deck(case, d, deck, need, rep)
    finally:
        os.chdir(here)
    case.sig(d.kind, tuple(sorted(d.comp.items())), tuple(sorted(want)), tuple(sorted(d.unused)), tuple(sorted(d.missing)), opt)
    case.desc = dict(kind=d.kind, modules=d.comp, readlist=kw.get('readlist'), unused=sorted(d.unused), missing=sorted(d.missing))


REFS = {'Fst': ['EDFile', 'BDBldFile(1)', 'BDBldFile(2)', 'BDBldFile(3)', 'InflowFile', 'AeroFile', 'ServoFile', 'HydroFile', 'SubFile', 'MooringFile', 'IceFile'],
        'ED': ['BldFile(1)', 'BldFile(2)', 'BldFile(3)', 'BldFile1', 'BldFile2', 'BldFile3', 'TwrFile'], 'BD': ['BldFile']}


def content(f, k, skip=True):
    L = []
    for e in entries(f):
        if skip and e['label'] in REFS.get(k, []):
            e = dict(e, value='reference')
        L.append(dict(e))
    return L


def write_deck(case, d, deck, need, rep):
    from weio.fast_input_deck import FASTInputDeck
    rnd = case.rnd
    ad14 = d.comp['CompAero'] == 1
    c = d.comp
    G = slots(deck, ad14)
    # edit one number of one file
    k = rnd.choice([q for q in need if q in ('ED', 'IW', 'SrvD', 'HD')] + ['Fst'])
    f = deck.fst_vt['Fst'] if k == 'Fst' else G[k]
    L = [e['label'] for e in entries(f) if not e['isComment'] and isinstance(e['value'], float)]
    L = [q for q in L if L.count(q) == 1]
    if L:
        f[rnd.choice(L)] = rnd.choice([7, 0.125, -3.5e-8, 123456.75])
    # --- options
    prefix, suffix = rnd.choice(['', '', 'pre_', 'A.']), rnd.choice(['', '', '_s1', '.v2'])
    mode = rnd.choice(['same', 'name', 'newdir', 'newdir', 'split', 'cwd'])
    main = os.path.dirname(deck.filename)
    new = case.path('new{}'.format(rep))
    os.makedirs(os.path.join(new, 'files'), exist_ok=True)
    kw = dict(prefix=prefix, suffix=suffix)
    if mode == 'same':
        out = deck.filename
        if rnd.random() < 0.5:
            kw['filename'] = out
    else:
        base = 'Other' + rnd.choice(['.fst', '.fst', '.x.fst'])
        out = {'name': os.path.join(main, base), 'newdir': os.path.join(new, base), 'split': os.path.join(new, base), 'cwd': base}[mode]
        kw['filename'] = out
    outdir = os.path.dirname(out)
    wdir = outdir
    if mode == 'split':
        wdir = rnd.choice([os.path.join(new, 'files'), os.path.join(new, 'files') + '/', d.root, new])
        kw['directory'] = wdir
    adold = os.path.realpath(os.path.dirname(G['AD'].filename)) if c['CompAero'] else ''
    if mode == 'cwd':
        os.chdir(os.path.join(new, 'files'))
        kw.pop('directory', None)
    want = {q: content(G[q], q) for q in need}
    want['Fst'] = content(deck.fst_vt['Fst'], 'Fst')
    X = {q: os.path.realpath(os.path.join(wdir, prefix + OUT[q] + suffix + '.dat')) for q in need}
    X['Fst'] = os.path.realpath(out)
    if len(set(X.values())) != len(X):
        return
    s0 = snap(case.dir)
    _, E = monitored(case, lambda: case.call('write deck', deck.write, **kw))
    s1 = snap(case.dir)
    T = set(X.values())
    ch = sorted(p for p in set(s0) | set(s1) if s0.get(p) != s1.get(p) and os.path.realpath(p) not in T)
    case.check(not ch, 'write-others', 'writing changed {}'.format([os.path.relpath(p, case.dir) for p in ch][:4]))
    W = set(p for a, p in E if a == 'write')
    case.check(W == T, 'write-files', 'wrote {} instead of {}'.format(sorted(os.path.relpath(p, case.dir) for p in W), sorted(os.path.relpath(p, case.dir) for p in T)))
    case.event('deck written', str(len(W)))
    # --- the files refer to each other
    g = case.call('read written deck', FASTInputDeck, out)
    H = slots(g, ad14)
    for q in sorted(X):
        h = g.fst_vt['Fst'] if q == 'Fst' else H[q]
        if not case.check(h is not None, 'written-modules', '{} is missing in the deck read back'.format(q)):
            continue
        case.check(os.path.realpath(h.filename) == X[q], 'written-path', '{}: {} read back instead of {}'.format(q, h.filename, X[q]))
        cmp_entries(case, want[q], content(h, q), 'written-')
    off = [q for q, comp in (('IW', 'CompInflow'), ('AD', 'CompAero'), ('SrvD', 'CompServo'), ('HD', 'CompHydro'), ('SD', 'CompSub'), ('MD', 'CompMooring')) if not c[comp]] + ([] if c['CompElast'] == 2 else ['BD'])
    case.check(not [q for q in off if H[q] is not None], 'written-modules', 'modules that are not enabled were read back')

    def refs(h, labels, target, base):
        for l in labels:
            v = h[l].replace('"', '')
            e = X.get(target)
            ok = (v.lower() == 'none') if e is None else os.path.realpath(os.path.join(base, v)) == e
            case.check(ok, 'written-references', '{} refers to {!r} instead of {}'.format(l, v, e))
    b = os.path.dirname(X['Fst'])
    if g.fst_vt['Fst'] is not None:
        for l, t in (('EDFile', 'ED'), ('InflowFile', 'IW'), ('AeroFile', 'AD'), ('ServoFile', 'SrvD'), ('HydroFile', 'HD'), ('SubFile', 'SD'), ('MooringFile', 'MD'), ('IceFile', '-'), ('BDBldFile(1)', 'BD'), ('BDBldFile(2)', 'BD'), ('BDBldFile(3)', 'BD')):
            refs(g.fst_vt['Fst'], [l], t, b)
    if H['ED'] is not None:
        refs(H['ED'], ['TwrFile'], 'EDtwr', os.path.dirname(X['ED']))
        if c['CompElast'] == 1:
            refs(H['ED'], d.bl, 'EDbld', os.path.dirname(X['ED']))
    if H['BD'] is not None:
        refs(H['BD'], ['BldFile'], 'BDbld', os.path.dirname(X['BD']))
    # files that are not rewritten are found from the same directory
    if rep == 0 and c['CompAero'] and H['AD'] is not None and adold == os.path.dirname(X['AD']):
        a, b = deck.fst_vt['af_data'], g.fst_vt['af_data']
        case.check(len(a) == len(b) and all((p is None or q is not None) for p, q in zip(a, b)), 'written-airfoils', 'airfoils are lost in the deck read back')
    case.check(os.path.realpath(deck.filename) == X['Fst'], 'written-name', 'file name after writing')
    return (mode, prefix, suffix)


WORKLOADS = [Workload('deck', wl_deck, 1200, 12000)]
