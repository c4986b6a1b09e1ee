"""Generator of FAST/OpenFAST input files: text of the file together with the entries it denotes.

A Doc is a list of items; each item knows its lines and the entry a reader is expected to report.
"""
import numpy as np
from . import util

WORDS = ['number', 'of', 'nodes', 'blade', 'used', 'for', 'the', 'analysis', 'switch', 'tower', 'mode', 'damping', 'flag', 'initial', 'value',
         'stiffness', 'in', 'percent', 'critical', '[unused]', '(-)', '(m)', '(quoted string)', '{0: none, 1: all}', 'DEFAULT', 'e.g.', '1', '0.5', 'see', 'manual',
         'x^2', 'a/b', "O'Brien", 'T/F', '50%', '#1', '&', 'rad/s']
UNITS = ['-', 'm', 'kg/m', 'deg', 'Nm^2', 'N', 's', 'N/m2', 'kg*m^2', 'flag', 'switch', 'rad/s', '%']


class Item:
    def __init__(self, kind, lines, label='', value=None, descr='', cols=None, units=None, text=None):
        self.kind, self.lines, self.label, self.value, self.descr, self.cols, self.units = kind, lines, label, value, descr, cols, units
        self.text = text      # spelling of a scalar

    def __repr__(self):
        return 'Item({},{!r},{!r})'.format(self.kind, self.label, self.value)


class Doc:
    def __init__(self, name):
        self.name, self.items, self.tail, self.eol, self.final = name, [], [], '\n', True

    def add(self, it):
        self.items.append(it)
        return it

    def text(self):
        L = []
        for it in self.items:
            L += it.lines
        L += self.tail
        return self.eol.join(L) + (self.eol if self.final else '')

    def labels(self):
        return [it.label for it in self.items if it.kind not in ('comment',)]

    def get(self, label):
        for it in self.items:
            if it.kind != 'comment' and it.label.lower() == label.lower():
                return it


def descr(rnd):
    n = rnd.choice([0, 1, 2, 4, 8, 15])
    return ' '.join(rnd.choice(WORDS) for _ in range(n)).strip('-').strip()


def comment(rnd, kind=None):
    kind = kind or rnd.choice(['dash', 'bang', 'eq', 'hash', 'dash'] * 5 + ['end', 'empty'])
    t = ' '.join(rnd.choice(['SIMULATION', 'CONTROL', 'Section', 'data', 'blade 1', 'a, b, c', '1 2 3', 'v1.00.*', 'Note:', 'x=1']) for _ in range(rnd.randint(0, 4)))
    if kind == 'dash':
        s = '-' * rnd.randint(2, 30) + ' ' + t + ' ' + '-' * rnd.randint(0, 40)
    elif kind == 'eq':
        s = '=' * rnd.randint(2, 10) + ' ' + t + ' ' + '=' * rnd.randint(0, 20)
    elif kind == 'hash':
        s = '# ' + t
    elif kind == 'end':
        s = rnd.choice(['END', 'End', 'end']) + ' of ' + rnd.choice(['the first part', 'section 2', 'input file'])
    elif kind == 'empty':
        return Item('comment', [''], value='')
    else:
        s = '! ' + t
    if rnd.random() < 0.2:
        s = ' ' + s
    return Item('comment', [s], value=s)


def scalar(rnd, kinds=('int', 'float', 'bool', 'quoted', 'word', 'list'), big=True):
    """-> (value, text)"""
    k = rnd.choice(kinds)
    if k == 'int':
        v = rnd.choice([0, 1, 2, 3, 7, -1, -15, 100, 123456789, 1011121314, rnd.randint(-10 ** 6, 10 ** 6)])
        t = str(v)
        if v >= 0 and rnd.random() < 0.1:
            t = '+' + t
        if rnd.random() < 0.1:
            t = ('-' if v < 0 else '') + '0' + str(abs(v))
        return v, t
    if k == 'float':
        x = rnd.choice([rnd.uniform(-10, 10), rnd.gauss(0, 1) * 10.0 ** rnd.randint(-12, 12), float(rnd.randint(-50, 50)), 0.0, 1e-300, 1e20, 0.1, 2.1e11])
        t = rnd.choice([repr, lambda v: '{:.6e}'.format(v), lambda v: '{:.3E}'.format(v), lambda v: '{:.4f}'.format(v), lambda v: '{:.1f}'.format(v)])(x)
        if t.startswith('0.') and rnd.random() < 0.3:
            t = t[1:]
        elif t.endswith('.0') and rnd.random() < 0.5:
            t = t[:-1]
        if rnd.random() < 0.08 and not t.startswith('-'):
            t = '+' + t
        return float(t), t
    if k == 'bool':
        v = rnd.random() < 0.5
        t = rnd.choice(['True', 'true', 'TRUE', 'T', 't'] if v else ['False', 'false', 'FALSE', 'F', 'f'])
        return v, t
    if k == 'quoted':
        s = rnd.choice(['', ' ', ' unused', 'last ', ' a b ', 'unused', 'DEFAULT', 'ES10.3E2', 'A11', 'my file.dat', '../dir/sub dir/f.dat', 'a,b', 'C:\\x\\y.txt', 'none', 'None', '5', 'TRUE', 'x - y', 'Wave 1, Elev', '!x', '1,2 3'])
        if rnd.random() < 0.08:   # long paths and names, with blanks
            s = rnd.choice(['', 'C:/', '../']) + ' '.join('dir{}/sub'.format(rnd.randint(0, 10 ** 6)) for _ in range(rnd.choice([5, 8, 20, 40])))
        return '"' + s + '"', '"' + s + '"'
    if k == 'word':
        s = rnd.choice(['DEFAULT', 'default', 'none', 'unused', 'Polar', 'abc_1', 'RK4', 'STEADY', 'IECKAI', 'file.dat', './a/b.dat', '@coords.txt', '10%', 'NTM', '12:00'])
        return s, s
    n = rnd.randint(2, 9) if rnd.random() < 0.9 else rnd.randint(10, 40)
    vs = []
    for _ in range(n):
        vs.append(scalar(rnd, ('int', 'float') if rnd.random() < 0.9 else ('bool',)))
    if rnd.random() < 0.1:
        vs = [scalar(rnd, ('bool',)) for _ in range(n)]
    sep = rnd.choice([', ', ',', ' , ', ',  '])
    return [v for v, _ in vs], sep.join(t for _, t in vs)


def entry(rnd, label, value=None, text=None, d=None, kinds=None, old=False):
    if text is None:
        if value is None:
            value, text = scalar(rnd, kinds or ('int', 'float', 'bool', 'quoted', 'word', 'list'))
        else:
            text = str(value)
    d = descr(rnd) if d is None else d
    dash = rnd.choice([' - ', ' - ', ' ', '   -  ', ' -- ']) if d else rnd.choice(['', ' -', ' '])
    if dash == ' ' and d and (d[0] in '-'):
        dash = ' - '
    pad = rnd.choice(['', '  ', '       ', '\t'])
    gap = rnd.choice([' ', '   ', '\t', '          '])
    if old and not isinstance(value, list) and rnd.random() < 0.04:
        # previous values of the entry are kept on the line
        g0, gap = gap, gap + rnd.choice(['1.5', '1.5 -2', '3 4 5.0', '!was: 12', '!Old: 3.5', '!was: text']) + gap
        if ',' in ' '.join((pad + text + gap + label + dash + d).split())[:40]:
            gap = g0   # would read as a list
    line = pad + text + gap + label + dash + d
    return Item('entry', [line], label, value, d, text=text)


def number(rnd, integer=False):
    """table number with at most 9 significant digits -> (value, text)"""
    if integer or rnd.random() < 0.25:
        v = rnd.choice([0, 1, 2, 3, 10, -4, 250, rnd.randint(-1000, 1000)])
        return float(v), rnd.choice(['{}', '{}', '{}.', '{}.0', '{}.00'] if not integer else ['{}']).format(v)
    x = rnd.choice([rnd.uniform(0, 1), rnd.gauss(0, 10), rnd.gauss(0, 1) * 10.0 ** rnd.randint(-10, 12)])
    if rnd.random() < 0.06:   # almost an integer
        k = rnd.choice([1, 2, 5, -3, 9, 10, 99, 1234])
        s = '{:.{}f}'.format(k + rnd.choice([1, -1, 2]) * 10.0 ** -(9 - len(str(abs(k)))), 9 - len(str(abs(k))))
        if len(s.strip('-').replace('.', '').lstrip('0')) <= 9:
            return float(s), s
    t = rnd.choice(['{:.8e}', '{:.3e}', '{:.5f}', '{:.2E}', '{:.6g}'])
    s = t.format(x)
    if 'f' in t and abs(x) > 1000:
        s = '{:.4e}'.format(x)
    return float(s), s


def rows_num(rnd, n, m, intfirst=False, bools=False):
    V, L = np.zeros((n, m)), []
    boolcols = set(j for j in range(1, m) if bools and rnd.random() < 0.3)
    for i in range(n):
        ts = []
        for j in range(m):
            if j in boolcols:
                b = rnd.random() < 0.5
                V[i, j] = float(b)
                ts.append(rnd.choice(['True', 'TRUE', 'true', 'PRINT', 'print'] if b else ['False', 'FALSE', 'false', 'NOPRINT', 'NoPrint']))
            else:
                V[i, j], t = number(rnd, integer=(intfirst and j == 0))
                ts.append(t)
        L.append(rowline(rnd, ts))
    return V, L


def rowline(rnd, ts):
    sep = rnd.choice(['  ', '\t', '     ', ' '])
    s = rnd.choice(['', ' ', '   ', '\t']) + sep.join(ts) + rnd.choice(['', ' ', '   '])
    r = rnd.random()
    if r < 0.06:
        s += ' ! remark 1'
    elif r < 0.1:
        s += ' # remark 2'
    return s


def header(rnd, cols, units, com=False):
    pre = '!  ' if com else rnd.choice(['', ' ', '   '])
    sep = rnd.choice(['  ', '\t', '     '])
    h = pre + sep.join(cols)
    if rnd.random() < 0.25 and not com:
        h += rnd.choice(['   [explanation of the columns, 1=yes]', ' [a] [b]', '  (text in parenthesis)', ' ! remark'])
    out = [h]
    if units is not None:
        st = rnd.choice(['paren', 'paren', 'paren', 'paren', 'sqb', 'sqb', 'some', 'bare']) if not com else 'paren'
        k = rnd.randrange(len(units))
        u = ['[{}]'.format(x) if st == 'sqb' else x if st == 'bare' or st == 'some' and (i == k or rnd.random() < 0.3) else '({})'.format(x) for i, x in enumerate(units)]
        out.append(pre + sep.join(u) + rnd.choice(['', '  ']))
        if not com and st in ('paren', 'sqb') and rnd.random() < 0.15:
            out[-1] += rnd.choice(['  ! remark (of units)', '  # remark', ' ! (a) (b)'])
    return out


# keyword tables: (kind, detect, dimvar, label, second-word-detect?, nheader, type)
VAL_TABLES = [('HtFract', 'NTwInpSt', 'TowProp', 2, 'num'), ('TwrElev', 'NumTwrNds', 'TowProp', 2, 'num'),
              ('Genspd_TLU', 'DLL_NumTrq', 'DLLProp', 2, 'num'), ('WndSpeed', 'NumCases', 'Cases', 2, 'num'),
              ('HvCoefID', 'NHvCoef', 'HvCoefs', 2, 'num'), ('AxCoefID', 'NAxCoef', 'AxCoefs', 2, 'num'), ('JointID', 'NJoints', 'Joints', 2, 'num'),
              ('Dpth', 'NCoefDpth', 'DpthProp', 2, 'num'), ('FillNumM', 'NFillGroups', 'FillGroups', 2, 'num'), ('MGDpth', 'NMGDepths', 'MGProp', 2, 'num'),
              ('SimplCd', 1, 'SmplProp', 2, 'num'), ('mu1', 1, 'DampingCoeffs', 2, 'num'), ('TwrHtFr', 'NTwrHt', 'TowerProp', 1, 'num'),
              ('TwrRe', 'NTwrRe', 'TowerRe', 1, 'num'), ('WT_X', 'NumTurbines', 'WindTurbines', 2, 'mix'), ('RJointID', 'NReact', 'BaseJoints', 2, 'mix'),
              ('IJointID', 'NInterf', 'InterfaceJoints', 2, 'num'), ('COSMID', 'NCOSMs', 'MemberCosineMatrix', 2, 'num'), ('CMJointID', 'NCmass', 'ConcentratedMasses', 2, 'num'),
              ('RNodes', 'BldNodes', 'BldAeroNodes', 1, 'mix'), ('kp_xr', 'kp_total', 'MemberGeom', 2, 'num')]
LAB_TABLES = [('F_X', 'NKInpSt', 'TMDspProp', 'num'), ('MemberCd1', 'NCoefMembers', 'MemberProp', 'num'), ('MJointID1', 'NMembers', 'Members', 'mix'),
              ('NOutLoc', 'NMOutputs', 'MemberOuts', 'num'), ('PropD', 'NPropSets', 'SectionProp', 'num'), ('Diam', 'NTypes', 'LineTypes', 'mix'),
              ('Type', 'NConnects', 'ConnectionProp', 'mix'), ('LineType', 'NLines', 'LineProp', 'mix'), ('EA', 'NCablePropSets', 'CableProp', 'num'),
              ('MatDens', 'NRigidPropSets', 'RigidProp', 'num')]
RESERVED = set(x.lower() for t in VAL_TABLES for x in t if isinstance(x, str)) | set(x.lower() for t in LAB_TABLES for x in t if isinstance(x, str)) | \
    {'numalf', 'younge', 'guyandampsize', 'gridname', 'foilnm', 'afnames', 'numcoords', 're', 'kp_total', 'numtabs', 'blfract', 'blspn', 'noutcnt',
     'numfoil', 'numaffiles', 'nxpropsets', 'nblinpst', 'numblnds', 'end', 'interpord', 'tt', 'ff', 't', 'f'}


def nrows(rnd, mx=30):
    return rnd.choice([0, 1, 1, 2, 3, 5, util.logint(rnd, 1, mx)])


def colnames(rnd, n, used=()):
    return util.names(rnd, n, maxlen=rnd.choice([12, 12, 24]), minlen=2, avoid=tuple(RESERVED | set(u.lower() for u in used)))


def val_table(rnd, spec, n=None, m=None):
    """-> [dim entry (or nothing), table]"""
    det, dim, label, nh, typ = spec
    out = []
    m = m or rnd.randint(2, 8)
    if dim == 1:
        n = 1
    else:
        n = nrows(rnd) if n is None else n
        out.append(entry(rnd, dim, n))
    det = rnd.choice([det, det, det.lower(), det.upper()])
    cols = [det] + colnames(rnd, m - 1)
    units = [rnd.choice(UNITS) for _ in cols] if nh == 2 else None
    out.append(table(rnd, label, cols, units, n, m, typ))
    return out


def lab_table(rnd, spec, n=None):
    det, dim, label, typ = spec
    m = rnd.randint(2, 8)
    n = nrows(rnd) if n is None else n
    det = rnd.choice([det, det, det.lower(), det.upper()])
    cols = colnames(rnd, m)
    cols[1] = det
    units = [rnd.choice(UNITS) for _ in cols]
    return [entry(rnd, dim, n), table(rnd, label, cols, units, n, m, typ)]


def table(rnd, label, cols, units, n, m, typ):
    H = header(rnd, cols, units)
    extra = 0
    if (typ == 'mix' or cols[-1].lower() == 'nodecnt') and n and units is not None and rnd.random() < 0.15:
        extra = rnd.randint(1, 4)   # values without column name
        m += extra
        cols, units = cols + ['Col'] * extra, units + ['Col'] * extra
    if typ == 'num':
        V, L = rows_num(rnd, n, m, intfirst=rnd.random() < 0.5, bools=rnd.random() < 0.2)
        return Item('num', H + L, label, V, cols=cols, units=units)
    V = np.zeros((n, m)).astype(object)
    L = []
    textcol = rnd.randrange(m) if rnd.random() < 0.8 else None
    textrow = rnd.randrange(n) if n and rnd.random() < 0.3 else None   # (the others then have numbers there)
    for i in range(n):
        ts = []
        for j in range(m):
            if j == textcol and textrow in (None, i):
                t = rnd.choice(['chain', 'synth', '"soil.txt"', 'TRUE', 'Fixed', 'Vessel', '-', 'p', '"a/b.dat"', 'Connect'])
            else:
                _, t = number(rnd, integer=j == 0)
            V[i, j] = t
            ts.append(t)
        L.append(rowline(rnd, ts))
    if n and textcol is None:
        V = V.astype(float)
    return Item('mix', H + L, label, V, cols=cols, units=units)


def names_table(rnd, which=0, n=None):
    lab, dim = [('AFNames', 'NumAFfiles'), ('FoilNm', 'NumFoil')][which]
    n = n or rnd.randint(1, 6)
    ns = ['"{}"'.format(rnd.choice(['af{}.dat', 'Airfoils/Cyl {}.dat', '../AF/DU40_A17_{}.dat', 'C:\\af\\x{}.txt']).format(i)) for i in range(n)]
    if rnd.random() < 0.2:
        ns = ['AeroData/af{}.dat'.format(i) for i in range(n)]
    d = descr(rnd)
    lines = [rnd.choice(['', '  ']) + ns[0] + '   ' + lab + (' - ' + d if d else '')] + [rnd.choice(['', '   ']) + s + rnd.choice(['', '  ']) for s in ns[1:]]
    return [entry(rnd, dim, n), Item('fil', lines, lab, ns, d)]


CHANNELS = ['"OoPDefl1"', '"RotSpeed"', '"Wind1VelX, Wind1VelY"', '"TwrBsMxt"  - remark about it', 'GenPwr', '"-ReactFXss, -ReactFYss" - Base', '"Wave1Elev"      - (0,  0)', '  "BldPitch1"', '"B1N1Fx"']


def outlist(rnd, n=None):
    n = rnd.choice([0, 1, 2, 5, 40, 200]) if n is None else n
    form = rnd.choice(['fst', 'hd', 'add'])
    if form == 'fst':
        line, label, d = '              OutList        - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)', 'OutList', 'The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)'
    elif form == 'hd':
        line, label, d = '---------------------- OUTPUT CHANNELS -----------------------------------------', '---------------------- OUTPUT', 'CHANNELS -----------------------------------------'
    else:
        line, label, d = '====== Additional Outputs ========', '====== Additional', 'Outputs ========'
    L = [rnd.choice(CHANNELS) for _ in range(n)]
    return Item('out', [line] + L, label, [''] + L, d)


def generic(rnd, nent=None):
    """file of any module: sections, entries of all types, keyword tables, airfoil list, output channels"""
    doc = Doc('generic')
    if rnd.random() < 0.06:
        doc.add(Item('comment', [''], value=''))
    doc.add(comment(rnd, 'dash'))
    nent = nent or rnd.choice([6, 12, 25, 60])
    labels = [l if rnd.random() < 0.8 else l + rnd.choice(['(1)', '(2)', '_x', '-z']) for l in util.names(rnd, nent, maxlen=13, minlen=2, avoid=tuple(RESERVED))]
    ents = [[entry(rnd, l, old=True)] for l in labels]
    if rnd.random() < 0.15:      # labels that look alike
        l = rnd.choice(labels)
        ents += [[entry(rnd, x)] for x in (l + '_', l + '1', l + 'x') if x.lower() not in RESERVED and x not in labels]
    if rnd.random() < 0.1:       # labels that appear twice
        ents += [[entry(rnd, rnd.choice([l, l.upper()]))] for l in rnd.sample(labels, min(2, len(labels)))]
    kdadd = rnd.random() < 0.1
    kdlast = rnd.random() < 0.4
    used = set()
    blocks = []
    for spec in rnd.sample(VAL_TABLES, rnd.randint(0, 5)):
        if spec[2] in used or spec[0] == 'kp_xr':
            continue
        used.add(spec[2])
        blocks.append(val_table(rnd, spec))
    for spec in rnd.sample(LAB_TABLES, rnd.randint(0, 3)):
        if spec[2] in used:
            continue
        used.add(spec[2])
        blocks.append(lab_table(rnd, spec))
    if rnd.random() < 0.4:
        blocks.append(names_table(rnd, rnd.randrange(2)))
    # a table directly followed by another one, by an entry or by a comment
    mid = ents + blocks
    rnd.shuffle(mid)
    ncom = 1
    ncmax = int(0.2 * (len(ents) + 1))
    for b in mid:
        if ncom < ncmax and rnd.random() < 0.25:
            doc.add(comment(rnd))
            ncom += 1
        for it in b:
            doc.add(it)
        if kdadd and nent > 20 and (b is mid[-1] if kdlast else rnd.random() < 0.2):
            kdadd = False
            kd(rnd, doc)
    if rnd.random() < 0.4:
        o = doc.add(outlist(rnd))
        end_of(doc, rnd)
    deco(doc, rnd)
    return doc


def kd(rnd, doc):
    c = rnd.choice(['---------------------- FLOATING PLATFORM FORCES -- Additional Stiffness and Damping  [unused] --', '---------------------- PLATFORM ADDITIONAL STIFFNESS AND DAMPING  [unused with PotMod=0] ----'])
    doc.add(Item('comment', [c], value=c))
    L = []
    for name, n in (('AddF0', 1), ('AddCLin', 6), ('AddBLin', 6), ('AddBQuad', 6)):
        for i in range(n):
            L.append('   ' + '   '.join(number(rnd)[1] for _ in range(6)) + ('  {} - {}'.format(name, descr(rnd)) if i == 0 else ''))
    doc.add(Item('fil', L, 'KDAdd', list(L)))


def nodal(rnd):
    """nodal output section after the output channels"""
    doc = Doc('nodal')
    doc.add(comment(rnd, 'dash'))
    for l in util.names(rnd, 15, avoid=tuple(RESERVED), minlen=3):
        doc.add(entry(rnd, l))
    o = outlist(rnd, n=rnd.choice([1, 3, 20]))
    doc.add(o)
    for s in ('END of input file (the word "END" must appear in the first 3 columns of this last OutList line)', '====== Outputs for all blade stations ============================'):
        doc.add(Item('comment', [s], value=s))
    doc.add(entry(rnd, 'BldNd_BladesOut', rnd.randint(0, 3)))
    doc.add(entry(rnd, 'BldNd_BlOutNd', '"All"', '"All"'))
    n = rnd.choice([0, 1, 4])
    L = [rnd.choice(CHANNELS) for _ in range(n)]
    line = '              OutList        - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)'
    doc.add(Item('out', [line] + L, 'OutList_Nodal', [''] + L, ''))
    doc.tail = ['END', '----']
    return doc


def bdmain(rnd):
    doc = Doc('bdmain')
    doc.add(comment(rnd, 'dash'))
    for l in ('Echo', 'QuasiStaticInit', 'rhoinf', 'quadrature', 'refine', 'n_fact', 'DTBeam', 'load_retries', 'NRMax', 'stop_tol'):
        doc.add(entry(rnd, l))
    doc.add(comment(rnd, 'dash'))
    nm = rnd.choice([1, 1, 2, 3])
    kp = [rnd.choice([3, 4, 12, 49]) for _ in range(nm)]
    doc.add(entry(rnd, 'member_total', nm))
    doc.add(entry(rnd, 'kp_total', sum(kp)))
    for i, k in enumerate(kp):
        doc.add(Item('entry', ['{}{}{}{}'.format(rnd.choice(['', '     ']), i + 1, rnd.choice([' ', '    ', '\t']), k) + '                    - Member number; Number of key points in this member'], '-', '{} {}'.format(i + 1, k),
                     'Member number; Number of key points in this member', text=''))
    for it in val_table(rnd, ('kp_xr', 'kp_total', 'MemberGeom', 2, 'num'), n=sum(kp), m=4)[1:]:
        doc.add(it)
    doc.add(comment(rnd, 'dash'))
    doc.add(entry(rnd, 'order_elem', rnd.randint(3, 9)))
    doc.add(comment(rnd, 'dash'))
    doc.add(entry(rnd, 'BldFile', kinds=('quoted',)))
    doc.add(comment(rnd, 'dash'))
    for l in ('UsePitchAct', 'PitchJ', 'PitchK', 'SumPrint', 'NNodeOuts'):
        doc.add(entry(rnd, l, kinds=('int', 'float', 'bool')))
    doc.add(entry(rnd, 'OutNd', kinds=('list',)))
    if rnd.random() < 0.6:
        doc.add(outlist(rnd))
        end_of(doc, rnd)
    deco(doc, rnd)
    return doc


def end_of(doc, rnd):
    if rnd.random() < 0.8:
        doc.tail = [rnd.choice(['END of input file (the word "END" must appear in the first 3 columns of this last OutList line)', 'END of output channels', 'end'])]
        doc.tail += [rnd.choice(['-' * 40, 'remark', ''])] * rnd.randint(0, 2)


def deco(doc, rnd):
    doc.eol = rnd.choice(['\n', '\n', '\n', '\r\n'])
    doc.final = rnd.random() < 0.85


SHAPES_TWR = ['TwFAM1Sh', 'TwFAM2Sh', 'TwSSM1Sh', 'TwSSM2Sh']
SHAPES_BLD = ['BldFl1Sh', 'BldFl2Sh', 'BldEdgSh']


def shapes(rnd, doc, names):
    for s in names:
        for i in range(2, 7):
            doc.add(entry(rnd, '{}({})'.format(s, i), kinds=('int', 'float') if rnd.random() < 0.2 else ('float',)))


def mono(V, rnd):
    """first column: increasing span in [0,1]"""
    n = V.shape[0]
    x = [0.0, 1.0][:n] if n < 3 else sorted(round(rnd.random(), 6) for _ in range(n))
    return x


def tower(rnd):
    doc = Doc('tower')
    doc.add(comment(rnd, 'dash'))
    for l in ('TwrFADmp(1)', 'TwrFADmp(2)', 'TwrSSDmp(1)', 'FAStTunr(1)', 'AdjTwMa'):
        doc.add(entry(rnd, l, kinds=('float', 'int')))
    n = rnd.choice([1, 2, 5, 11, 40])
    cols = ['HtFract', 'TMassDen', 'TwFAStif', 'TwSSStif'] + (['TwGJStif', 'TwEAStif'] if rnd.random() < 0.3 else [])
    units = ['-', 'kg/m', 'Nm^2', 'Nm^2', 'Nm^2', 'N'][:len(cols)]
    doc.add(entry(rnd, 'NTwInpSt', n))
    V, L = span_rows(rnd, n, len(cols))
    doc.add(Item('num', header(rnd, cols, units) + L, 'TowProp', V, cols=cols, units=units))
    doc.add(comment(rnd, 'dash'))
    shapes(rnd, doc, SHAPES_TWR)
    deco(doc, rnd)
    return doc


def span_rows(rnd, n, m, scale=1.0):
    V, L = np.zeros((n, m)), []
    x = [float(round(i * scale / max(1, n - 1), 6)) for i in range(n)]
    for i in range(n):
        ts = []
        for j in range(m):
            if j == 0:
                V[i, 0], t = float('{:.6f}'.format(x[i])), '{:.6f}'.format(x[i])
            else:
                V[i, j], t = number(rnd)
            ts.append(t)
        L.append(rowline(rnd, ts))
    return V, L


def edblade(rnd):
    doc = Doc('edblade')
    doc.add(comment(rnd, 'dash'))
    doc.add(Item('comment', ['! blade of ' + descr(rnd)]))
    doc.items[-1].value = doc.items[-1].lines[0]
    n = rnd.choice([1, 2, 5, 20, 49])
    doc.add(entry(rnd, 'NBlInpSt', n))
    for l in ('BldFlDmp(1)', 'BldFlDmp(2)', 'BldEdDmp(1)', 'FlStTunr(1)', 'FlStTunr(2)', 'AdjBlMs', 'AdjFlSt', 'AdjEdSt'):
        doc.add(entry(rnd, l, kinds=('float', 'int')))
    cols = ['BlFract', 'PitchAxis', 'StrcTwst', 'BMassDen', 'FlpStff', 'EdgStff']
    units = ['-', '-', 'deg', 'kg/m', 'Nm^2', 'Nm^2']
    V, L = span_rows(rnd, n, len(cols))
    doc.add(Item('num', header(rnd, cols, units) + L, 'BldProp', V, cols=cols, units=units))
    doc.add(comment(rnd, 'dash'))
    shapes(rnd, doc, SHAPES_BLD)
    deco(doc, rnd)
    return doc


def adblade(rnd):
    doc = Doc('adblade')
    doc.add(comment(rnd, 'dash'))
    doc.add(Item('comment', ['! Aerodynamic blade']))
    doc.items[-1].value = doc.items[-1].lines[0]
    n = rnd.choice([2, 3, 7, 20, 60])
    doc.add(entry(rnd, 'NumBlNds', n))
    cols = ['BlSpn', 'BlCrvAC', 'BlSwpAC', 'BlCrvAng', 'BlTwist', 'BlChord', 'BlAFID']
    units = ['m', 'm', 'm', 'deg', 'deg', 'm', '-']
    V, L = span_rows(rnd, n, len(cols), 60.0)
    doc.add(Item('num', header(rnd, cols, units) + L, 'BldAeroNodes', V, cols=cols, units=units))
    if n < 4:
        doc.add(entry(rnd, 'UsrVal1'))
        doc.add(entry(rnd, 'UsrVal2'))
        doc.add(entry(rnd, 'UsrVal3'))
        doc.add(entry(rnd, 'UsrVal4'))
    deco(doc, rnd)
    return doc


UA = ['alpha0', 'alpha1', 'alpha2', 'eta_e', 'C_nalpha', 'T_f0', 'T_V0', 'T_p', 'T_VL', 'b1', 'b2', 'b5', 'A1', 'A2', 'A5', 'S1', 'S2', 'S3', 'S4', 'Cn1', 'Cn2', 'St_sh', 'Cd0', 'Cm0',
      'k0', 'k1', 'k2', 'k3', 'k1_hat', 'x_cp_bar', 'UACutout', 'filtCutOff']
NUMUA = {'alpha0': (-8, 2), 'alpha1': (3, 15), 'alpha2': (-15, -3), 'C_nalpha': (3, 7), 'Cd0': (0, 0.1)}


def polar(rnd, ntab=None, ua=None):
    doc = Doc('polar')
    doc.add(comment(rnd, 'bang'))
    for _ in range(rnd.randint(3, 4)):
        it = comment(rnd, 'bang')
        it.lines = [it.lines[0].strip()]
        it.value = it.lines[0]
        doc.add(it)
    ntab = ntab or (rnd.choice([1, 1, 2, 3]) if rnd.random() < 0.97 else rnd.choice([10, 11, 13]))
    doc.add(entry(rnd, 'InterpOrd', kinds=('word', 'int', 'quoted')))
    if rnd.random() < 0.5:
        doc.add(entry(rnd, 'RelThickness', kinds=('word', 'float')))
    doc.add(entry(rnd, 'NonDimArea', kinds=('int', 'float')))
    doc.add(entry(rnd, 'NumCoords', *rnd.choice([(0, '0'), ('@"coords.txt"', '@"coords.txt"')])))
    if rnd.random() < 0.5:
        doc.add(entry(rnd, 'BL_file', '"unused"'))
    doc.add(entry(rnd, 'NumTabs', ntab))
    for k in range(ntab):
        off = '' if ntab == 1 else '_{}'.format(k + 1)

        def E(label, *a, **kw):
            it = entry(rnd, label, *a, **kw)
            it.label = (label.lower() if label == 'Re' else label) + off
            return doc.add(it)
        doc.add(comment(rnd, 'bang'))
        E('Re', kinds=('float',))
        E(rnd.choice(['Ctrl', 'UserProp']), kinds=('int', 'float'))
        hasua = rnd.random() < 0.7 if ua is None else ua
        E('InclUAdata', hasua, rnd.choice(['True', 'TRUE'] if hasua else ['False', 'FALSE']))
        if hasua:
            for l in UA + (['alphaUpper', 'alphaLower'] if rnd.random() < 0.4 else []):
                if l in NUMUA:
                    v = round(rnd.uniform(*NUMUA[l]), 4)
                    E(l, v, repr(v))
                else:
                    E(l, kinds=('float', 'int', 'word') if l[0] not in 'Tbx' else ('quoted', 'word', 'float'))
        n = rnd.choice([1, 2, 3, 10, 50] if hasua else [20, 50])
        E('NumAlf', n)
        cols, units = ['Alpha', 'Cl', 'Cd', 'Cm'], ['deg', '-', '-', '-']
        if rnd.random() < 0.3:
            cols, units = cols[:3], units[:3]
        V, L = np.zeros((n, len(cols))), []
        al = sorted(round(rnd.uniform(-180, 180), 3) for _ in range(n))
        if rnd.random() < 0.4 and n > 1:
            al = sorted(rnd.sample(range(-180, 181, rnd.choice([1, 2, 5])), n)) if rnd.random() < 0.5 else sorted(al[2:] + [-20, 30])
        for i in range(n):
            ts = ['{:.3f}'.format(al[i])]
            V[i, 0] = float(ts[0])
            for j in range(1, len(cols)):
                ts.append('{:.5f}'.format(rnd.uniform(-2, 2)))
                V[i, j] = float(ts[-1])
            L.append('  ' + '   '.join(ts))
        doc.add(Item('headercom', header(rnd, cols, units, com=True) + L, 'AFCoeff' + off, V, cols=cols, units=units))
    deco(doc, rnd)
    return doc


def beamdyn_blade(rnd):
    doc = Doc('bdblade')
    doc.add(comment(rnd, 'dash'))
    n = rnd.choice([1, 2, 3, 10])
    doc.add(entry(rnd, 'station_total', n))
    doc.add(entry(rnd, 'damp_type', 1))
    for k in range(8):
        doc.add(entry(rnd, 'extra{}'.format(k)))
    for it in val_table(rnd, ('mu1', 1, 'DampingCoeffs', 2, 'num'), m=6):
        doc.add(it)
    c = ' ---------------------- DISTRIBUTED PROPERTIES---------------------------------'
    doc.add(Item('comment', [c], value=c))
    span, K, M, L = np.zeros(n), np.zeros((n, 6, 6)), np.zeros((n, 6, 6)), []
    for i in range(n):
        span[i] = round(i / max(1, n - 1), 6)
        L.append(rnd.choice(['', '   ']) + '{:.6f}'.format(span[i]))
        for A in (K, M):
            for r in range(6):
                row = []
                for q in range(6):
                    x = rnd.choice([0.0, rnd.gauss(0, 1) * 10.0 ** rnd.randint(-8, 12)])
                    t = '{:.16E}'.format(x) if rnd.random() < 0.5 else '{:.6e}'.format(x)
                    A[i, r, q] = float(t)
                    row.append(t)
                L.append('   ' + '  '.join(row))
            L.append('')
    doc.add(Item('beam', L, 'BeamProperties', dict(span=span, K=K, M=M)))
    deco(doc, rnd)
    doc.eol = '\n'
    return doc


def extptfm(rnd):
    doc = Doc('extptfm')
    nd = rnd.choice([1, 2, 3, 6, 8, 12])
    dt = rnd.choice([0.05, 0.1, 0.025, 0.01, 0.3, 1.0, 0.00625, 0.000125, 2.0])
    k = rnd.choice([1, 2, 3, 7, 29, 100])
    T = round(k * dt, 7)
    L = ['!Comment', '!Comment Flex 5 Format', '!Dimension: {}'.format(nd), '!Time increment in simulation: {}'.format(dt), '!Total simulation time in file: {}'.format(T), '']
    mats = {}
    for nm, lab in (('Mass', 'MassMatrix'), ('Stiffness', 'StiffnessMatrix'), ('Damping', 'DampingMatrix')):
        V, R = rows_plain(rnd, nd, nd)
        L += ['!{} Matrix'.format(nm), '!Dimension: {}'.format(nd)] + R + ['']
        mats[lab] = V
    V, R = rows_plain(rnd, k + 1, nd + 1)
    for i in range(k + 1):
        V[i, 0] = float('{:.8e}'.format(i * dt))
        R[i] = '{:16.8e}'.format(i * dt) + ' ' + ' '.join(R[i].split()[1:])
    L += ['!Loading and Wave Elevation', '!Dimension: 1 time column -  {} force columns'.format(nd)] + R
    it = Item('ext', L, 'ext', mats)
    mats.update(nDOF=nd, dt=dt, T=T, Loading=V)
    doc.add(it)
    doc.final = rnd.random() < 0.8
    return doc


def rows_plain(rnd, n, m):
    V, L = np.zeros((n, m)), []
    for i in range(n):
        ts = []
        for j in range(m):
            t = '{:.8e}'.format(rnd.gauss(0, 1) * 10.0 ** (rnd.randint(-10, 10) if rnd.random() < 0.99 else rnd.choice([-120, 101])))
            V[i, j] = float(t)
            ts.append(t)
        L.append('  ' + '  '.join(ts))
    return V, L


def subdyn(rnd):
    doc = Doc('subdyn')
    A = doc.add
    A(comment(rnd, 'dash'))
    for l in ('Echo', 'SDdeltaT', 'IntMethod', 'SttcSolve', 'FEMMod', 'NDiv', 'CBMod', 'Nmodes'):
        A(entry(rnd, l))
    if rnd.random() < 0.5:
        A(entry(rnd, 'GuyanDampMod', 1))
        V, L = rows_num(rnd, 6, 6)
        A(entry(rnd, 'GuyanDampSize', 6))
        A(Item('num', L, 'GuyanDampMatrix', V))
    for spec in (('JointID', 'NJoints', 'Joints', 2, 'num'), ('RJointID', 'NReact', 'BaseJoints', 2, 'mix'), ('IJointID', 'NInterf', 'InterfaceJoints', 2, 'num')):
        A(comment(rnd, 'dash'))
        for it in val_table(rnd, spec):
            A(it)
    for it in lab_table(rnd, ('MJointID1', 'NMembers', 'Members', 'mix')):
        A(it)
    # two tables with the same keyword, in a fixed order
    for dim, lab in (('NPropSets', 'BeamProp'), ('NXPropSets', 'BeamPropX')):
        n, m = nrows(rnd, 10), rnd.randint(3, 8)
        cols = ['PropSetID', 'YoungE'] + colnames(rnd, m - 2)
        units = [rnd.choice(UNITS) for _ in cols]
        A(entry(rnd, dim, n))
        A(table(rnd, lab, cols, units, n, m, 'num'))
    if rnd.random() < 0.6:
        for spec in (('EA', 'NCablePropSets', 'CableProp', 'num'), ('MatDens', 'NRigidPropSets', 'RigidProp', 'num')):
            for it in lab_table(rnd, spec):
                A(it)
    for spec in (('COSMID', 'NCOSMs', 'MemberCosineMatrix', 2, 'num'), ('CMJointID', 'NCmass', 'ConcentratedMasses', 2, 'num')):
        for it in val_table(rnd, spec):
            A(it)
    for l in ('SSSum', 'OutCOSM', 'OutAll', 'OutSwtch', 'TabDelim', 'OutDec', 'OutFmt', 'OutSFmt'):
        A(entry(rnd, l))
    n = nrows(rnd, 9)
    cols, units = ['MemberID', 'NOutCnt', 'NodeCnt'], ['-', '-', '-']
    A(entry(rnd, 'NMOutputs', n))
    A(table(rnd, 'MemberOuts', cols, units, n, 3, 'num'))
    if rnd.random() < 0.7:
        c = '------------------------- SSOutList: The next line(s) contains a list of output parameters that will be output -----'
        A(Item('comment', [c], value=c))
        for _ in range(rnd.choice([0, 1, 3, 20])):
            s = rnd.choice(CHANNELS)
            A(Item('comment', [s], value=s))
        end_of(doc, rnd)
    deco(doc, rnd)
    return doc


def coords(rnd):
    doc = Doc('coords')
    n = rnd.choice([2, 3, 5, 50])
    doc.add(entry(rnd, 'NumCoords', n))
    for s in ('! ......... x-y coordinates are next if NumCoords > 0 .............', '! x-y coordinate of airfoil reference', '!  x/c        y/c'):
        doc.add(Item('comment', [s], value=s))
    p = [rnd.choice([0.25, 0.0, 0.5]), rnd.choice([0.0, 0.125])]
    doc.add(Item('ref', ['{}   {}'.format(*p)], 'AirfoilRefPoint', p))
    for s in ('! coordinates of airfoil shape', '! test airfoil'):
        doc.add(Item('comment', [s], value=s))
    V, L = rows_plain(rnd, n - 1, 2)
    doc.add(Item('headercom', ['!  x/c        y/c'] + L, 'AirfoilCoord', V, cols=['x/c', 'y/c'], units=['-', '-']))
    deco(doc, rnd)
    return doc


MAKERS = dict(generic=generic, tower=tower, edblade=edblade, adblade=adblade, polar=polar, bdblade=beamdyn_blade, extptfm=extptfm, subdyn=subdyn, coords=coords, bdmain=bdmain, nodal=nodal)


def make(rnd, which=None):
    which = which or rnd.choice(['generic'] * 6 + ['tower', 'edblade', 'adblade', 'polar', 'polar', 'bdblade', 'bdmain', 'nodal', 'extptfm', 'subdyn', 'subdyn', 'coords'])
    return MAKERS[which](rnd)
