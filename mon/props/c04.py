"""C04: FAST input values are interpreted as the file states."""
import numpy as np
from ..core import Workload, Raised, EXAMPLES
from ..compare import arr_close, freeze, same
from ..gen import fastin

TECHNIQUE = 'runtime monitoring: generated input files with known content, every entry, table and data frame reported by the real reader compared by an independent reference monitor'
RULE = ("Files of nine families (generic modules with shuffled keyword tables, tower, blades, polars with 1-3 tables, beam, external platform, substructure, airfoil coordinates) are generated together with "
        "the entries they denote: every number/logical/string/list spelling, spacing, table size including empty, neighbouring lines; distinct by (family, labels, table sizes).")
ASSUME = ['Table rows have as many values as columns; quoted strings have no repeated blanks; less than a third of the lines are comments; first comma of a list within the first 30 characters.']


def norm(d):
    return ' '.join((d or '').split()).strip().strip('-').strip()


def entries(f):
    """entries of a file through its iteration protocol"""
    return [d for d in f]


def same_scalar(a, b):
    if isinstance(b, list):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same_scalar(x, y) for x, y in zip(a, b))
    if isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and bool(a) == b
    if isinstance(b, int):
        return isinstance(a, (int, np.integer)) and not isinstance(a, bool) and int(a) == b
    if isinstance(b, float):
        return isinstance(a, (float, np.floating)) and float(a) == b
    return isinstance(a, str) and a == b


def cmp_table(case, v, it, rtol=0.0):
    v = np.asarray(v)
    if it.kind == 'mix' and it.value.dtype == object:
        m = None
        if v.shape != it.value.shape:
            m = 'shape {} vs {}'.format(v.shape, it.value.shape)
        else:
            for i in range(v.shape[0]):
                for j in range(v.shape[1]):
                    if str(v[i, j]) != str(it.value[i, j]) and not (v.dtype.kind == 'f' and float(it.value[i, j]) == v[i, j]):
                        m = 'row {} column {}: {!r} instead of {!r}'.format(i, j, v[i, j], it.value[i, j])
        return m
    return arr_close(v, it.value, rtol=rtol)


def judge(case, f, doc, rtol=0.0, tag=''):
    """compare a read file with the generated description"""
    D = entries(f)
    exp = doc.items
    if doc.name == 'extptfm':
        t = exp[0].value
        for k in ('nDOF', 'dt', 'T'):
            case.check(f[k] == t[k], tag + 'ext-scalar', '{}: {!r} instead of {!r}'.format(k, f[k], t[k]))
        for k in ('MassMatrix', 'StiffnessMatrix', 'DampingMatrix', 'Loading'):
            m = arr_close(f[k], t[k], rtol=rtol)
            case.check(m is None, tag + 'ext-matrix', '{}: {}'.format(k, m))
        return
    # output lists: the end marker lines that follow them are not judged
    n = len(exp)
    if any(it.kind == 'out' or (it.kind == 'comment' and 'OutList' in it.value) for it in exp) or doc.tail:
        case.check(len(D) >= n, tag + 'entries', '{} entries instead of {}'.format(len(D), n))
        rest = D[n:]
        case.check(all(d['isComment'] for d in rest), tag + 'entries', 'additional entries {}'.format(rest[:3]))
    else:
        if len(D) != n:
            la = [d['label'] if not d['isComment'] else d['value'] for d in D]
            lb = [it.label if it.kind != 'comment' else it.value for it in exp]
            i = next((i for i, (a, b) in enumerate(zip(la, lb)) if a != b), min(len(la), len(lb)))
            case.fail(tag + 'entries', '{} entries instead of {}, first difference at {}: {!r} / {!r}'.format(len(D), n, i, la[i:i + 2], lb[i:i + 2]))
            return
    for d, it in zip(D, exp):
        if it.kind == 'comment':
            case.check(d['isComment'] and d['value'] == it.value, tag + 'comment', '{!r} instead of comment {!r}'.format(d['value'], it.value))
            continue
        if not case.check(not d['isComment'] and d['label'] == it.label, tag + 'label', '{!r} (comment:{}) instead of {!r}'.format(d['label'] or d['value'], d['isComment'], it.label)):
            continue
        if it.kind == 'entry':
            case.check(same_scalar(d['value'], it.value), tag + 'value', '{}: {!r} ({}) instead of {!r}, text {!r}'.format(it.label, d['value'], type(d['value']).__name__, it.value, it.lines[0]))
            case.check(norm(d['descr']) == norm(it.descr), tag + 'description', '{}: {!r} instead of {!r}'.format(it.label, d['descr'], it.descr))
        elif it.kind in ('num', 'mix', 'headercom'):
            m = cmp_table(case, d['value'], it, rtol)
            case.check(m is None, tag + 'table', '{}: {}'.format(it.label, m))
            if it.cols is not None:
                case.check(list(d['tabColumnNames']) == it.cols, tag + 'table-columns', '{}: {} instead of {}'.format(it.label, d['tabColumnNames'], it.cols))
                u = None if it.units is None else ['({})'.format(x) for x in it.units]
                case.check(d.get('tabUnits') == u or (u is None and not d.get('tabUnits')), tag + 'table-units', '{}: {} instead of {}'.format(it.label, d.get('tabUnits'), u))
        elif it.kind in ('fil', 'out'):
            case.check(list(d['value']) == list(it.value), tag + 'names', '{}: {} instead of {}'.format(it.label, d['value'], it.value))
        elif it.kind == 'ref':
            case.check(list(d['value']) == list(it.value), tag + 'value', '{}: {} instead of {}'.format(it.label, d['value'], it.value))
        elif it.kind == 'beam':
            for k in ('span', 'K', 'M'):
                m = arr_close(d['value'][k], it.value[k])
                case.check(m is None, tag + 'beam', '{}: {}'.format(k, m))


def by_label(case, f, doc):
    rnd = case.rnd
    seen = {}
    for it in doc.items:
        if it.kind != 'comment':
            seen.setdefault(it.label.lower(), it)
    its = [it for it in seen.values() if it.kind == 'entry']
    for it in rnd.sample(its, min(12, len(its))):
        for k in (it.label, it.label.upper(), it.label.lower()):
            v = case.call('getitem', f.__getitem__, k)
            case.check(same_scalar(v, it.value), 'by-label', '{}: {!r} instead of {!r}'.format(k, v, it.value))
    ks = list(case.call('keys', f.keys))
    labs = [it.label for it in doc.items if it.kind != 'comment']
    case.check(ks[:len(labs)] == labs, 'keys', '{} instead of {}'.format(ks, labs))


def poly(x, f, s):
    return sum(x ** i * f['{}({})'.format(s, i)] for i in range(2, 7))


def cols_of(it):
    if it.units is None:
        return list(it.cols)
    return ['{}_[{}]'.format(c, u) for c, u in zip(it.cols, it.units)]


def dataframes(case, f, doc):
    tabs = [it for it in doc.items if it.kind in ('num', 'mix', 'headercom', 'beam') and it.label not in ('DampingCoeffs',)]
    if doc.name == 'extptfm':
        df = case.call('toDataFrame', f.toDataFrame)
        t = doc.items[0].value
        m = arr_close(df.values, t['Loading'])
        case.check(m is None, 'df-loading', m)
        exp = (['Time_[s]', 'InpF_Fx_[N]', 'InpF_Fy_[N]', 'InpF_Fz_[N]', 'InpF_Mx_[Nm]', 'InpF_My_[Nm]', 'InpF_Mz_[Nm]'] + ['CBF_{:03d}_[-]'.format(i + 1) for i in range(t['nDOF'])])[:t['nDOF'] + 1]
        case.check(list(df.columns) == exp, 'df-columns', str(list(df.columns)))
        return
    if any(it.label == 'GuyanDampMatrix' for it in tabs) and case.prop == 'C04':
        pass
    dfs = case.call('toDataFrame', f.toDataFrame)
    if not isinstance(dfs, dict):
        case.check(len(tabs) == 1, 'df-count', '{} tables expected'.format([t.label for t in tabs]))
        dfs = {tabs[0].label: dfs}
    case.check(list(dfs.keys()) == [t.label for t in tabs], 'df-count', '{} instead of {}'.format(list(dfs.keys()), [t.label for t in tabs]))
    for it in tabs:
        df = dfs[it.label]
        if it.kind == 'beam':
            n = len(it.value['span'])
            m = arr_close(df['Span'].values, it.value['span'])
            case.check(m is None, 'df-beam', m)
            for i in range(6):
                for j in range(6):
                    for M in 'KM':
                        m = arr_close(df['{}{}{}'.format(M, i + 1, j + 1)].values, it.value[M][:, i, j])
                        case.check(m is None, 'df-beam', '{}{}{} {}'.format(M, i + 1, j + 1, m))
            continue
        nc = it.value.shape[1]
        m = cmp_table(case, df.values[:, :nc], it) if it.kind == 'mix' else arr_close(df.values[:, :nc].astype(float), it.value)
        case.check(m is None, 'df-values', '{}: {}'.format(it.label, m))
        if it.cols is not None:
            case.check(list(df.columns)[:nc] == cols_of(it), 'df-columns', '{} instead of {}'.format(list(df.columns), cols_of(it)))
        g = lambda l: doc.get(l).value
        get = {i2.label: i2.value for i2 in doc.items if i2.kind == 'entry'}
        if doc.name == 'tower':
            for s, c in zip(fastin.SHAPES_TWR, ['ShapeForeAft1_[-]', 'ShapeForeAft2_[-]', 'ShapeSideSide1_[-]', 'ShapeSideSide2_[-]']):
                e = poly(it.value[:, 0], get, s)
                sc = sum(abs(get['{}({})'.format(s, i)]) for i in range(2, 7))
                m = arr_close(df[c].values.astype(float), e, rtol=1e-9, atol=1e-12 * sc)
                case.check(m is None, 'df-shapes', '{}: {}'.format(c, m))
        elif doc.name == 'edblade':
            for s, c in zip(fastin.SHAPES_BLD, ['ShapeFlap1_[-]', 'ShapeFlap2_[-]', 'ShapeEdge1_[-]']):
                e = poly(it.value[:, 0], get, s)
                sc = sum(abs(get['{}({})'.format(s, i)]) for i in range(2, 7))
                m = arr_close(df[c].values.astype(float), e, rtol=1e-9, atol=1e-12 * sc)
                case.check(m is None, 'df-shapes', '{}: {}'.format(c, m))
        elif doc.name == 'polar':
            off = it.label[len('AFCoeff'):]
            a, cl, cd = np.radians(it.value[:, 0]), it.value[:, 1], it.value[:, 2]
            m = arr_close(df['Cn_[-]'].values, cl * np.cos(a) + cd * np.sin(a), atol=1e-9)
            case.check(m is None, 'df-cn', m)
            if 'Cd0' + off in get:
                m = arr_close(df['Cn_Cd0off_[-]'].values, cl * np.cos(a) + (cd - get['Cd0' + off]) * np.sin(a), atol=1e-9)
                case.check(m is None, 'df-cn', 'Cd0 removed: {}'.format(m))
                e = get['C_nalpha' + off] * (a - np.radians(get['alpha0' + off]))
                ok = (it.value[:, 0] >= -20) & (it.value[:, 0] <= 30)
                m = arr_close(df['Cn_pot_[-]'].values[ok], e[ok], atol=1e-9)
                case.check(m is None, 'df-cn', 'potential flow: {}'.format(m))
                # the points around alpha0, alpha1 and alpha2
                B = [np.where(it.value[:, 0] < get[s + off] - 1e-9)[0] for s in ('alpha0', 'alpha1', 'alpha2')]
                if all(len(b) for b in B) and not any(np.any(np.abs(it.value[:, 0] - get[s + off]) < 1e-6) for s in ('alpha0', 'alpha1', 'alpha2')):
                    e = np.full(len(a), np.nan)
                    for b in B:
                        e[b[-1]:b[-1] + 2] = df['Cn_[-]'].values[b[-1]:b[-1] + 2]
                    m = arr_close(df['Cn_012_[-]'].values, e)
                    case.check(m is None, 'df-cn', 'points around alpha0, alpha1, alpha2: {}'.format(m))
        elif doc.name == 'adblade':
            # mid-chord line from the aerodynamic center line
            crv, swp, tw, ch = it.value[:, 1], it.value[:, 2], it.value[:, 4], it.value[:, 5]
            ac = df['AC_Approx_[-]'].values
            case.check(np.all(ac[int(np.ceil(len(ac) * 0.15)):] == 0.25) and np.all((ac >= 0.25) & (ac <= 0.5)), 'df-c2', 'aerodynamic center {}'.format(ac))
            for c, e in (('c2_Crv_Approx_[m]', crv + ch * (0.5 - ac) * np.sin(np.radians(tw))), ('c2_Swp_Approx_[m]', swp + ch * (0.5 - ac) * np.cos(np.radians(tw)))):
                ok = np.abs(tw) < 1e4   # (angles of many turns are not meaningful)
                m = arr_close(df[c].values.astype(float)[ok], e[ok], rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(ch), initial=0)))
                case.check(m is None, 'df-c2', '{}: {}'.format(c, m))


def describe(case, doc):
    sizes = [(it.label, it.value.shape) for it in doc.items if it.kind in ('num', 'mix', 'headercom')]
    case.desc = dict(family=doc.name, entries=len(doc.items), tables=sizes[:6])
    case.sig(doc.name, len(doc.items), tuple(sizes), tuple(it.text for it in doc.items if it.kind == 'entry')[:8])


def w_read(case):
    import weio
    from weio.fast_input_file import FASTInputFile
    doc = fastin.make(case.rnd)
    p = case.write('a.dat', doc.text())
    describe(case, doc)
    f = case.call('read', FASTInputFile, p)
    judge(case, f, doc)
    if doc.name != 'extptfm':
        by_label(case, f, doc)
    dataframes(case, f, doc)


def w_kinds(case):
    """all entry spellings: long lists of entries"""
    from weio.fast_input_file import FASTInputFile
    doc = fastin.generic(case.rnd, nent=60)
    p = case.write('a.fst', doc.text())
    describe(case, doc)
    f = case.call('read', FASTInputFile, p)
    judge(case, f, doc)
    by_label(case, f, doc)


def w_nodal(case):
    """nodal output section after the output channels"""
    from weio.fast_input_file import FASTInputFile
    doc = fastin.nodal(case.rnd)
    p = case.write('a.dat', doc.text())
    describe(case, doc)
    f = case.call('read', FASTInputFile, p)
    judge(case, f, doc)


def w_dedicated(case):
    """the dedicated blade and polar classes report the same as the generic reader"""
    from weio import fast_input_file as M
    rnd = case.rnd
    which, cls = rnd.choice([('edblade', M.EDBladeFile), ('adblade', M.ADBladeFile), ('polar', M.ADPolarFile), ('extptfm', M.ExtPtfmFile)])
    doc = fastin.make(rnd, which)
    p = case.write('a.dat', doc.text())
    describe(case, doc)
    if rnd.random() < 0.5:
        f = case.call('read', cls, p)
    else:
        f = cls()
        case.call('read', f.read, p)
    judge(case, f, doc)
    dataframes(case, f, doc)


AD14 = ['Table ID parameter', 'Stall angle (deg)', 'No longer used, enter zero', 'No longer used, enter zero', 'No longer used, enter zero', 'Zero Cn angle of attack (deg)', 'Cn slope for zero lift (dimensionless)',
        'Cn extrapolated to value at positive stall angle of attack', 'Cn at stall value for negative angle of attack', 'Angle of attack for minimum CD (deg)', 'Minimum CD value']


def w_airfoil14(case):
    """airfoil tables of AeroDyn 14: twelve values, then lines of numbers without any header"""
    import weio
    from weio.fast_input_file import FASTInputFile
    rnd = case.rnd
    nt, per = rnd.choice([1, 1, 2, 3, 5]), rnd.choice([3, 3, 2, 4])
    n = rnd.choice([1, 2, 5, rnd.randint(3, 120)])
    sep = rnd.choice(['\t', '  ', ' \t '])
    num = lambda: rnd.choice(['{:.2f}', '{:.4f}', '{:g}', '{:.5e}', '{:.4E}', '{:+.3f}']).format(rnd.choice([0.0, 1.0, rnd.uniform(-3, 3), rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-6, 6)]))
    L = [rnd.choice(['NACA64 airfoil, data from somewhere', 'x', '! remark', '4.5 percent thick', 'Gr\u00f6\u00dfe']), rnd.choice(['second line of remarks', '', 'Oct. 14, 2003'])]
    ind = rnd.choice(['', '   '])
    L.append('{}{}{}Number of airfoil tables in this file{}'.format(ind, nt, sep, rnd.choice(['', '   '])))
    H = [[num() for _ in range(nt)] for _ in AD14]
    H[0] = ['{:.2f}'.format(0.25 * (i + 1)) for i in range(nt)]
    descr = [d + (rnd.choice(['', ', typically Re in millions']) if i == 0 else '') for i, d in enumerate(AD14)]
    L += [ind + sep.join(r + [d]) for r, d in zip(H, descr)]
    cols = 1 + nt * per
    T = [[num() for _ in range(cols)] for _ in range(n)]
    for i, r in enumerate(T):
        r[0] = '{:.2f}'.format(-180 + 360.0 * i / max(1, n))
        if rnd.random() < 0.2:
            r[1:] = ['0'] * (cols - 1)
    if rnd.random() < 0.2 and nt == 1 and per == 2:
        T[-1] = ['5', '1', '0']  # a short line of data
    L += [ind + sep.join(r) for r in T]
    L += rnd.choice([[], [''], ['', '', 'EOT'], ['   ', ' 1 2 3']])
    ext = rnd.choice(['.dat', '.txt'])
    p = case.write('af' + ext, rnd.choice(['\n', '\n', '\r\n']).join(L) + rnd.choice(['', '\n']))
    V = np.array([[float(x) for x in r] for r in T])
    case.sig('ad14', nt, per, n)
    case.desc = dict(tables=nt, columns=cols, rows=n)
    if len(L) < 15:
        return
    f = case.call('read', FASTInputFile, p)
    E = entries(f)
    if not case.check(len(E) == 15, 'airfoil14-entries', '{} entries'.format([d['label'] for d in E])):
        return
    case.check([d['isComment'] for d in E] == [True] * 2 + [False] * 13 and [d['value'] for d in E[:2]] == L[:2], 'airfoil14-remarks', '{}'.format([d['value'] for d in E[:2]]))
    for d, r, t in zip(E[2:14], [[str(nt)]] + H, ['Number of airfoil tables in this file'] + descr):
        case.check(same_scalar(float(d['value']), float(r[0])) and norm(d['label']).endswith(t), 'airfoil14-value', '{}: {} expected {}'.format(d['label'], d['value'], r))
        if nt == 1 and 'longer' not in t:
            v = case.call('getitem', f.__getitem__, rnd.choice([t, t.lower()]))
            case.check(float(v) == float(r[0]), 'airfoil14-value', '{}: {} expected {}'.format(t, v, r))
    case.check(f.keys() == [d['label'] for d in E[2:]], 'airfoil14-keys', '{}'.format(f.keys()))
    m = arr_close(case.call('getitem', f.__getitem__, 'Polar'), V)
    case.check(m is None, 'airfoil14-table', m)
    df = case.call('toDataFrame', f.toDataFrame)
    names = ['Cl', 'Cd', 'Cm'][:per]
    ids = [''] if nt == 1 else [r for r in H[0]]
    known = ['Alpha_[deg]'] + ['{}{}_[-]'.format(c, i) for i in ids for c in names] if per in (2, 3) else None
    if known is None and (cols - 1) in (3 * nt, 2 * nt):
        known = list(df.columns)
    case.check(list(df.columns) == (known or ['col{}'.format(j) for j in range(cols)]), 'airfoil14-columns', '{}'.format(list(df.columns)))
    m = arr_close(df.values.astype(float), V)
    case.check(m is None, 'airfoil14-frame', m)
    if ext == '.txt':
        return
    g = case.call('weio.read', weio.read, p)
    case.check(type(g).__name__ == 'FASTInputFile' and arr_close(g['Polar'], V) is None, 'airfoil14-auto', type(g).__name__)


WORKLOADS = [
    Workload('airfoil14', w_airfoil14, quick=500, thorough=8000),
    Workload('read', w_read, quick=5000, thorough=50000),
    Workload('kinds', w_kinds, quick=800, thorough=8000),
    Workload('nodal', w_nodal, quick=300, thorough=3000),
    Workload('dedicated', w_dedicated, quick=250, thorough=4000),
]
