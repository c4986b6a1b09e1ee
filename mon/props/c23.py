"""C23: the other tabular formats give the names and numbers of the file, and keep them when they can be written."""
import os
import numpy as np
import pandas as pd
from ..core import Workload, Raised, EXAMPLES
from ..gen import anyfile

TECHNIQUE = 'runtime monitoring: generated files of twelve tabular formats are read (and written and read back where the format has a writer); names and numbers observed are compared with those put in the file'
RULE = 'A case is one generated file of one format; distinct by (format, size, options).'
ASSUME = ['Text formats hold numbers with two-digit exponents; Tecplot files hold one block of values.', 'Excel tables have a full first row of distinct names and no empty row or column.',]


def num(rnd, big=8):
    return rnd.choice([0.0, 1.0, -1.0, round(rnd.uniform(-100, 100), 3), rnd.uniform(-1, 1), rnd.gauss(0, 1) * 10.0 ** rnd.randint(-big, big), float(rnd.randint(-999, 999))])


def table(rnd, n, m):
    return np.array([[num(rnd) for _ in range(m)] for _ in range(n)]).reshape(n, m)


def fmt(rnd):
    """a number format: text, and the value it stands for is float(text)"""
    return rnd.choice(['{:.10E}', '{:16.6e}', '{:.4f}', '{!r}', '{:+.8e}', '{:g}'])


def texts(rnd, M, f=None):
    f = f or fmt(rnd)
    T = [[f.format(float(v)) for v in r] for r in M]
    V = np.array([[float(t) for t in r] for r in T]).reshape(np.shape(M))
    return T, V


def eq(a, b, rtol=0, atol=0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b))))


def check_df(case, what, df, cols, V, rtol=0, atol=0):
    if not case.check(isinstance(df, pd.DataFrame), what + '-frame', '{}: {} instead of a frame'.format(what, type(df).__name__)):
        return
    case.check([str(c) for c in df.columns] == list(cols), what + '-names', '{}: names {} instead of {}'.format(what, [str(c) for c in df.columns][:12], list(cols)[:12]))
    case.check(list(df.index) == list(range(len(df))), what + '-index', '{}: rows are labelled {}'.format(what, list(df.index)[:5]))
    ok = df.shape == np.shape(V) and eq(df.values, V, rtol, atol)
    case.check(ok, what + '-values', lambda: '{}: {} {} instead of {} {}'.format(what, df.shape, df.values[:2].tolist(), np.shape(V), np.asarray(V)[:2].tolist()))


PRIOR = {}


def prior(c):
    if not PRIOR:
        for f, k in anyfile.examples(300000):
            PRIOR.setdefault(k, []).append(f)
    return PRIOR.get(c, [])


def read(case, c, fn):
    """a file is read by a new object, or by one that was used for another file before"""
    if hasattr(case, 'captured'):
        case.captured(c, fn)
    L = prior(c)
    if not L or case.rnd.random() < 0.7:
        return case.call('read', lambda: anyfile.cls(c)(fn))
    f = anyfile.cls(c)()
    other = os.path.join(EXAMPLES, case.rnd.choice(L))
    if isinstance(case.attempt('other file', lambda: f.read(other)), Raised):
        f = anyfile.cls(c)()
    case.call('read', lambda: f.read(fn))
    return f


LATIN = 'site \udcb0 \udce9 z'     # bytes that are not utf-8


def rewrite(case, c, f, name):
    out = case.path(name)
    case.call('write', lambda: f.write(out))
    return case.call('read back', lambda: anyfile.cls(c)(out))


def words(rnd, n, ok='abcXYZ_-.'):
    L = []
    while len(L) < n:
        w = rnd.choice('abcdefgABCDEFG') + ''.join(rnd.choice(ok + '0123456789') for _ in range(rnd.randint(0, 8)))
        if w.lower() not in [x.lower() for x in L]:
            L.append(w)
    return L


# ------------------------------------------------------------------------------------------------ text formats
def wl_turbsimts(case):
    rnd = case.rnd
    nc, npt, n = rnd.randint(1, 3), rnd.choice([1, 1, 2, 3, 5, 12]), rnd.choice([rnd.randint(1, 60), rnd.randint(1, 60), 300])
    H = ['--------------TurbSim v2.00.* User Time Series Input File-----------------------', rnd.choice(['Comment', 'x', 'Time series 10 m/s', LATIN]), '-' * 80]
    H = H[:rnd.choice([3, 3, 1])] + (['more'] * rnd.choice([0, 0, 3, 7]))
    ref = rnd.randint(1, npt)
    P, PV = texts(rnd, table(rnd, npt, 2), rnd.choice(['{:.3f}', '{:.6e}', '{:.9f}']) )
    D, DV = texts(rnd, np.column_stack((np.arange(n) * 0.05, table(rnd, n, nc * npt))))
    s = '\n'.join(H) + '\n' + ('{:11d} ' + rnd.choice(['nComp', 'nComp', 'NCOMP', 'ncomp']) + ' - Number of velocity components in the file\n{:11d} nPoints - Number of time series points contained in this file (-)\n').format(nc, npt)
    s += '{:11d} RefPtID - Index of the reference point (1-nPoints)\n     Pointyi Pointzi ! nPoints listed in order of increasing height\n       (m)     (m)\n'.format(ref)
    s += ''.join('   '.join(r) + '\n' for r in P) + '--------Time Series----\n'
    lab = ['Point{:02d}{}'.format(i + 1, 'uvw'[c]) for i in range(npt) for c in range(nc)]
    s += 'Elapsed Time  ' + '  '.join(lab) + '\n (s) ' + ' (m/s)' * (nc * npt) + '\n'
    sep = rnd.choice(['\t', '  '])
    s += '\n'.join(sep.join(r) for r in D) + rnd.choice(['', '\n', '\n\n', '\n\nnotes 1 2\n'])
    f = read(case, 'TurbSimTSFile', case.write('a.txt', s))
    cols = ['Time_[s]'] + ['Point{}{}_[m/s]'.format(i + 1, 'uvw'[c]) for i in range(npt) for c in range(nc)]

    def look(f, what, rtol):
        dfs = case.call('toDataFrame', f.toDataFrame)
        check_df(case, what + ' time series', dfs['TimeSeries'], cols, DV, rtol)
        check_df(case, what + ' points', dfs['Points'], ['PointYi', 'PointZi'], PV, rtol)
        case.check((int(f['nComp']), int(f['ID'])) == (nc, ref), what + '-header', 'components, reference {} instead of {}'.format((f['nComp'], f['ID']), (nc, ref)))
        case.check(list(f['header']) == [h.strip() for h in H], what + '-header', 'header lines {} instead of {}'.format(f['header'], H))
    look(f, 'read', 0)
    g = rewrite(case, 'TurbSimTSFile', f, 'b.txt')
    look(g, 'written', 6e-9)
    rd = lambda fn: open(case.path(fn), 'rb').read()
    case.check(rd('b.txt') == (g.write(case.path('c.txt')) or rd('c.txt')), 'stable', 'a second write differs')
    # other numbers, another number of points or components are what is written then
    npt, nc, n, ref = rnd.choice([npt, 1, 2, 7]), rnd.choice([nc, 1, 3]), rnd.choice([n, 1, 9]), 1
    g['Points'], g['data'], g['nComp'], g['ID'] = table(rnd, npt, 2), np.column_stack((np.arange(n) * 0.1, table(rnd, n, nc * npt))), nc, ref
    if rnd.random() < 0.2:
        g['data'][rnd.randrange(n), 1] = rnd.choice([-1.5e-120, -2.5e101, 1e-300])
    PV, DV = g['Points'].copy(), g['data'].copy()
    cols = ['Time_[s]'] + ['Point{}{}_[m/s]'.format(i + 1, 'uvw'[c]) for i in range(npt) for c in range(nc)]
    look(rewrite(case, 'TurbSimTSFile', g, 'd.txt'), 'edited', 6e-9)
    case.sig('turbsimts', nc, npt, n)
    case.desc = dict(nComp=nc, nPoints=npt, rows=n)


WND = ['Time_[s]', 'WindSpeed_[m/s]', 'WindDir_[deg]', 'VertSpeed_[m/s]', 'HorizShear_[-]', 'VertShear_[-]', 'LinVShear_[-]', 'GustSpeed_[m/s]']


def wl_wnd(case):
    rnd = case.rnd
    n = rnd.choice([rnd.randint(1, 80), rnd.randint(1, 80), 400])
    D, V = texts(rnd, np.column_stack((np.cumsum(np.abs(table(rnd, n, 1))), table(rnd, n, 7))))
    H = ['!Wind file for test', '!Time  Wind  Wind  Vert.', '!      Speed Dir   Speed'][:rnd.randint(0, 3)]
    sep = rnd.choice([' ', '\t', '   '])
    s = ''.join(h + '\n' for h in H) + ''.join(rnd.choice(['', ' ']) + sep.join(r) + '\n' for r in D)
    f = read(case, 'FASTWndFile', case.write('a.wnd', s))
    check_df(case, 'wind', f.toDataFrame(), WND, V, 2e-12)
    case.check([h.strip() for h in f.header] == H, 'wind-header', 'header {} instead of {}'.format(f.header, H))
    g = rewrite(case, 'FASTWndFile', f, 'b.wnd')
    check_df(case, 'wind written', g.toDataFrame(), WND, V, 2e-12)
    if H:
        case.check([h.strip() for h in g.header] == H, 'wind-header', 'header written {} instead of {}'.format(g.header, H))
    V = np.column_stack((np.arange(3), table(rnd, 3, 7)))
    g.data = pd.DataFrame(V, columns=WND)
    check_df(case, 'wind edited', rewrite(case, 'FASTWndFile', g, 'c.wnd').toDataFrame(), WND, V, 2e-12)
    case.sig('wnd', n, len(H))
    case.desc = dict(rows=n)


def wl_stepwind(case):
    """step wind: between the steps the speed is constant, changes occur within dt before the given times"""
    rnd = case.rnd
    f = anyfile.cls('FASTWndFile')()
    w0, st, k = rnd.randint(1, 10), rnd.choice([1, 2, 3, 0.5, 0.25]), rnd.randint(1, 12)
    w1 = w0 + st * k
    T, dt, t0 = rnd.choice([10, 50, 100, 33, (100, 50), [20, 80]]), rnd.choice([0.5, 0.01, 1]), rnd.choice([0, 0, 20])
    tmax = rnd.choice([999, 100, 5000])
    case.call('stepWind', lambda: f.stepWind(WSstep=st, WSmin=w0, WSmax=w1, tstep=T, dt=dt, tmin=t0, tmax=tmax))
    df = f.toDataFrame()
    case.check([str(c) for c in df.columns] == WND, 'step-names', 'names {}'.format(list(df.columns)))
    t, w = df.values[:, 0], df.values[:, 1]
    case.check(bool(np.all(np.diff(t) > 0)), 'step-time', 'time does not increase: {}'.format(t[:8]))
    case.check(t[0] == t0 and t[-1] >= tmax, 'step-time', 'time from {} to {}'.format(t[0], t[-1]))
    # [first, last] step durations: evenly graded, in whole seconds
    D = [T] * (k + 1) if not hasattr(T, '__len__') else [float(round(T[0] + (T[1] - T[0]) * i / k)) for i in range(k + 1)]
    if hasattr(T, '__len__') and any(abs((T[0] + (T[1] - T[0]) * i / k) % 1 - 0.5) < 1e-6 for i in range(k + 1)):
        return
    for i in range(k + 1):
        a = t0 + sum(D[:i])
        b = a + D[i] - dt
        q = np.array([a, (a + b) / 2, b])
        v = np.interp(q, t, w)
        case.check(eq(v, [w0 + i * st] * 3, 1e-12), 'step-values', 'speed {} at {} instead of {}'.format(v, q, w0 + i * st))
    case.check(bool(np.all(df.values[:, 2:] == 0)), 'step-values', 'other columns are not zero')
    fn = case.path('s.wnd')
    case.call('write', lambda: f.write(fn))
    g = read(case, 'FASTWndFile', fn)
    check_df(case, 'step written', g.toDataFrame(), WND, df.values)
    case.sig('step', w0, st, k, str(T), dt, t0, tmax)
    case.desc = dict(steps=k)


def wl_tecplot(case):
    rnd = case.rnd
    n, m = rnd.choice([1, 2, 5, 40, 300]), rnd.choice([1, 2, 3, 6, 12, 30])
    D, V = texts(rnd, table(rnd, n, m))
    names = words(rnd, m, 'abcXYZ')
    units = [rnd.choice(['', '', '[m]', '[m/s]', '[-]', '(rad)']) for _ in names]
    exp = [a + ('_' + u if u else '') for a, u in zip(names, units)]
    title = rnd.choice([None, None, '"a title = 3"', '"x"', '"accosurf-007 t=     15.5894"', '"' + LATIN + '"', '"the zone text variables"', 'bare Title'])
    s = rnd.choice(['', '# a comment\n', '# ' + LATIN + '\n# TITLE = none\n'])
    if title:
        s += rnd.choice(['TITLE = ', 'TITLE     = ', 'title=']) + title + '\n'
    style = rnd.choice(['quoted', 'lines', 'plain', 'quoted-blank'])
    v = [a + u for a, u in zip(names, units)]
    if style == 'plain':
        s += 'VARIABLES = ' + rnd.choice([', ', ' ']).join(v) + '\n'
    elif style == 'lines':
        s += 'VARIABLES = ' + '\n'.join('"{}"'.format(x) for x in v) + '\n'
    else:
        s += 'VARIABLES = ' + {'quoted': ',', 'quoted-blank': ' '}[style].join('"{}"'.format(x) for x in v) + '\n'
    aux = {}
    for k in words(rnd, rnd.choice([0, 0, 2, 4])):
        if rnd.random() < 0.2:
            s += '# remark\n'
        aux[k] = rnd.choice(['abc', '/lustre/cray/', 1.5, 287.62452, '01:35:32', -3.0])
        s += 'DATASETAUXDATA {}="{}{}"\n'.format(k, aux[k], rnd.choice(['', ' ']))
    other = {}
    for k in rnd.sample(['text', 'geometry', 'customlabels', 'varauxdata'], rnd.choice([0, 0, 1, 2])):
        other[k] = rnd.choice(['X=3 Y=4 T="a b"', 'something else', '"A", "B"'])
        s += k.upper() + ' ' + other[k] + '\n'
    zone = rnd.choice([None, None, 'dom-7', 'z 1'])
    if zone:
        s += rnd.choice(['ZONE T="{}"\n', 'Zone T = "{}"\n']).format(zone)
    body = ''.join(rnd.choice(['', ' ', '  ']) + rnd.choice([' ', '  ', '\t']).join(r) + '\n' for r in D)
    if rnd.random() < 0.2:     # blank lines separate the parts
        L = s.splitlines()
        L.insert(rnd.randint(0, len(L)), '') if style != 'lines' else L.append('')
        s = '\n'.join(L) + '\n'
    s += body + rnd.choice(['', '', '\n'])
    f = read(case, 'TecplotFile', case.write('a.dat', s))

    def look(f, what):
        check_df(case, what, f.toDataFrame(), exp, V)
        if title:
            case.check(f.get('title') == title, what + '-title', 'title {!r} instead of {!r}'.format(f.get('title'), title))
        case.check(dict(f.get('datasetauxdata', {})) == aux, what + '-aux', 'auxiliary data {} instead of {}'.format(f.get('datasetauxdata'), aux))
        case.check({k: f.get(k) for k in other} == other, what + '-sections', 'sections {} instead of {}'.format({k: f.get(k) for k in other}, other))
        if zone:
            case.check({k.strip(): w for k, w in f.get('zone', {}).items()} == {'T': zone}, what + '-zone', 'zone {} instead of {}'.format(f.get('zone'), zone))
    look(f, 'read')
    prec = rnd.choice([None, None, None, 4])
    out = case.path('b.dat')
    case.call('write', lambda: f.write(out, precision=prec) if prec else f.write(out))
    g = read(case, 'TecplotFile', out)
    if prec is None:
        look(g, 'written')
        V = table(rnd, rnd.choice([1, 3, 1200]), m)
        g['data'] = V.copy()
        case.call('write', lambda: g.write(case.path('c.dat')))
        look(read(case, 'TecplotFile', case.path('c.dat')), 'edited')
    else:
        case.check(list(g['variables']) == exp and g['data'].shape == V.shape, 'written-names', 'written with {} digits: {}'.format(prec, g['data'].shape))
        if g['data'].shape == V.shape:
            case.check(bool(np.all(np.abs(g['data'] - V) <= 0.51e-4 * np.maximum(1, np.abs(V)))), 'written-values', lambda: 'written with {} digits: {} instead of {}'.format(prec, g['data'][:2].tolist(), V[:2].tolist()))
    case.sig('tecplot', n, m, style, bool(title), len(aux), zone, prec)
    case.desc = dict(rows=n, columns=m, style=style)


PWR = ['V [m/s]', 'P [kW]', 'T [kN]', 'Cp [-]', 'Ct [-]', 'Pitch Q [Nm]', 'Flap M [kNm]', 'Edge M [kNm]', 'Pitch [deg]', 'Speed [rpm]', 'Tip x [m]', 'Tip y [m]', 'Tip z [m]', 'J_rot [kg*m^2]', 'J_DT [kg*m^2]']


def header(names, w=17):
    return ' #' + ''.join(' {:>{w}s} {:2d}'.format(n, i + 1, w=w - 4) for i, n in enumerate(names))


def wl_pwr(case):
    rnd = case.rnd
    n = rnd.choice([1, 2, 8, 40, 300])
    names = PWR if rnd.random() < 0.5 else [a + ' ' + u for a, u in zip(words(rnd, 15, 'abcXYZ '[:6]), [rnd.choice(['[m]', '[kNm]', '[-]', '[deg/s]']) for _ in range(15)])]
    D, V = texts(rnd, table(rnd, n, 15))
    s = header(names) + '\n' + ''.join('    ' + '   '.join(r) + '\n' for r in D)
    f = read(case, 'HAWCStab2PwrFile', case.write('a.pwr', s))
    check_df(case, 'power', f.toDataFrame(), [x.replace(' ', '_') for x in names], V)
    case.sig('pwr', n, names is PWR)
    case.desc = dict(rows=n)


def wl_ind(case):
    rnd = case.rnd
    n, typ = rnd.choice([1, 2, 8, 40]), rnd.choice(['ind', 'fext', 'defl'])
    m = {'ind': 38, 'fext': 14, 'defl': 18}[typ]
    names = [a + ' ' + u for a, u in zip(words(rnd, m, 'abcXYZ_'[:6]), [rnd.choice(['[m]', '[kN/m]', '[-]', '[deg]']) for _ in range(m)])]
    s = ' #' + ''.join('{:>18s}{:3d} '.format(x, i + 2) if False else '{:2d} {:s}  '.format(i + 1, x) for i, x in enumerate(names))
    # as in the files: "# name [unit]  1  name [unit]  2 ..." where each number follows its name
    s = '#' + ' '.join('{:>14s} {:2d}'.format(x, i + 1) for i, x in enumerate(names))
    D, V = texts(rnd, table(rnd, n, m))
    u = rnd.choice([3000, 12500, 10000, rnd.randint(1000, 30000)])
    fn = case.write('{}_{}{}{}.{}'.format(rnd.choice(['a', 'case_x', 'turb', 'U_u5']), rnd.choice(['', '', 'defl_', 'fext_']), rnd.choice('uuU'), u, rnd.choice(['ind', 'ind', 'IND'])), s + '\n' + ''.join('   ' + '   '.join(r) + '\n' for r in D))
    f = read(case, 'HAWCStab2IndFile', fn)
    df = f.toDataFrame()
    check_df(case, 'induction', df, [x.replace(' ', '_') for x in names], V)
    case.check(f.type == typ and abs(f.wsp - u / 1000.0) < 1e-12, 'induction-kind', 'kind, wind speed {} instead of {}'.format((f.type, f.wsp), (typ, u / 1000.0)))
    case.check(df.columns.name == '{} - ws={:06.3f}'.format(typ, u / 1000.0), 'induction-kind', 'key {}'.format(df.columns.name))
    case.sig('ind', n, typ, u)
    case.desc = dict(rows=n, type=typ)


def wl_cmb(case):
    rnd = case.rnd
    n, k, b = rnd.choice([1, 2, 8, 30]), rnd.choice([rnd.randint(1, 15), rnd.randint(1, 15), 60, 120]), rnd.choice([1, 2, 3])
    D, V = texts(rnd, np.column_stack((np.arange(n) + 3.0, table(rnd, n, k * b))), rnd.choice(['{:.10E}', '{:16.6e}', '{:.4f}', '{:+.8e}']))
    s = ' # Freq. / Damp.     Number of modes: {:5d}\n'.format(k) + ''.join('   ' + '   '.join(r) + '\n' for r in D)
    f = read(case, 'HAWCStab2CmbFile', case.write('a.cmb', s))
    cols = ['Wind_[m/s]'] + [c + str(i + 1) for c in 'FDR'[:b] for i in range(k)]
    check_df(case, 'campbell', f.toDataFrame(), cols, V, 4e-16)
    case.sig('cmb', n, k, b)
    case.desc = dict(rows=n, modes=k)


def wl_rosco(case):
    rnd = case.rnd
    a, b = rnd.choice([1, 2, 5, 20, 60]), rnd.choice([1, 2, 5, 20, 60])
    P = sorted(set(round(rnd.uniform(-10, 90), rnd.choice([0, 1, 2])) for _ in range(a)))
    T = sorted(set(round(rnd.uniform(1, 15), rnd.choice([1, 2])) for _ in range(b)))
    W = None if rnd.random() < 0.3 else [round(rnd.uniform(3, 25), 1) for _ in range(rnd.choice([1, 1, 3]))]
    M = {k: np.array([[round(rnd.uniform(-1, 1), 6) for _ in P] for _ in T]) for k in ('CP', 'CT', 'CQ')}
    s = '# ----- Rotor performance tables for the {} wind turbine ----- \n# ------------ Written on Oct-30-19 using the ROSCO toolbox ------------ \n\n'.format(rnd.choice(['', 'NREL5MW', LATIN]))
    s += rnd.choice(['', '', '# a line\n' * 5])
    s += rnd.choice(['# Pitch angle vector - x axis (matrix columns) (deg)\n', '# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(P))]) + '   '.join(map(str, P)) + '   \n'
    s += '# TSR vector - y axis (matrix rows) (-)\n' + '    '.join(map(str, T)) + '\n'
    if W:
        s += '# Wind speed vector - z axis (m/s)\n' + '    '.join(map(str, W)) + '    \n'
    for k, t in zip(('CP', 'CT', 'CQ'), ('Power', ' Thrust', 'Torque')):
        s += '\n# {} coefficient\n\n'.format(t) + ''.join('   '.join('{:.6f}'.format(v) for v in r) + '   \n' for r in M[k]) + '\n'
    f = read(case, 'ROSCOPerformanceFile', case.write('a.txt', s))
    cols = ['TSR_[-]'] + ['Pitch_{:.2f}_[deg]'.format(p) for p in P]

    def look(f, what):
        d = case.call('toDataFrame', f.toDataFrame)
        for k in M:
            check_df(case, what, d[k], cols, np.column_stack((T, M[k])), 0, 1e-12)
        case.check((W is None and f['WS'] is None) or (W is not None and f['WS'] is not None and eq(f['WS'], W)), what + '-wind', 'wind speeds {} instead of {}'.format(f['WS'], W))
        case.check(eq(f['pitch'], P) and eq(f['TSR'], T), what + '-axes', 'pitch, TSR {} {}'.format(f['pitch'], f['TSR']))
    look(f, 'performance')
    g = rewrite(case, 'ROSCOPerformanceFile', f, 'b.txt')
    look(g, 'performance written')
    W = rnd.choice([W, None, [5.0, 10.25]])
    P, T = rnd.choice([(P, T), (list(range(-2, 7)), [1.5, 2.5]), ([1.25], [7.0, 8.0, 9.5])])
    M = {k: np.array([[round(rnd.uniform(-1, 1), 6) for _ in P] for _ in T]) for k in ('CP', 'CT', 'CQ')}
    g['pitch'], g['TSR'], g['WS'] = np.array(P), np.array(T), W if W is None else np.array(W)
    g.update(M)
    cols = ['TSR_[-]'] + ['Pitch_{:.2f}_[deg]'.format(p) for p in P]
    look(rewrite(case, 'ROSCOPerformanceFile', g, 'c.txt'), 'performance edited')
    case.sig('rosco', len(P), len(T), W and len(W))
    case.desc = dict(pitch=len(P), tsr=len(T))


def wl_bmodes(case):
    rnd = case.rnd
    k, n = rnd.choice([rnd.randint(1, 10), 20]), rnd.choice([1, 2, 11, 30, 61])
    fr = [float('{:.6E}'.format(abs(num(rnd, 2)) + 0.01)) for _ in range(k)]
    S = [np.column_stack((np.round(np.linspace(0, 1, n), 4), np.array([[round(rnd.uniform(-2, 2), 6) for _ in range(5)] for _ in range(n)]))) for _ in range(k)]
    s = 'Results generated by BModes (v1.03.01, 25-Sept-2007, compiled using double precision) on 24-Dec-2021 at 12:22:43.\n{}\n{}\n\n            {} frequencies & mode shapes\n            --- only first {:3d} modes printed\n\n\n'.format(rnd.choice(['Tower', 'x   ', LATIN]), '=' * 81, rnd.choice(['tower', 'blade']), k)
    last = rnd.choice(['\n\n', '', '\n'])
    for i in range(k):
        m, e = '{:.6E}'.format(fr[i]).split('E')
        v = float(m) / 10
        s += ' -------- Mode No.{:4d}  (freq = {:.6f}E{:+03d} Hz)\n\nspan_loc\ts-s disp\ts-s slope\tf-a disp\tf-a slope\ttwist\n\n'.format(i + 1, v, int(e) + 1)
        fr[i] = float('{:.6f}E{:+03d}'.format(v, int(e) + 1))
        s += ''.join('{:7.4f}\t'.format(r[0]) + '\t'.join('{:9.6f}'.format(x) for x in r[1:]) + '\n' for r in S[i]) + (rnd.choice(['\n\n', ' \n\n']) if i < k - 1 else last)
    s += '=' * 81 + '\n'
    f = read(case, 'BModesOutFile', case.write('a.out', s))
    d = case.call('toDataFrame', f.toDataFrame)
    case.check(eq(f['frequencies'], fr), 'frequencies', 'frequencies {} instead of {}'.format(f['frequencies'], fr))
    case.check(sorted(d) == sorted('Mode_{}'.format(i + 1) for i in range(k)), 'mode-names', 'modes {}'.format(sorted(d)))
    for i in range(k):
        if 'Mode_{}'.format(i + 1) in d:
            check_df(case, 'mode', d['Mode_{}'.format(i + 1)], ['span_loc', 's-s disp', 's-s slope', 'f-a disp', 'f-a slope', 'twist'], S[i], 0, 1e-12)
    case.sig('bmodes', k, n)
    case.desc = dict(modes=k, stations=n)


# ------------------------------------------------------------------------------------------------ binary containers
def wl_parquet(case):
    rnd = case.rnd
    n, m = rnd.choice([1, 2, 30, 300]), rnd.randint(1, 12)
    names = words(rnd, m, 'abc [](/)_-')
    d = {}
    for c in names:
        k = rnd.choice(['f', 'f', 'f', 'i', 's', 'b', 'f4'])
        d[c] = {'f': lambda: [num(rnd, 200) for _ in range(n)], 'f4': lambda: np.array([num(rnd, 20) for _ in range(n)], dtype='f4'), 'i': lambda: [rnd.randint(-2**60, 2**60) for _ in range(n)], 's': lambda: [rnd.choice(['a', 'b é', '']) for _ in range(n)],
                'b': lambda: [rnd.random() < 0.5 for _ in range(n)]}[k]()
    df = pd.DataFrame(d)
    fn = case.path('a.parquet')
    df.to_parquet(fn)
    f = read(case, 'ParquetFile', fn)

    def look(f, what):
        g = f.toDataFrame()
        case.check(list(g.columns) == names and list(g.dtypes) == list(df.dtypes) and g.equals(df), what, '{}: {} instead of {}'.format(what, g.head(2).to_dict(), df.head(2).to_dict()))
    look(f, 'parquet')
    look(rewrite(case, 'ParquetFile', f, 'b.parquet'), 'parquet written')
    case.sig('parquet', n, m, tuple(str(t) for t in df.dtypes))
    case.desc = dict(rows=n, columns=m)


def cell(rnd, k):
    return {'f': lambda: num(rnd, 5), 'i': lambda: rnd.randint(-10**6, 10**6), 's': lambda: rnd.choice(['a', 'Blade 1', 'é', 'x_y'])}[k]()


def wl_excel(case):
    rnd = case.rnd
    from openpyxl import Workbook
    wb = Workbook()
    wb.remove(wb.active)
    exp = {}
    sheets = [w + rnd.choice(['', '', '_results_of_x']) for w in words(rnd, rnd.choice([1, 1, 2, 4]), 'abc _')]
    for sh in sheets:
        ws = wb.create_sheet(sh)
        if len(sheets) > 1 and rnd.random() < 0.15:
            continue     # an empty sheet is left out
        n, m = rnd.choice([0, 1, 3, 3, 20]), rnd.choice([rnd.randint(1, 6), 30])     # n=0: a sheet with names only
        names = words(rnd, m, 'abc [/]_')
        kinds = [rnd.choice('ffis') for _ in range(m)]
        rows = [[cell(rnd, k) for k in kinds] for _ in range(n)]
        if n > 1 and m > 1 and rnd.random() < 0.3:
            rows[rnd.randrange(n)][rnd.randrange(m)] = None     # a missing value
        rows = [r for r in rows if any(v is not None for v in r)]
        off = (rnd.choice([0, 0, 2]), rnd.choice([0, 0, 1]))    # tables may start further down
        for i, r in enumerate([names] + rows):
            for j, v in enumerate(r):
                if v is not None:
                    ws.cell(row=i + 1 + off[0], column=j + 1 + off[1], value=v)
        exp[sh] = (names, rows)
    if not exp:
        return
    fn = case.path('a.xlsx')
    wb.save(fn)
    f = read(case, 'ExcelFile', fn)

    def same(a, b):
        if b is None:
            return a is None or a != a
        return a == b if isinstance(b, str) else (not isinstance(a, str) and abs(float(a) - float(b)) <= 1e-15 * abs(float(b)))

    def look(f, what):
        d = f.toDataFrame()
        case.check(list(d) == list(exp), what + '-sheets', 'sheets {} instead of {}'.format(list(d), list(exp)))
        for k, (names, rows) in exp.items():
            if k not in d:
                continue
            case.check([str(c) for c in d[k].columns] == names, what + '-names', 'names {} instead of {}'.format(list(d[k].columns), names))
            got = d[k].values.tolist()
            case.check(list(d[k].index) == list(range(len(got))), what + '-index', 'rows are labelled {}'.format(list(d[k].index)[:5]))
            case.check(len(got) == len(rows) and all(same(a, b) for r, q in zip(got, rows) for a, b in zip(r, q)), what + '-values', '{}: {} instead of {}'.format(what, got[:3], rows[:3]))
    look(f, 'excel')
    if not any(len(r) != len([v for v in r if v is not None]) for _, rows in exp.values() for r in rows if all(v is None for v in r)):
        look(rewrite(case, 'ExcelFile', f, 'b.xlsx'), 'excel written')
    case.sig('excel', tuple((len(a), len(b)) for a, b in exp.values()))
    case.desc = dict(sheets=len(exp))


def wl_netcdf(case):
    rnd = case.rnd
    from scipy.io import netcdf_file
    fn = case.path('a.nc')
    n, m = rnd.randint(1, 20), rnd.randint(1, 6)
    exp = {}
    with netcdf_file(fn, 'w') as F:
        F.createDimension('time', n)
        F.createDimension('x', m)
        for k in words(rnd, rnd.choice([rnd.randint(1, 5), 12]), 'abc_'):
            dims = rnd.choice([('time',), ('x',), ('time', 'x'), ('x', 'time')])
            t = rnd.choice(['d', 'd', 'f', 'i'])
            v = F.createVariable(k, t, dims)
            sh = tuple({'time': n, 'x': m}[q] for q in dims)
            a = np.array([num(rnd, 5) if t != 'i' else rnd.randint(-1000, 1000) for _ in range(int(np.prod(sh)))]).reshape(sh)
            v[:] = a
            scale, add = 1.0, 0.0
            if t == 'i' and rnd.random() < 0.4:      # packed numbers (CF conventions)
                scale, add = rnd.choice([0.5, 0.25, 2.0]), rnd.choice([0.0, 10.0])
                v.scale_factor, v.add_offset = scale, add
            a = a if scale == 1.0 and add == 0.0 else a * scale + add
            t = t if scale == 1.0 and add == 0.0 else 'd'
            exp[k] = a.astype({'d': 'f8', 'f': 'f4', 'i': 'i4'}[t]).astype(float).reshape(n if len(sh) == 1 and dims == ('time',) else sh[0], -1)
    f = read(case, 'NetCDFFile', fn)

    def look(f, what):
        d = f.toDataFrame()
        case.check(sorted(d) == sorted(exp), what + '-names', 'variables {} instead of {}'.format(sorted(d), sorted(exp)))
        for k in exp:
            if k in d:
                case.check(eq(d[k].values, exp[k]), what + '-values', '{} {}: {} instead of {}'.format(what, k, d[k].values[:2].tolist(), exp[k][:2].tolist()))
    look(f, 'netcdf')
    look(rewrite(case, 'NetCDFFile', f, 'b.nc'), 'netcdf written')
    case.sig('netcdf', n, m, len(exp))
    case.desc = dict(n=n, m=m)


def wl_tdms(case):
    rnd = case.rnd
    from nptdms import TdmsWriter, ChannelObject
    n, m = rnd.randint(1, 60), rnd.randint(1, 6)
    dt, t0 = rnd.choice([0.1, 0.5, 1.0, 0.02]), rnd.choice([0.0, 0.0, 5.0])
    names = words(rnd, m, 'abc _-')
    V = table(rnd, n, m)
    G = rnd.choice([['g'], ['g', 'h two'], ['g', 'h two', 'i', 'j', 'k']])
    grp = [rnd.choice(G) for _ in names]
    order = [i for g in sorted(set(grp)) for i in range(m) if grp[i] == g]
    fn = case.path('a.tdms')
    cut = rnd.choice([n, n, max(1, n // 2)])
    with TdmsWriter(fn) as w:
        for a, b in ((0, cut), (cut, n)):
            if b > a:
                w.write_segment([ChannelObject(grp[i], names[i], V[a:b, i], properties=dict(wf_increment=dt, wf_start_offset=t0)) for i in order])
    f = read(case, 'TDMSFile', fn)
    df = case.call('toDataFrame', f.toDataFrame)
    exp = np.column_stack((t0 + dt * np.arange(n), V[:, order]))
    check_df(case, 'tdms', df, ['Time_[s]'] + [names[i] for i in order], exp, 1e-12, 1e-12)
    case.sig('tdms', n, m, len(set(grp)))
    case.desc = dict(n=n, m=m)


def wl_tdms_times(case):
    """channels whose times differ cannot be given as one table: refused, never mixed"""
    rnd = case.rnd
    from nptdms import TdmsWriter, ChannelObject
    n, m = rnd.randint(2, 40), rnd.randint(2, 5)
    dt, t0 = rnd.choice([0.1, 0.5, 1.0]), rnd.choice([0.0, 5.0])
    P = [[n, dt, t0] for _ in range(m)]
    kind, j = rnd.choice(['length', 'step', 'start', 'length-step', 'start-step']), rnd.randrange(m)
    if kind == 'length':
        P[j][0] = rnd.choice([n - 1, n + 1, 1, 3 * n])
    elif kind == 'step':
        P[j][1] = dt * rnd.choice([2, 0.5])
    elif kind == 'start-step':     # the same number of values, the same end
        dt = P[0][1] = 0.5
        P = [[n, dt, t0] for _ in range(m)]
        P[j] = [n, dt / 2, t0 + (n - 1) * dt / 2]
    elif kind == 'start':
        P[j][2] = t0 + rnd.choice([1.0, -1.0, dt])
    else:
        P[j][:2] = [2 * n - 1, dt / 2]      # the same span with more values
    if kind == 'length' and P[j][0] == n:
        return
    fn = case.path('a.tdms')
    with TdmsWriter(fn) as w:
        w.write_segment([ChannelObject('g', 'c{}'.format(i), np.arange(q[0], dtype=float), properties=dict(wf_increment=q[1], wf_start_offset=q[2])) for i, q in enumerate(P)])
    f = case.attempt('read', lambda: anyfile.cls('TDMSFile')(fn).toDataFrame())
    case.check(isinstance(f, Raised), 'tdms-times', lambda: 'channels with (count, step, start) {} are given as one table {}'.format(P, f.shape))
    case.sig('tdms-times', n, m, kind, j)
    case.desc = dict(n=n, m=m, kind=kind)


def wl_bad(case):
    """files that are incomplete or inconsistent are refused: no table of other numbers is given"""
    rnd = case.rnd
    kind = rnd.choice(['ts-ncomp', 'ts-point', 'ts-columns', 'ts-ragged', 'ts-points', 'tecplot-columns', 'tecplot-ragged', 'tecplot-variables', 'tecplot-nothing', 'pwr-header', 'pwr-names', 'pwr-columns', 'ind-header', 'ind-names', 'ind-columns',
                       'cmb-columns', 'cmb-ragged', 'rosco-pitch', 'rosco-tsr', 'rosco-missing', 'rosco-row', 'rosco-rows', 'bmodes-first', 'bmodes-ragged', 'bmodes-columns', 'wnd-binary', 'binary'])
    k, what = kind.split('-') if '-' in kind else (kind, '')
    n, m = rnd.randint(2, 12), rnd.randint(2, 6)
    d = rnd.choice([-1, 1])
    fm = rnd.choice(['{:.6e}', '{:.3f}', '{:.10E}'])
    rows = lambda n, m: [[fm.format(rnd.uniform(-10, 10)) for _ in range(m)] for _ in range(n)]
    text = lambda R: ''.join('   ' + '   '.join(r) + '\n' for r in R)

    def spoil(R):
        """one row with another number of values"""
        i = rnd.randrange(len(R))
        R[i] = rnd.choice([r for r in (R[i][:-1], R[i][:1], R[i] + ['1.0']) if len(r) != len(R[i])])
        return R
    ext, enc = '.txt', None
    if k == 'ts':
        c, npt = rnd.choice([1, 3]), rnd.randint(1, 4)
        m = 1 + c * npt
        R = [['{:.3f}'.format(0.1 * i)] + r for i, r in enumerate(rows(n, m - 1))]
        P = rows(npt, 2)
        H = '---- user time series\ncomment\n' + '-' * 40 + '\n' + ('more\n' * 12 if what == 'ncomp' else '')
        if what == 'point':
            P[rnd.randrange(npt)] = rnd.choice([['1.0'], ['1.0', '2.0', '3.0'], ['a', 'b']])
        elif what == 'points':
            P = P[:-1]
        elif what == 'columns':
            R = [r[:-1] if d < 0 else r + ['1.0'] for r in R]
        elif what == 'ragged':
            R = spoil(R)
        s = H + ('' if what == 'ncomp' else '{:5d} nComp - x\n'.format(c)) + '{:5d} nPoints - x\n1 RefPtID - x\n Pointyi Pointzi\n (m) (m)\n'.format(npt) + text(P) + '---- Time Series ----\nElapsed Time ' + 'x ' * (m - 1) + '\n(s) ' + '(m/s) ' * (m - 1) + '\n' + text(R)
        name = 'TurbSimTSFile'
    elif k == 'tecplot':
        R = rows(n, m)
        V = 'VARIABLES = ' + ','.join('"v{}"'.format(i) for i in range(m)) + '\n'
        if what == 'columns':
            R = [r[:-1] if d < 0 else r + ['1.0'] for r in R]
        elif what == 'ragged':
            R = spoil(R)
        elif what == 'variables':
            V = rnd.choice(['ZONE T="a"\n', 'DATASETAUXDATA a="1"\n'])
        elif what == 'nothing':
            V = rnd.choice(['', 'some words\n'])
        s, name, ext = V + text(R), 'TecplotFile', '.dat'
    elif k in ('pwr', 'ind'):
        m = 15 if k == 'pwr' else rnd.choice([38, 14, 18])
        q = m
        if what == 'names':
            q = m = m + d if not (k == 'ind') else rnd.choice([13, 15, 17, 19, 37, 39, 20])
        names = [a + ' [m]' for a in words(rnd, q, 'abc')]
        H = header(names) if k == 'pwr' else '#' + ' '.join('{:>14s} {:2d}'.format(x, i + 1) for i, x in enumerate(names))
        if what == 'header':
            H = H.replace('#', rnd.choice([' ', '', '!']))
        R = rows(n, m + (d if what == 'columns' else 0))
        s, name, ext = H + '\n' + text(R), {'pwr': 'HAWCStab2PwrFile', 'ind': 'HAWCStab2IndFile'}[k], {'pwr': '.pwr', 'ind': '_u10000.ind'}[k]
    elif k == 'cmb':
        R = rows(n, 1 + m * rnd.choice([1, 2, 3]))
        R = spoil(R) if what == 'ragged' else [r[:-1] if d < 0 else r + ['1.0'] for r in R]
        s, name, ext = ' # Number of modes: {:5d}\n'.format(m) + text(R), 'HAWCStab2CmbFile', '.cmb'
        if what == 'ragged' and len(R[0]) <= max(len(r) for r in R) and all(len(r) <= len(R[0]) for r in R):
            return     # a short row: read as a missing value (CSV)
    elif k == 'rosco':
        n, m = rnd.choice([1, n]), rnd.choice([1, m])
        P, T = ['{:.1f}'.format(i) for i in range(m)], ['{:.1f}'.format(i + 1) for i in range(n)]
        S = [('Power', rows(n, m)), (' Thrust', rows(n, m)), ('Torque', rows(n, m))]
        j = rnd.randrange(3)
        if what == 'missing':
            del S[j]
        elif what == 'row':
            spoil(S[j][1])
        elif what == 'rows':
            del S[j][1][rnd.randrange(n)]
        s = '# ---- x ----\n# written\n\n' + ('' if what == 'pitch' else '# Pitch angle vector - x axis (matrix columns) (deg)\n' + ' '.join(P) + '\n') + ('' if what == 'tsr' else '# TSR vector - y axis (matrix rows) (-)\n' + ' '.join(T) + '\n')
        s += '# Wind speed vector - z axis (m/s)\n5.0\n' + ''.join('\n# {} coefficient\n\n'.format(t) + text(R) + '\n' for t, R in S)
        if what == 'pitch' and rnd.random() < 0.5:
            s = '# line\n' * 12
        name = 'ROSCOPerformanceFile'
    elif k == 'bmodes':
        R = rows(n, 6)
        R = spoil(R) if what == 'ragged' else rows(n, 6 + d) if what == 'columns' else R
        s = ('Results generated by BModes (v1.03.01)\n' if what != 'first' else 'Results generated by another program\n') + 'x\n====\n\n -------- Mode No.   1  (freq = 0.378614E+00 Hz)\n\nspan_loc\ts-s disp\ts-s slope\tf-a disp\tf-a slope\ttwist\n\n' + text(R) + '\n\n'
        name, ext = 'BModesOutFile', '.out'
    else:
        s = ''.join(chr(rnd.choice([0, 1, 2, 5, 65, 66, 10, 13, 127])) for _ in range(rnd.randint(40, 400)))
        s = '\x00\x01' + s
        name, ext = ('FASTWndFile', '.wnd') if k == 'wnd' else rnd.choice([('ExcelFile', '.xlsx'), ('ParquetFile', '.parquet'), ('NetCDFFile', '.nc'), ('TDMSFile', '.tdms'), ('TecplotFile', '.dat'), ('HAWCStab2PwrFile', '.pwr'), ('ROSCOPerformanceFile', '.txt'), ('BModesOutFile', '.out'),
                                                                 ('TurbSimTSFile', '.txt'), ('HAWCStab2CmbFile', '.cmb'), ('HAWCStab2IndFile', '_u1000.ind')])
    fn = case.write('a' + ext, s)
    f = case.attempt('read', lambda: anyfile.cls(name)(fn).toDataFrame())
    case.check(isinstance(f, Raised), 'bad-' + kind, lambda: '{} file ({}) is read as {}'.format(name, kind, {k: v.shape for k, v in f.items()} if isinstance(f, dict) else (list(f.columns), f.values[:2].tolist())))
    case.sig('bad', kind, n, m)
    case.desc = dict(kind=kind)


WORKLOADS = [Workload('turbsimts', wl_turbsimts, 600, 10000), Workload('wnd', wl_wnd, 600, 10000), Workload('stepwind', wl_stepwind, 300, 4000), Workload('tecplot', wl_tecplot, 900, 16000),
             Workload('pwr', wl_pwr, 300, 6000), Workload('ind', wl_ind, 300, 6000), Workload('cmb', wl_cmb, 450, 6000), Workload('rosco', wl_rosco, 450, 8000), Workload('bmodes', wl_bmodes, 300, 6000),
             Workload('parquet', wl_parquet, 300, 6000), Workload('excel', wl_excel, 240, 4000), Workload('netcdf', wl_netcdf, 180, 4000), Workload('tdms', wl_tdms, 240, 4000), Workload('tdms_times', wl_tdms_times, 180, 3000), Workload('bad', wl_bad, 1800, 18000)]
