"""C25: CACTUS results and RAAW measurements are assembled faithfully."""
import os
import sys
import contextlib
import io
import numpy as np
import pandas as pd
from ..core import Workload, Raised
from ..compare import freeze, same

TECHNIQUE = 'runtime monitoring: generated CACTUS runs (input, geometry, time, element and dynamic-stall files) and RAAW .mat files are read by the live reader; columns observed are compared with an independent evaluation of the definitions on the numbers put in the files'
RULE = 'A case is one generated run or measurement file; distinct by (companion files present, blades, elements, steps, options).'
ASSUME = ['f90nml is an optional dependency that is not installed here: a stand-in namelist parser (mon/stand/f90nml.py) takes its place, the CACTUS reader itself is the real one.',
          'Every element of the element file has a value for every computed step, and every element of the dynamic-stall file is in the element file and conversely.',
          'RAAW files hold 600 s of data, of 50 Hz and 1 Hz signals.', 'The first step of power columns repeats the second one (CACTUS does not give it); alphaDot2 is not judged.']

FT = 3.28084
TCOL = ['Normalized Time (-)', 'Theta (rad)', 'Rev', 'Torque Coeff. (-)', 'Power Coeff. (-)', 'Fx Coeff. (-)', 'Fy Coeff. (-)', 'Fz Coeff. (-)']
BCOL = ['Blade Fx Coeff. (-)', 'Blade Fy Coeff. (-)', 'Blade Fz Coeff. (-)', 'Blade Torque Coeff. (-)']
ECOL = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'Rev', 'x/R (-)', 'y/R (-)', 'z/R (-)', 'AOA25 (deg)', 'AOA50 (deg)', 'AOA75 (deg)', 'AdotNorm (-)', 'Re (-)', 'Mach (-)', 'Ur (-)',
        'IndU (-)', 'IndV (-)', 'IndW (-)', 'GB (?)', 'CL (-)', 'CD (-)', 'CM25 (-)', 'CLCirc (-)', 'CN (-)', 'CT (-)', 'Fx (-)', 'Fy (-)', 'Fz (-)', 'te (-)']
DCOL = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'Rev', 'alpha (deg)', 'adotnorm (-)', 'alrefL (deg)', 'alrefD (deg)', 'DynamicFlagL', 'DynamicFlagD', 'alphaLagD (deg)', 'delN', 'delP',
        'transA', 'gammaL', 'gammaD', 'dalphaL (deg)', 'Tu', 'alphadot']


def f90nml():
    try:
        import f90nml as m
    except ImportError:
        from ..stand import f90nml as m
        sys.modules['f90nml'] = m
    return m


def csv(case, name, cols, D):
    T = [['{:.8E}'.format(v) if not float(v).is_integer() else '%d' % v for v in r] for r in D]
    sep = ','
    case.write(name, sep.join(cols) + '\n' + ''.join(sep.join(r) + '\n' for r in T))
    return np.array([[float(t) for t in r] for r in T]).reshape(len(T), len(cols))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.abs(b) + (np.max(np.abs(b)) if b.size else 0) * 1e-3) + 1e-300))


def wl_cactus(case):
    rnd, rng = case.rnd, case.rng
    f90nml()
    nB, nE = rnd.choice([1, 2, 2, 3, 3, 4, 5]), rnd.choice([1, 2, 3, 12])
    nr, nti = rnd.choice([(1, 1), (1, 5), (2, 8), (3, 20), (rnd.randint(1, 5), rnd.randint(1, 30))])
    n = nr * nti
    if rnd.random() < 0.25 and n > 1:
        n = rnd.randint(1, n)        # stopped early
    base = rnd.choice(['case', 'Case_A', 'vawt 1', 'a.b'])
    sub = rnd.choice(['', 'run/'])
    P = dict(nr=nr, nti=nti, rpm=rnd.choice([52, rnd.uniform(10, 300)]), ut=rnd.choice([5, rnd.uniform(1, 8)]), rho=rnd.choice([0.002378, rnd.uniform(0.002, 0.003)]))
    refr, refar = round(rnd.uniform(1, 300), 4), round(rnd.uniform(0.5, 6), 5)
    has = {k: rnd.random() < 0.8 for k in ('geom', 'elem', 'ds')}
    has['time'] = rnd.random() < 0.93
    kase = rnd.choice([str, str, str.upper])
    gpath = rnd.choice(['geom/g.geom', 'g.geom', './g.geom'])
    s = '&{}\n  {} = 0 ! flag\n  {} = {}\n  {} = {}\n/\n'.format(kase('ConfigInputs'), kase('GPFlag'), kase('nr'), nr, kase('nti'), nti)
    s += '&{}\n  {} = {!r}\n  {} = {!r} ! rpm\n  {} = {!r}\n  ctexcrm = 0.1\n'.format(kase('CaseInputs'), kase('rho'), P['rho'], kase('rpm'), P['rpm'], kase('Ut'), P['ut'])
    s += "  {} = '{}'\n  {} = 'foil.dat', 'foil2.dat'\n/\n".replace("'foil.dat', 'foil2.dat'", "'foil.dat'").format(kase('geomfilepath'), gpath, kase('afdpath'))
    fn = case.write(sub + base + '.in', s)
    rot = rng.normal(size=3).round(3)
    if has['geom']:
        L = ['NBlade: {}'.format(nB + rnd.choice([0, 0, 1])), 'NStrut: 0', 'RotN: {} {} {}'.format(*rot), 'RotP: 0 0 0', 'RefAR: {!r}'.format(refar), 'RefR:  {!r} ! feet'.format(refr), 'Type: VAWT', 'Blade 1:', '    NElem: 3',
             '    FlipN: 0', '    QCx: 0 0 0 0', '    QCy: 1 2 3 4', '    RefR: 99']
        head = L[:7]
        rnd.shuffle(head)
        case.write(sub + gpath, rnd.choice(['', '! remark\n']) + '\n'.join(head + L[7:]) + '\n')
    R, AR = (refr / FT, refar) if has['geom'] else (1.0, 2.0)
    A = AR * R ** 2
    T = rng.normal(size=(n, 8 + 4 * nB)) * 10.0 ** rng.integers(-3, 2, size=(1, 8 + 4 * nB))
    if has['time']:
        T = csv(case, sub + 'output/' + base + '_TimeData.csv', TCOL + BCOL * nB, T)
    keys = [(b, e) for b in range(1, nB + 1) for e in range(1, nE + 1)]
    E, D = {}, {}
    order = rnd.choice([0, 0, 1])         # by steps, or by elements

    def sect(cols, name):
        X = {k: rng.normal(size=(n, len(cols))) * 10.0 ** rng.integers(-2, 2, size=(1, len(cols))) for k in keys}
        rows = []
        for i, k in ([(i, k) for i in range(n) for k in keys] if order == 0 else [(i, k) for k in keys for i in range(n)]):
            X[k][i, 2:4] = k
            rows.append((k, i, X[k][i]))
        V = csv(case, name, cols, [r[2] for r in rows])
        for (k, i, _), v in zip(rows, V):
            X[k][i] = v
        return X
    if has['elem']:
        E = sect(ECOL, sub + 'output/' + base + '_ElementData.csv')
    dcol = DCOL
    if has['ds']:
        if rnd.random() < 0.3:
            dcol = DCOL[:9]
        D = sect(dcol, sub + 'output/' + base + '_DSData.csv')
    elif rnd.random() < 0.3:
        case.write(sub + 'output/' + base + '_DSData.csv', '')
    # --- read, as a class or in a folder with a relative name, with or without another run before
    out = io.StringIO()
    from weio.cactus_file import CactusFile
    sign = rnd.choice([None, None, -1, 1])
    kw = {} if sign is None else dict(alphaSign=sign)
    sg = -1 if sign is None else sign
    with contextlib.redirect_stdout(out):
        f = case.call('read', lambda: CactusFile(fn))
        st = freeze(dict(f))
        case.check(f['configinputs']['nr'] == nr and f['caseinputs']['rpm'] == P['rpm'] and f['caseinputs']['geomfilepath'] == gpath, 'namelists', 'namelists {} {}'.format(f['configinputs'], f['caseinputs']))
        if has['geom']:
            case.check(np.array_equal(f['geom']['rotn'], rot) and f['geom']['refr'] == refr and f['geom']['refar'] == refar, 'geometry', lambda: 'geometry {} instead of RefR {} RefAR {}'.format(f['geom'], refr, refar))
        for k, name in (('time', 'dfTime'), ('elem', 'dfElem'), ('ds', 'dfDS')):
            case.check((f[name] is not None) == has[k], 'companion-' + k, '{} file present {}: {} is {}'.format(k, has[k], name, type(f[name]).__name__))
        om = P['rpm'] * 2 * np.pi / 60
        dt = 2 * np.pi / om / nti
        U = om * R / P['ut']
        for what, v in (('omega', om), ('dt', dt), ('R', R), ('A', A), ('U', U), ('TSR', P['ut']), ('RPM', P['rpm']), ('time', np.arange(nr * nti) * dt)):
            g = case.call(what, lambda: getattr(f, what))
            case.check(close(g, v, 1e-12), 'reference-' + what, '{} = {} instead of {}'.format(what, g, v))
        df = case.call('toDataFrame', lambda: f.toDataFrame(**kw))
        df2 = case.call('toDataFrame again', lambda: f.toDataFrame(**kw))
    case.check(same(st, freeze(dict(f))) is None, 'query-changes-object', 'asking for the data frame changed the object')
    if not has['time']:
        case.check(df is None, 'no-time', 'a frame without time data')
        return case.sig('cactus', 'no time')
    case.check(df2 is not None and same(freeze(df), freeze(df2)) is None, 'same-again', 'the second frame differs from the first')
    case.sig('cactus', tuple(sorted(has.items())), nB, nE, n, sign, order, len(dcol))
    case.check(df.shape[0] == n, 'steps', '{} steps instead of {}'.format(df.shape[0], n))
    cols = [str(c) for c in df.columns]
    case.check(len(set(cols)) == len(cols), 'columns-repeated', 'columns repeated')
    t = np.arange(n) * dt
    th = t * om
    rho = P['rho'] * 1.2 / 0.0023280000
    F0 = 0.5 * rho * A * U ** 2
    Q0, P0 = F0 * R, F0 * U
    X = {k: T[:, i] for i, k in enumerate(TCOL)}
    exp = {k: T[:, i] for i, k in enumerate(TCOL)}
    fx, fy, fz, q, cp = X[TCOL[5]], X[TCOL[6]], X[TCOL[7]], X[TCOL[3]], X[TCOL[4]]

    def first(p):
        p = np.array(p)
        if n > 1:
            p[0] = p[1]
        return p
    exp.update({'Time_[s]': t, 'HWindSpeedX_[m/s]': U + 0 * t, 'Wind1VelX_[m/s]': U + 0 * t, 'RtAeroCp_[-]': cp, 'RtAeroCq_[-]': q, 'ZAeroFxg_[N]': fx * F0, 'ZAeroFyg_[N]': -fz * F0, 'ZAeroFzg_[N]': fy * F0,
                'ZAeroMzg_[N-m]': q * Q0, 'RtAeroFxh_[N]': fy * F0, 'RtAeroFyh_[N]': (np.cos(th) * fx - np.sin(th) * fz) * F0, 'RtAeroFzh_[N]': -(np.cos(th) * fz + np.sin(th) * fx) * F0,
                'RtAeroMxh_[N-m]': q * Q0, 'RtAeroPwr_[W]': first(cp * P0), 'RotSpeed_[rpm]': P['rpm'] + 0 * t})
    azi = [2 * np.pi * b / nB for b in range(nB)]
    for b in range(nB):
        psi = th - azi[b]
        bx, by, bz, bq = [T[:, 8 + 4 * b + j] for j in range(4)]
        s = str(b + 1)
        exp.update({'Blade{} Fx Coeff. (-)'.format(s): bx, 'Blade{} Fy Coeff. (-)'.format(s): by, 'Blade{} Fz Coeff. (-)'.format(s): bz, 'Blade{} Torque Coeff. (-)'.format(s): bq})
        exp.update({'Y' + s + 'AeroFxb_[N]': -(np.cos(psi) * bz + np.sin(psi) * bx) * F0, 'Y' + s + 'AeroFyb_[N]': (np.cos(psi) * bx - np.sin(psi) * bz) * F0, 'Y' + s + 'AeroFzb_[N]': -by * F0,
                    'Y' + s + 'AeroMxb_[N-m]': bq * Q0, 'Y' + s + 'AeroPwr_[W]': first(bq * Q0 * om), 'Z' + s + 'AeroFxg_[N]': bx * F0, 'Z' + s + 'AeroFyg_[N]': -bz * F0, 'Z' + s + 'AeroFzg_[N]': by * F0,
                    'Z' + s + 'AeroMzg_[N-m]': bq * Q0})
    for (b, e) in keys if has['elem'] else []:
        V = {k: E[(b, e)][:, i] for i, k in enumerate(ECOL)}
        psi = th - azi[b - 1]
        p = 'AB{:d}N{:03d}'.format(b, e)
        ux, uz = V['IndU (-)'] * U, V['IndW (-)'] * U
        al = np.radians(V['AOA25 (deg)'])
        exp.update({p + 'Alpha_[deg]': sg * V['AOA25 (deg)'], p + 'Alpha50_[deg]': sg * V['AOA50 (deg)'], p + 'Alpha75_[deg]': sg * V['AOA75 (deg)'], p + 'Cl_[-]': sg * V['CL (-)'], p + 'Cd_[-]': V['CD (-)'],
                    p + 'Cm_[-]': sg * V['CM25 (-)'], p + 'Cn_[-]': sg * V['CN (-)'], p + 'Ct_[-]': sg * V['CT (-)'], p + 'Ct2_[-]': sg * (V['CD (-)'] * np.cos(al) - V['CL (-)'] * np.sin(al)),
                    p + 'Cxg_[-]': V['Fx (-)'], p + 'Cyg_[-]': -V['Fz (-)'], p + 'Czg_[-]': V['Fy (-)'], p + 'ClC_[-]': sg * V['CLCirc (-)'], p + 'Re_[-]': V['Re (-)'] / 1e6, p + 'Gam_[m^2/s]': sg * V['GB (?)'] * U * R,
                    p + 'Vrel_[m/s]': V['Ur (-)'] * U, p + 'Vindx_[m/s]': -(np.cos(psi) * uz + np.sin(psi) * ux), p + 'Vindy_[m/s]': np.cos(psi) * ux - np.sin(psi) * uz})
        if has['ds']:
            W = {k: D[(b, e)][:, i] for i, k in enumerate(dcol)}
            exp.update({p + 'alpha_34_[deg]': sg * W['alpha (deg)'], p + 'alphaE_[deg]': sg * W['alrefL (deg)'], p + 'alphaED_[deg]': sg * W['alrefD (deg)'], p + 'adotnorm_[-]': sg * W['adotnorm (-)']})
            if len(dcol) == len(DCOL):
                exp.update({p + 'activeL_[-]': W['DynamicFlagL'], p + 'activeD_[-]': W['DynamicFlagD'], p + 'alphaLagD_[deg]': sg * W['alphaLagD (deg)'], p + 'delP_[-]': W['delN'], p + 'delN_[-]': W['delP'],
                            p + 'transA_[-]': W['transA'], p + 'gammaL_[-]': W['gammaL'], p + 'gammaD_[-]': W['gammaD'], p + 'dalphaL_[deg]': sg * W['dalphaL (deg)'],
                            p + 'dalphaD_[deg]': sg * (W['alpha (deg)'] - W['alrefD (deg)']), p + 'Tu_[s]': W['Tu'], p + 'alphaDot_[rad/s]': sg * W['alphadot']})
    miss = [c for c in exp if c not in cols]
    case.check(not miss, 'columns-missing', lambda: 'columns missing: {}'.format(miss[:6]))
    more = [c for c in cols if c not in exp and c != 'Azimuth_[deg]' and 'alphaDot2' not in c]
    case.check(not more, 'columns-more', lambda: 'columns that should not be there: {}'.format(more[:6]))
    if 'Azimuth_[deg]' in cols:
        a = df['Azimuth_[deg]'].values
        case.check(a.shape == (n,) and bool(np.all((a >= 0) & (a <= 360))) and close(np.exp(1j * np.radians(a)).real, np.cos(th), 1e-7) and close(np.sin(np.radians(a)) + 2, np.sin(th) + 2, 1e-9), 'azimuth', lambda: 'azimuth {}'.format(a[:5]))
    for c, v in exp.items():
        if c in cols and cols.count(c) == 1:
            case.check(close(df[c].values, v), 'value-' + ('rotor' if c[0] not in 'ABYZ' or c.startswith('ZA') else 'section' if c.startswith('AB') else 'blade'), lambda: '{}: {} instead of {}'.format(c, df[c].values[:4], v[:4]))


# ------------------------------------------------------------------------------------------------ RAAW
def wl_raaw(case):
    from scipy.io import savemat
    rnd, rng = case.rnd, case.rng
    from weio.raawmat_file import RAAWMatFile, matfile
    n5, n1 = rnd.choice([(1, 1), (2, 1), (3, 2), (0, 2), (2, 0), (4, 3)])
    S = [('A{}_{}'.format(i, rnd.choice(['Mx', 'wind', 'Acc 1'])), 0.02) for i in range(n5)] + [('S{}_{}'.format(i, rnd.choice(['T', 'Pitch'])), 1.0) for i in range(n1)]
    rnd.shuffle(S)
    skip = rnd.random() < 0.2
    t0 = [rnd.randint(2015, 2030), rnd.randint(1, 12), rnd.randint(1, 28), rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59)]
    C = np.empty((len(S) + skip, 1), dtype=object)
    val = {}
    col = rnd.random() < 0.5
    for i, (name, dt) in enumerate(S + ([('odd', 0.5)] if skip else [])):
        m = int(round(600 / dt))
        d = rng.normal(size=m) * 10.0 ** rnd.randint(-3, 5)
        if rnd.random() < 0.2:
            d[rng.integers(0, m, 5)] = np.nan
        val[name] = d
        C[i, 0] = {'src': 'x', 'name': name, 'unit': 'm', 'dt': dt, 'n': float(m), 't0': np.array([t0], dtype='int32'), 'data': d.reshape((-1, 1) if col else (1, -1))}
    if skip and rnd.random() < 0.5:
        C[[0, -1]] = C[[-1, 0]]
        S[0], S[-1] = S[0], S[-1]
    order = [C[i, 0]['name'] for i in range(len(C))]
    fn = case.path('a.mat')
    savemat(fn, {'DataCell': C}, do_compression=rnd.random() < 0.3)
    case.sig('raaw', n5, n1, skip, col)
    out = io.StringIO()
    rate = dict(S)
    with contextlib.redirect_stdout(out):
        f = case.call('read', lambda: RAAWMatFile(fn))
        d = case.call('toDataFrame', lambda: f.toDataFrame())
        case.call('repr', lambda: repr(f))
    case.check(set(d) == {'data50hz', 'data1hz'}, 'frames', 'frames {}'.format(list(d)))
    start = pd.Timestamp(*t0)

    def judge(d, what, extra=lambda r: []):
        for k, dt, m in (('data50hz', 0.02, 30000), ('data1hz', 1.0, 600)):
            exp = ['time'] + [s for s in order if rate.get(s) == dt]
            if what == 'xarray':
                cols, V, idx = [str(c) for c in d[k].channel.values], d[k].values, pd.DatetimeIndex(d[k].timestamp.values)
            else:
                cols, V, idx = [str(c) for c in d[k].columns], d[k].values, d[k].index
            case.check(cols[:len(exp)] == exp and sorted(cols[len(exp):]) == sorted(extra(dt)), what + '-names', '{}: {} instead of {} + {}'.format(k, cols, exp, extra(dt)))
            case.check(len(idx) == m and idx[0] == start and abs((idx[-1] - start).total_seconds() - (m - 1) * dt) < 1e-6 and abs((idx[m // 3] - start).total_seconds() - (m // 3) * dt) < 1e-6, what + '-stamps', '{}: stamps from {} to {}, {} of them'.format(k, idx[0], idx[-1], len(idx)))
            ok = V.shape == (m, len(cols)) and close(V[:, 0], np.arange(m) * dt)
            case.check(ok, what + '-time', '{}: time channel or shape {}'.format(k, V.shape))
            for i, s in enumerate(exp[1:]):
                if V.shape[1] > i + 1:
                    case.check(np.array_equal(V[:, i + 1].astype(float), val[s], equal_nan=True), what + '-values', '{}: values of {} differ'.format(k, s))
            for i in range(len(exp), len(cols)):
                case.check(bool(np.all(np.isnan(V[:, i].astype(float)))), what + '-missing', 'a channel that is missing from the file has values')
    judge(d, 'pandas')
    # --- the function, with the list of channels that should be there
    key = None
    extra = {0.02: [], 1.0: []}
    if rnd.random() < 0.6:
        a = [s for s in order if rate.get(s) == 0.02 and rnd.random() < 0.9] + ['extra5_{}'.format(i) for i in range(rnd.randint(0, 2))]
        b = [s for s in order if rate.get(s) == 1.0 and rnd.random() < 0.9] + ['extra1_{}'.format(i) for i in range(rnd.randint(0, 2))]
        a = a + ['time']
        b = b + ['time']
        extra = {0.02: [x for x in a if x.startswith('extra')], 1.0: [x for x in b if x.startswith('extra')]}
        while len(a) < len(b):
            a.append('pad{}'.format(len(a)))
            extra[0.02].append(a[-1])
        key = case.write('key.csv', '50hz,1hz\n' + ''.join('{},{}\n'.format(x, b[i] if i < len(b) else '') for i, x in enumerate(a)))
    kind = rnd.choice(['pandas', 'xarray'])
    with contextlib.redirect_stdout(out):
        g = case.call('matfile ' + kind, lambda: matfile(fn, output=kind, path_key=key))
    judge(g, kind, lambda r: extra[r])


WORKLOADS = [Workload('cactus', wl_cactus, 400, 6000), Workload('raaw', wl_raaw, 60, 800)]
