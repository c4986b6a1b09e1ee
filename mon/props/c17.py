"""C17: linearization files give every operating point, matrix and label."""
import re
import numpy as np
from ..core import Workload, Raised
from ..compare import arr_close
from ..gen.util import names as mknames, logint

TECHNIQUE = 'runtime monitoring: linearization files with random states, inputs, outputs and matrices are rendered by a reference writer, read by the library, and each operating point, description, matrix entry and frame label is compared with the reference'
RULE = 'A case is one linearization file: random numbers of states, inputs, outputs (including none), descriptions of the OpenFAST modules, with or without derivative orders, orientation triplets, mass matrix and Jacobians; distinct by these.'
ASSUME = ['Descriptions follow the OpenFAST modules (ElastoDyn, BeamDyn, InflowWind, AeroDyn, ServoDyn, HydroDyn) and are distinct within their list.',
          'Of an operating point with three values (orientation), the first is given (stated design of the reader).', 'Sections with no entry are omitted from the file, as OpenFAST does.']

ED = ['Platform horizontal surge translation DOF (internal DOF index = DOF_Sg), m', 'Platform horizontal sway translation DOF (internal DOF index = DOF_Sw), m', 'Platform vertical heave translation DOF (internal DOF index = DOF_Hv), m',
      'Platform roll tilt rotation DOF (internal DOF index = DOF_R), rad', 'Platform pitch tilt rotation DOF (internal DOF index = DOF_P), rad', 'Platform yaw rotation DOF (internal DOF index = DOF_Y), rad',
      '1st tower fore-aft bending mode DOF (internal DOF index = DOF_TFA1), m', '1st tower side-to-side bending mode DOF (internal DOF index = DOF_TSS1), m', '2nd tower fore-aft bending mode DOF (internal DOF index = DOF_TFA2), m',
      '2nd tower side-to-side bending mode DOF (internal DOF index = DOF_TSS2), m', 'Nacelle yaw DOF (internal DOF index = DOF_Yaw), rad', 'Variable speed generator DOF (internal DOF index = DOF_GeAz), rad',
      'Drivetrain rotational-flexibility DOF (internal DOF index = DOF_DrTr), rad'] + [
          '{} bending-mode DOF of blade {} (internal DOF index = DOF_B{}({},1)), m'.format(m, b, k, b) for b in (1, 2, 3) for m, k in (('1st flapwise', 'F'), ('1st edgewise', 'E'), ('2nd flapwise', 'F'))]


def xpool(rnd):
    p = ['ED ' + d for d in ED]
    for b in (1, 2, 3):
        for n in range(2, 8):
            for k, u in (('translational displacement in X', 'm'), ('translational displacement in Y', 'm'), ('rotational displacement in X', 'rad'), ('rotational displacement in Y', 'rad'), ('rotational displacement in Z', 'rad')):
                p.append('BD_{} finite element node {} {}, {}'.format(b, n, k, u))
    return p


def deriv(d):
    mod, rest = d.split(' ', 1)
    u = {'m': 'm/s', 'rad': 'rad/s'}[rest.rsplit(', ', 1)[1]]
    return '{} First time derivative of {}, {}'.format(mod, rest.rsplit(', ', 1)[0], u)


def upool():
    p = ['IfW Extended input: horizontal wind speed (steady/uniform wind), m/s', 'IfW Extended input: vertical power-law shear exponent, -', 'IfW Extended input: propagation direction, rad',
         'ED Blade 1 pitch command, rad', 'ED Blade 2 pitch command, rad', 'ED Blade 3 pitch command, rad', 'ED Yaw moment, Nm', 'ED Generator torque, Nm', 'ED Extended input: collective blade-pitch command, rad',
         'HD Extended input: wave elevation at platform ref point, m']
    for n in range(1, 30):
        for X in 'XYZ':
            p += ['ED Tower {} force, node {}, N'.format(X, n), 'ED Tower {} moment, node {}, Nm'.format(X, n), 'ED Blade 1 {} force, node {}, N/m'.format(X, n), 'ED Blade 2 {} moment, node {}, Nm/m'.format(X, n),
                  'IfW {}-component position of node {}, m'.format(X, n), 'AD {}-component inflow on blade 1, node {}, m/s'.format(X, n), 'AD {}-component inflow on blade 3, node {}, m/s'.format(X, n), 'AD {}-component inflow on tower node {}, m/s'.format(X, n),
                  'AD Blade 1 {} translation displacement, node {}, m'.format(X, n), 'AD Blade 2 {} orientation angle, node {}, rad'.format(X, n), 'AD Tower {} translation velocity, node {}, m/s'.format(X, n),
                  'AD Blade 3 {} rotation velocity, node {}, rad/s'.format(X, n)]
    return p


def ypool(rnd):
    U = ['(m/s)', '(kW)', '(kN-m)', '(deg)', '(rpm)', '(m/s^2)', '(m)', '(kN)', '(N)', '(N-m)', '(rad/s)', '(deg/s^2)']
    names = sorted({n.upper().replace('_', '') for n in mknames(rnd, 60, 8)})
    names = [n for n in names if not n.startswith(('ED', 'BD', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ', 'HSS')) and 'BLD' not in n]
    p = ['{} Q{}q, {}'.format(rnd.choice(['ED', 'AD', 'SrvD', 'IfW', 'HD']), n, rnd.choice(U)) for n in names]
    for n in range(1, 20):
        for X in 'XYZ':
            p += ['ED Blade 1 {} translation acceleration, node {}, m/s^2'.format(X, n), 'ED Tower {} rotation acceleration, node {}, rad/s^2'.format(X, n), 'IfW {}-component inflow velocity at node {}, m/s'.format(X, n)]
    return p


EDM = ['PtfmSgDOF', 'PtfmSwDOF', 'PtfmHvDOF', 'PtfmRDOF', 'PtfmPDOF', 'PtfmYDOF', 'TwFADOF1', 'TwSSDOF1', 'TwFADOF2', 'TwSSDOF2', 'YawDOF', 'RFrlDOF', 'GenDOF', 'DrTrDOF', 'TFrlDOF', 'FlDOF1', 'EDOF', 'FlDOF2', 'FlDOF1b', 'EDOFb', 'FlDOF2b', 'FlDOF1c', 'EDOFc', 'FlDOF2c']


XYZ = {'X': 'x', 'Y': 'y', 'Z': 'z'}
# OpenFAST description (module prefix and derivative text removed, unit apart) -> documented short label
SHORT = [(r'Platform horizontal surge translation DOF .*', 'PtfmSurge'), (r'Platform horizontal sway translation DOF .*', 'PtfmSway'), (r'Platform vertical heave translation DOF .*', 'PtfmHeave'),
         (r'Platform roll tilt rotation DOF .*', 'PtfmRoll'), (r'Platform pitch tilt rotation DOF .*', 'PtfmPitch'), (r'Platform yaw rotation DOF .*', 'PtfmYaw'),
         (r'(1st|2nd) tower fore-aft bending mode DOF .*', lambda m: 'qt{}FA'.format(m[1][0])), (r'(1st|2nd) tower side-to-side bending mode DOF .*', lambda m: 'qt{}SS'.format(m[1][0])),
         (r'Variable speed generator DOF .*', 'psi_rot'),
         (r'BD_(\d) finite element node (\d+) translational displacement in X', lambda m: 'BD_B{}N{}FLAP-D'.format(m[1], m[2])), (r'BD_(\d) finite element node (\d+) translational displacement in Y', lambda m: 'BD_B{}N{}EDGE-D'.format(m[1], m[2])),
         (r'BD_(\d) finite element node (\d+) rotational displacement in X', lambda m: 'BD_B{}N{}EDGE-R'.format(m[1], m[2])), (r'BD_(\d) finite element node (\d+) rotational displacement in Y', lambda m: 'BD_B{}N{}FLAP-R'.format(m[1], m[2])),
         (r'BD_(\d) finite element node (\d+) rotational displacement in Z', lambda m: 'BD_B{}N{}TORS-R'.format(m[1], m[2])),
         (r'Extended input: horizontal wind speed .*', 'WS'), (r'Extended input: vertical power-law shear exponent', 'alpha'), (r'Extended input: propagation direction', 'WD'),
         (r'Blade (\d) pitch command', lambda m: 'B{}pitch'.format(m[1])), (r'Generator torque', 'Qgen'), (r'Extended input: collective blade-pitch command', 'PitchColl'), (r'Yaw moment', 'Yawmoment'),
         (r'Extended input: wave elevation at platform ref point', 'WaveElevRefPoint'),
         (r'(Tower|Blade (\d)) ([XYZ]) (force|moment), node (\d+)', lambda m: '{}{}{}N{}'.format('B' + m[2] if m[2] else 'Twr', 'F' if m[4] == 'force' else 'M', XYZ[m[3]], m[5])),
         (r'([XYZ])-component position of node (\d+)', lambda m: '{}posN{}'.format(m[1], m[2])),
         (r'([XYZ])-component inflow on blade (\d), node (\d+)', lambda m: '{}B{}N{}'.format(m[1], m[2], m[3])), (r'([XYZ])-component inflow on tower node (\d+)', lambda m: '{}TwrN{}'.format(m[1], m[2])),
         (r'([XYZ])-component inflow velocity at node (\d+)', lambda m: '{}N{}'.format(m[1], m[2])),
         (r'(Tower|Blade (\d)) ([XYZ]) (translation displacement|translation velocity|translation acceleration|orientation angle|rotation velocity|rotation acceleration), node (\d+)',
          lambda m: '{}{}{}N{}'.format('B' + m[2] if m[2] else 'Twr', {'translation displacement': 'T', 'translation velocity': 'TV', 'translation acceleration': 'TA', 'orientation angle': 'R', 'rotation velocity': 'RV', 'rotation acceleration': 'RA'}[m[4]], XYZ[m[3]], m[5])),
         (r'(Q\w+q)', lambda m: m[1])]


def short(d):
    """the documented short label of an OpenFAST description, or None"""
    nd = d.count('First time derivative of ')
    d = d.replace('First time derivative of ', '')
    m = re.fullmatch(r'(.*), (\S+)', d)
    d, u = m[1], m[2].strip('()').replace('kN-m', 'kNm').replace('N-m', 'Nm')
    pre = ''
    m = re.match(r'(ED|IfW|AD|HD|SrvD) ', d)
    if m:
        pre, d = m[1].replace('ED', '').replace('IfW', '').replace('SrvD', 'SvD'), d[m.end():]
    for pat, rep in SHORT:
        m = re.fullmatch(pat, d)
        if m:
            return ('', 'd_', 'dd_')[nd] + pre + (rep if isinstance(rep, str) else rep(m)) + '_[' + u + ']'
    return None


def table(case, L, title, descs, has):
    """operating point table; returns (values, frames, orders)"""
    rnd = case.rnd
    L += ['', title, '   Row/Column Operating Point                                    Rotating Frame? {}Description'.format('Derivative Order ' if has else ''),
          '   ---------- ---------------                                    --------------- {}-----------'.format('---------------- ' if has else '')]
    V, F, O = [], [], []
    for i, d in enumerate(descs):
        v = float('%.8E' % (rnd.choice([0.0, rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-9, 8)])))
        fr = rnd.choice(['T', 'F'])
        o = rnd.randint(0, 2)
        if 'orientation angle' in d and rnd.random() < 0.7:
            op = ', '.join('%.8E' % x for x in (v, 0.5, rnd.uniform(-1, 1)))
        else:
            op = '%.8E' % v
        L.append('{:11d}   {:<50s}      {}        {}{}'.format(i + 1, op, fr, '{}   '.format(o) if has else '', d))
        V.append(v)
        F.append(fr)
        O.append(o if has else -1)
    return V, F, O


def mat(case, L, name, n, m):
    M = case.rng.normal(size=(n, m)) * 10.0 ** case.rng.integers(-12, 12, size=(n, m))
    M[case.rng.random((n, m)) < 0.3] = 0
    T = [['%.8E' % v for v in r] for r in M]
    L.append('{}: {} x {}'.format(name, n, m))
    L += [' ' + ' '.join(v.rjust(15) for v in r) for r in T]
    return np.array(T).astype(float).reshape(n, m)


def wl_lin(case):
    from weio.fast_linearization_file import FASTLinearizationFile
    rnd = case.rnd
    nq = rnd.choice([0, 1, 2, 5, logint(rnd, 1, 40)])
    q = rnd.sample(xpool(rnd), nq)
    x = q + [deriv(d) for d in q]
    nu = rnd.choice([0, 1, 9, logint(rnd, 1, 120)])
    ny = rnd.choice([0, 1, 16, min(nu, 60), logint(rnd, 1, 80)])
    u = rnd.sample(upool(), nu)
    yp = ypool(rnd)
    y = rnd.sample(yp, min(ny, len(yp)))
    nx, nu, ny = len(x), len(u), len(y)
    has = rnd.random() < 0.5
    az, rs, ws = [0.0 if rnd.random() < 0.15 else float(('%.4f' if rnd.random() < 0.7 else '%.9f') % rnd.uniform(*r)) for r in ((0, 6), (0, 2), (3, 25))]
    hasws, hasrot = rnd.random() < 0.6, rnd.random() < 0.85
    jac = rnd.random() < 0.4
    L = ['', 'Linearized model: Predictions were generated on 16-Feb-2020 at 10:36:41 using OpenFAST', ' linked with  NWTC Subroutine Library; ElastoDyn; InflowWind', '', 'Description from the FAST input file: some text', '',
         'Simulation information:', '   Simulation time:                   100.0000 s']
    if hasrot:
        L += ['   Rotor Speed:                         {} rad/s'.format(rs), '   Azimuth:                             {} rad'.format(az)]
    if hasws:
        L += ['   Wind Speed:                          {} m/s'.format(ws)]
    L += ['   Number of continuous states:     {:5d}'.format(nx), '   Number of discrete states:           0', '   Number of constraint states:         0', '   Number of inputs:  {:5d}'.format(nu), '   Number of outputs: {:5d}'.format(ny),
          '   Jacobians included in this file?    {}'.format('Yes' if jac else 'No')]
    exp = {}
    if nx:
        exp['x'] = (table(case, L, 'Order of continuous states:', x, has), x)
        xd = ['First time derivative of ' + d for d in x]
        exp['xdot'] = (table(case, L, 'Order of continuous state derivatives:', xd, has), xd)
    if nu:
        exp['u'] = (table(case, L, 'Order of inputs:', u, False), u)
    if ny:
        exp['y'] = (table(case, L, 'Order of outputs:', y, False), y)
    L += ['', '']
    mats = {}
    edm = rnd.random() < 0.3
    if edm:
        n = rnd.choice([24, 24, 22, 20, 1, 27])
        L.append('ED M:' + '     '.join('{}_{}'.format(i + 1, d) for i, d in enumerate((EDM + ['TeetDOF', 'PtfmXDOF', 'BlPDOF'])[:n])))
        mats['M'] = mat(case, [], 'M', n, n)
        L += ['  ' + '  '.join('%.8E' % v for v in r) for r in mats['M']] + ['']
        names = ['{}_{}'.format(i + 1, d) for i, d in enumerate((EDM + ['TeetDOF', 'PtfmXDOF', 'BlPDOF'])[:n])]
    if jac:
        L += ['Jacobian matrices:', '']
        if nu:
            mats['dUdu'] = mat(case, L, 'dUdu', nu, nu)
            if ny:
                mats['dUdy'] = mat(case, L, 'dUdy', nu, ny)
        L.append('')
    L += ['Linearized state matrices:', '']
    if nx:
        mats['A'] = mat(case, L, 'A', nx, nx)
        if nu:
            mats['B'] = mat(case, L, 'B', nx, nu)
    if ny and nx:
        mats['C'] = mat(case, L, 'C', ny, nx)
    if ny and nu:
        mats['D'] = mat(case, L, 'D', ny, nu)
    fn = case.write('t.1.lin', rnd.choice(['\n', '\n', '\r\n']).join(L) + '\n')
    f = case.call('FASTLinearizationFile', FASTLinearizationFile, fn)
    case.check(f['Azimuth'] == (az if hasrot else None) and f['RotSpeed'] == (rs if hasrot else None) and f['WindSpeed'] == (ws if hasws else None), 'header',
               'azimuth {} speed {} wind {} expected {} {} {}'.format(f['Azimuth'], f['RotSpeed'], f['WindSpeed'], az, rs, ws))
    lab = {}
    for k, ((V, F, O), D) in exp.items():
        if not case.check(k in f.keys() and k + '_info' in f.keys(), 'section', '{} is missing'.format(k)):
            continue
        m = arr_close(np.asarray(f[k], float), np.array(V), rtol=1e-14)
        case.check(m is None, 'operating-point', '{}: {}'.format(k, m))
        info = f[k + '_info']
        case.check([d for d in info['Description']] == D, 'descriptions', lambda: '{}: {}'.format(k, [z for z in zip(info['Description'], D) if z[0] != z[1]][:2] or len(info['Description'])))
        case.check(list(info['RotatingFrame']) == F, 'frames', '{}: {} expected {}'.format(k, info['RotatingFrame'][:5], F[:5]))
        case.check(list(info['DerivativeOrder']) == O, 'orders', '{}: {} expected {}'.format(k, info['DerivativeOrder'][:5], O[:5]))
        lab[k] = case.call(k + 'descr', getattr(f, k + 'descr'))
        case.check(len(lab[k]) == len(D), 'labels', '{}: {} labels for {} entries'.format(k, len(lab[k]), len(D)))
        dup = [l for l in set(lab[k]) if lab[k].count(l) > 1]
        bad = [(l, short(d)) for l, d in zip(lab[k], D) if (short(d) or l).lower() != l.lower()]  # channel names may have their case normalised (FX, Fx)
        case.check(not bad, 'label-text', lambda: '{}: {} for {}'.format(k, bad[0][0], bad[0][1]))
        case.check(not dup, 'labels-unique', lambda: '{}: {} for {}'.format(k, dup[0], [d for d, l in zip(D, lab[k]) if l == dup[0]][:3]))
    for k in ('x', 'xdot', 'u', 'y'):
        case.check(k in exp or (k not in f.keys() and list(getattr(f, k + 'descr')()) == []), 'absent-section', '{} in the object, not in the file'.format(k))
        lab.setdefault(k, [])
    got = {k for k in f.keys() if k in ('A', 'B', 'C', 'D', 'M', 'dUdu', 'dUdy')}
    case.check(got == set(mats), 'matrices', '{} expected {}'.format(sorted(got), sorted(mats)))
    d = case.call('toDataFrame', f.toDataFrame)
    rows = dict(A='x', B='x', C='y', D='y', dUdu='u', dUdy='u')
    cols = dict(A='x', B='u', C='x', D='u', dUdu='u', dUdy='y')
    case.check(set(d) == set(mats) | set(exp), 'frame-keys', '{} expected {}'.format(sorted(d), sorted(set(mats) | set(exp))))
    for k, M in mats.items():
        if k not in f.keys() or k not in d:
            continue
        m = arr_close(np.asarray(f[k], float), M, rtol=1e-14)
        case.check(m is None, 'matrix', '{}: {}'.format(k, m))
        m = arr_close(d[k].values, M, rtol=1e-14)
        case.check(m is None, 'frame', '{}: {}'.format(k, m))
        r, c = (names, names) if k == 'M' else (lab[rows[k]], lab[cols[k]])
        case.check(list(d[k].index) == list(r) and list(d[k].columns) == list(c), 'frame-labels', '{}: rows/columns not in the order of the file'.format(k))
    for k, ((V, F, O), D) in exp.items():
        if k in d:
            m = arr_close(d[k].values[0], np.array(V), rtol=1e-14)
            case.check(d[k].shape == (1, len(V)) and m is None and list(d[k].columns) == list(lab[k]), 'frame-op', '{}: {}'.format(k, m))
    fault = None
    if mats and rnd.random() < 0.3:
        # a matrix of other size than stated is refused, by the reader or by the frames
        fault = rnd.choice(['row', 'value', 'cut'])
        k = rnd.choice(sorted(mats))
        i0 = [i for i, l in enumerate(L) if l.strip().startswith('ED M:' if k == 'M' else k + ':')][0]
        j = i0 + 1 + rnd.randrange(len(mats[k]))
        B = list(L)
        if fault == 'row':
            del B[j]
        elif fault == 'value':
            B[j] = ' '.join(B[j].split()[:-1])
        else:
            B = B[:j]
        r = case.attempt('read', lambda: FASTLinearizationFile(case.write('bad.lin', '\n'.join(B) + '\n')).toDataFrame())
        case.check(isinstance(r, Raised), 'fault', 'matrix {} with a fault ({}) accepted'.format(k, fault))
    case.sig(nx, nu, ny, has, jac, edm, hasws, fault)
    case.desc = dict(states=nx, inputs=nu, outputs=ny, derivative_order=has, jacobians=jac, mass=edm)


WORKLOADS = [Workload('lin', wl_lin, 6000, 80000)]
