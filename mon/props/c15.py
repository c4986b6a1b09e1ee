"""C15: FLEX files are decoded exactly."""
import os, struct
import numpy as np
from ..core import Workload, Raised
from ..compare import arr_close
from ..gen.util import names as mknames, logint

TECHNIQUE = 'runtime monitoring: FLEX files of each kind and version are encoded by independent reference encoders, decoded by the library, and every number, name and table of the live object is compared with what was encoded'
RULE = 'A case is one encoded file (result, blade, profile, wave kinematics, documentation) with random sizes, values, names and layout; distinct by (kind, version, sizes, layout).'
ASSUME = ['Result files: versions 0, 2 and 3; the date block has a plausible date; names and units without blanks.',
          'Wave kinematics with one displacement; documentation values are numbers followed by units, or text which does not start with a number.']


def num(rnd, fmt=None):
    """(text, value)"""
    v = rnd.choice([0.0, rnd.uniform(-10, 10), rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-12, 13), float(rnd.randint(-999, 999))])
    t = (fmt or rnd.choice(['%.4f', '%.3E', '%.10e', '%g', '%15.7e', '%d', '%d.'])) % v
    return t.strip(), float(t)


# --------------------------------------------------------------------------------------- results
def wl_out(case):
    from weio.flex_out_file import FLEXOutFile
    rnd, rng = case.rnd, case.rng
    ns = logint(rnd, 1, 60)
    nt = rnd.choice([1, 2, 3, 10, 11, logint(rnd, 1, 3000)])
    ver = rnd.choice([0, 2, 3])
    tmin = rnd.choice([0.0, 0.02, 0.1, 10.0, 600.0, -10.0, -0.5, round(rnd.uniform(0, 700), 3)])
    dt = rnd.choice([0.01, 0.02, 0.025, 0.04, 0.05, 0.1, 0.2, 1.0, round(rnd.uniform(0.001, 1), 4)])
    scale = np.array([rnd.choice([1.0, 10.0 ** rnd.uniform(-8, 6), 0.0]) for _ in range(ns)]).astype('<f4')
    raw = rng.integers(-32000, 32001, size=(nt, ns)).astype('<i2')
    if rnd.random() < 0.2:
        raw[0, :] = 32767
        raw[-1, :] = -32768
    date = rnd.random() < 0.5
    title = ' '.join(mknames(rnd, rnd.randint(1, 3), 8))[:36]
    b = struct.pack('<i', rnd.choice([0, 72]))
    if date:
        b += struct.pack('<6i', rnd.randint(1, 31), rnd.randint(1, 12), rnd.randint(1, 2100), rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59)) + title.ljust(40).encode()
    else:
        b += struct.pack('<i', 0) + title.ljust(60).encode()
    b += struct.pack('<ii', 72, 4 * ns) + struct.pack('<i', ns) + np.arange(1, ns + 1, dtype='<i4').tobytes() + struct.pack('<i', 4 * ns)
    b += struct.pack('<i', ver) + struct.pack('<ff', tmin, dt) + scale.tobytes()
    b += (raw.T if ver == 3 else raw).tobytes()
    ext = rnd.choice(['.res', '.int'])
    fn = case.write('r' + ext, b)
    sens = rnd.random() < 0.6
    names = ['S{:04d}'.format(i + 1) for i in range(ns)]
    units = ['NA'] * ns
    if sens:
        names = mknames(rnd, ns, rnd.choice([8, 8, 16]))
        units = [rnd.choice(['m', 'kNm', 'm/s', '-', 'deg', '1/min', 'm/s^2', 'kN.m']) for _ in range(ns)]
        L = ['Sensor list for file', ' No   forst  offset  korr. c  Volt    Unit   Navn    Beskrivelse------------']
        br = rnd.choice(['{}', '({})', '[{}]'])
        for i in range(ns):
            L.append('{:3d}  {:.3f}   {:.3f}      1.00     0.00 {:>7s} {:8s} {}'.format(i + 1, 1.0, 0.0, br.format(units[i]), names[i], rnd.choice(['', 'some text here', 'x', 'Vindm\udce5ling 3 \udcb0', 'M\u00e5ling \u03b1'])))
        case.write('sensor', '\n'.join(L) + rnd.choice(['\n', '']))
    f = case.call('FLEXOutFile', FLEXOutFile, fn)
    how = rnd.choice(['path', 'path', 'path', 'again', 'bare'])
    if how == 'again':
        # an object which held other results, with their own sensors
        case.write('before/r.res', struct.pack('<ii', 0, 0) + b'before'.ljust(60) + struct.pack('<iii', 72, 4 * ns, ns) + bytes(4 * ns + 4) + struct.pack('<iff', 0, 5.0, 2.0) + np.ones(ns, '<f4').tobytes() + bytes(2 * ns * 3))
        case.write('before/sensor', 'a\nb\n' + ''.join(' {} 1.0 0.0 1.0 0.0 kg Before{} gone\n'.format(i + 1, i) for i in range(ns)))
        f = FLEXOutFile(case.path('before/r.res'))
        case.call('toDataFrame', f.toDataFrame)
        case.call('read', f.read, fn)
    elif how == 'bare':
        here = os.getcwd()
        os.chdir(os.path.dirname(fn))
        try:
            f = case.call('FLEXOutFile', FLEXOutFile, os.path.basename(fn))
        finally:
            os.chdir(here)
    df = case.call('toDataFrame', f.toDataFrame)
    cols = ['Time_[s]'] + ['{}_[{}]'.format(n, u) for n, u in zip(names, units)]
    case.check(list(df.columns) == cols, 'columns', lambda: '{} expected {}'.format([c for c in zip(df.columns, cols) if c[0] != c[1]][:3] or len(df.columns), len(cols)))
    if case.check(df.shape == (nt, ns + 1), 'shape', '{} expected {}'.format(df.shape, (nt, ns + 1))):
        exp = raw.astype(float) * scale.astype(float)
        m = arr_close(df.values[:, 1:], exp, rtol=3e-7)
        case.check(m is None, 'values', m)
        t = np.float64(np.float32(tmin)) + np.arange(nt) * np.float64(np.float32(dt))
        m = arr_close(df.values[:, 0], t, rtol=3e-7, atol=3e-7 * max(dt, 1e-3))
        case.check(m is None, 'time', m)
    got = f.title if isinstance(f.title, str) else f.title.decode()
    case.check(got.strip() == title.strip(), 'title', '{!r} expected {!r}'.format(got, title))
    case.check(f.Version == ver and f.nSensors == ns and f.nt == nt, 'header', '{}'.format((f.Version, f.nSensors, f.nt)))
    if sens and ns > 1 and rnd.random() < 0.3:
        # sensor list which does not belong to the file
        with open(case.path('sensor'), 'w', encoding='utf-8', errors='surrogateescape') as fid:
            k = rnd.choice([-1, 1])
            fid.write('\n'.join(L[:-1] if k < 0 else L + ['{:3d}  1.000   0.000      1.00     0.00 kN Surplus more'.format(ns + 1)]) + '\n')
        r = case.attempt('FLEXOutFile', FLEXOutFile, fn)
        case.check(isinstance(r, Raised), 'sensor-count', 'a sensor list with {} sensors is accepted for {} sensors'.format(ns + k, ns))
    if ns > 1 and rnd.random() < 0.2:
        # data which end in the middle of a record
        with open(case.path('cut' + ext), 'wb') as fid:
            fid.write(b[:-2 * rnd.randint(1, ns - 1)])
        r = case.attempt('FLEXOutFile', FLEXOutFile, case.path('cut' + ext))
        case.check(isinstance(r, Raised), 'partial-record', 'data which end within a record are accepted')
    if rnd.random() < 0.1:
        # a version which the library does not know
        k = 4 * (21 + ns)
        assert b[k:k + 4] == struct.pack('<i', ver)
        v = rnd.choice([1, 4, 11, -1, 12, 100])
        r = case.attempt('FLEXOutFile', FLEXOutFile, case.write('v' + ext, b[:k] + struct.pack('<i', v) + b[k + 4:]))
        case.check(isinstance(r, Raised), 'version', 'version {} is accepted'.format(v))
    case.sig('out', ver, date, sens, ns, nt, dt)
    case.desc = dict(version=ver, date=date, sensors=ns, steps=nt, dt=dt, list=sens)


# --------------------------------------------------------------------------------------- blades
BCOLS = ['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'GKt_[Nm2]', 'Mass_[kg/m]', 'Jxx_[kg.m]', 'PreBendFlap_[m]', 'PreBendEdge_[m]', 'Str.Twist_[deg]', 'PhiOut_[deg]', 'Ycog_[m]', 'Yshc_[m]', 'CalcOutput_[0/1]',
         'Chord_[m]', 'AeroTwist_[deg]', 'RelThickness_[%]', 'AeroCenter_[m]', 'AeroTorsion_[0/1]', 'ProfileSet_[#]']
BS = {0: ['r', 'EIFlap', 'EIEdge', 'Mass', 'Str.Twist', 'CalcOutput', 'PreBendFlap', 'PreBendEdge']}
BS[1] = BS[0]
BS[2] = BS[0] + ['GKt']
BS[3] = ['r', 'EIFlap', 'EIEdge', 'GKt', 'Mass', 'Jxx', 'PreBendFlap', 'PreBendEdge', 'Str.Twist', 'PhiOut', 'Ycog', 'Yshc', 'CalcOutput']
BA = {0: ['Chord', 'AeroTwist', 'RelThickness', 'AeroCenter']}
BA[1] = BA[0] + ['AeroTorsion']
BA[2] = BA[3] = BA[1] + ['ProfileSet']


def wl_blade(case):
    from weio.flex_blade_file import FLEXBladeFile
    rnd = case.rnd
    ver = rnd.choice([0, 1, 2, 3])
    n = logint(rnd, 1, 60)
    sep = rnd.choice(['\t', ' ', '   ', ' \t '])
    L = [rnd.choice(['', 'some blade', 'Comment ', 'a b c d']) if ver == 0 else '#00{} {}'.format(ver, rnd.choice(['', 'Comment']))]
    L.append('{}{}'.format(n, rnd.choice(['', ' r[m] EI_Flp[Nm2] EI_Edg[Nm2] Mass_[kg/m]'])))
    S = [[num(rnd) for _ in BS[ver]] for _ in range(n)]
    A = [[num(rnd) for _ in BA[ver]] for _ in range(n)]
    ind = rnd.choice(['', '  '])
    for r in S:
        L.append(ind + sep.join(t for t, _ in r))
    beta = num(rnd)
    L.append(beta[0] + rnd.choice(['', '  ! If BetaC<0 use section pitch angles']))
    if ver == 3:
        L.append('#LOGD')
        D = [[num(rnd) for _ in range(rnd.choice([1, 4, 10]))] for _ in range(3)]
        for d, lab in zip(D, ('Flapwise', 'Edgewise', 'Torsion')):
            L.append(' '.join(t for t, _ in d) + rnd.choice(['  ; {} LOGD'.format(lab), '']))
        L += ['#AERO', '; X[m]  C[m]  Beta[deg] t/C[%] Yac/C[-]']
    else:
        d = [num(rnd) for _ in range(4)]
        D = [d[:2], d[2:], []]
        L.append(' '.join(t for t, _ in d) + rnd.choice(['', '  0.1 damping']))
    for r, a in zip(S, A):
        L.append(ind + sep.join([r[0][0]] + [t for t, _ in a]))
    prof = rnd.choice(['data/ProfileFile.pro', 'Profile 1.pro', 'p.pro'])
    L += [prof, rnd.choice(['99999.00', ''])]
    fn = case.write('b' + rnd.choice(['.bld', '.bla']), '\n'.join(L) + '\n')
    f = case.call('FLEXBladeFile', FLEXBladeFile, fn)
    df = case.call('toDataFrame', f.toDataFrame)
    case.check(list(df.columns) == BCOLS, 'columns', '{}'.format(list(df.columns)))
    exp = {}
    for j, c in enumerate(BS[ver]):
        exp[c] = [r[j][1] for r in S]
    for j, c in enumerate(BA[ver]):
        exp[c] = [r[j][1] for r in A]
    for c in BCOLS:
        k = c.split('_[')[0]
        g = df[c].values.astype(float)
        if k in exp:
            m = arr_close(g, np.array(exp[k]), rtol=1e-13)
        else:
            m = None if len(g) == n and np.all(np.isnan(g)) else 'absent column has values {}'.format(g[:3])
        case.check(m is None, 'values', '{}: {}'.format(c, m))
    case.check(f.BetaC == beta[1], 'beta', '{} expected {}'.format(f.BetaC, beta[1]))
    for a, b, lab in zip((f.FlapDamping, f.EdgeDamping, f.TorsDamping), D, ('flap', 'edge', 'torsion')):
        case.check(list(a) == [v for _, v in b], 'damping', '{}: {} expected {}'.format(lab, a, b))
    case.check(f.ProfileFile == prof, 'profile-file', '{!r} expected {!r}'.format(f.ProfileFile, prof))
    fault = rnd.choice([None, None, 'aero-row', 'struct-row', 'word'])
    if fault:
        ia = [i for i, l in enumerate(L) if l == ind + sep.join([S[-1][0][0]] + [t for t, _ in A[-1]])][-1]
        B = list(L)
        j = rnd.randrange(n)
        if fault == 'struct-row':
            B[2 + j] = ind + sep.join(t for t, _ in S[j][:-1])
        elif fault == 'word':
            B[2 + j] = ind + sep.join([t for t, _ in S[j][:-1]] + ['x1'])
        else:
            B[ia - n + 1 + j] = ind + sep.join([S[j][0][0]] + [t for t, _ in A[j][:-1]])
        r = case.attempt('FLEXBladeFile', FLEXBladeFile, case.write('bad.bld', '\n'.join(B) + '\n'))
        case.check(isinstance(r, Raised), 'fault', 'blade with a faulty row ({}, version {}) accepted'.format(fault, ver))
    case.sig('blade', ver, n, sep, fault)
    case.desc = dict(version=ver, sections=n)


# --------------------------------------------------------------------------------------- profiles
def wl_profile(case):
    from weio.flex_profile_file import FLEXProfileFile
    rnd, rng = case.rnd, case.rng
    nsets = rnd.choice([1, 1, 2, 3, 5])
    has = nsets > 1 or rnd.random() < 0.6
    L, sets = [], []
    for i in range(nsets):
        nth = rnd.randint(1, 5)
        th = sorted(rnd.sample([12.0, 15.0, 18.0, 21.5, 24.0, 30.25, 40.0, 57.0, 100.0, 0.0], nth))
        if rnd.random() < 0.2:
            th = th[::-1]
        na = logint(rnd, 1, 60)
        com = rnd.choice(['', 'Comment', 'some profiles 3', 'Vinge \udce6\udcf8', '\u00e5 5\u00b0'])
        head = '{}: {}'.format(i + 1, com).strip() if has else (com or 'Profiles')
        L.append((rnd.choice(['PROFILE SET ', 'Profile set ']) if has else '') + head)
        L.append(str(nth))
        L.append(rnd.choice([' ', '\t']).join('%.2f' % t for t in th))
        L.append(str(na) + rnd.choice(['', '\t\t']))
        pol, heads = [], []
        for t in th:
            h = 'Profile {} AOA Cl Cd Cm {}%'.format(len(pol) + 1, t) + rnd.choice(['', '', ' ' + 'long description of the polar ' * 3 + 'end']) + rnd.choice(['', '', '', ' [\udcb0]', ' [\u00b0]'])
            heads.append(h)
            L.append(h + rnd.choice(['', '  ']))
            T = [['%.7E' % v for v in [a] + list(rng.normal(size=3) * 10.0 ** rnd.randint(-3, 1))] for a in np.sort(rng.uniform(-180, 180, na))]
            sep = rnd.choice([' ', '\t', '  '])
            for r in T:
                L.append(sep.join(r))
            pol.append(np.array(T).astype(float))
        sets.append((head, th, heads, pol))
    fn = case.write('p.pro', '\n'.join(L) + rnd.choice(['\n', '']))
    f = case.call('FLEXProfileFile', FLEXProfileFile, fn)
    cols = ['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]']

    def judge(f, tag):
        if not case.check(len(f.ProfileSets) == nsets, tag + 'sets', '{} sets expected {}'.format(len(f.ProfileSets), nsets)):
            return
        exp = []
        for i, (ps, (head, th, heads, pol)) in enumerate(zip(f.ProfileSets, sets)):
            case.check(ps.header.strip() == head, tag + 'header', '{!r} expected {!r}'.format(ps.header, head))
            case.check(list(ps.thickness) == th, tag + 'thickness', '{} expected {}'.format(ps.thickness, th))
            case.check(list(ps.polar_headers) == heads, tag + 'polar-headers', '{} expected {}'.format(ps.polar_headers, heads))
            if not case.check(len(ps.polars) == len(pol), tag + 'polars', '{} expected {}'.format(len(ps.polars), len(pol))):
                continue
            for t, a, b in zip(th, ps.polars, pol):
                m = arr_close(np.asarray(a), b, rtol=1e-13)
                case.check(m is None, tag + 'values', 'set {} thickness {}: {}'.format(i + 1, t, m))
                exp.append(('pc_set_{}_t_{}'.format(i + 1, t), b))
        d = case.call('toDataFrame', f.toDataFrame)
        d = d if isinstance(d, dict) else {exp[0][0]: d}
        if case.check(list(d) == [e[0] for e in exp], tag + 'frames', '{} expected {}'.format(list(d), [e[0] for e in exp])):
            for n, b in exp:
                m = arr_close(d[n].values, b, rtol=1e-13)
                case.check(m is None and list(d[n].columns) == cols, tag + 'frame-values', '{}: {} {}'.format(n, m, list(d[n].columns)))
    judge(f, '')
    case.call('write', f.write, case.path('w.pro'))
    judge(f, 'after-write-')
    if has:
        W = [' '.join(l.lower().split()) for l in open(case.path('w.pro'), encoding='utf-8', errors='surrogateescape').read().splitlines()]
        lost = [h for h, _, _, _ in sets if ' '.join(('profile set ' + h).lower().split()) not in W]
        case.check(not lost, 'written-set-lines', 'no line "Profile set {}" in the written file'.format(lost[:1]))
    judge(case.call('FLEXProfileFile', FLEXProfileFile, case.path('w.pro')), 'reread-')
    fault = rnd.choice([None, 'thickness+', 'thickness-', 'row-', 'row+'])
    if fault:
        B = list(L)
        if fault[-1] in '+-' and fault[0] == 't':
            B[2] = B[2] + ' 61.00' if fault[-1] == '+' else ' '.join(B[2].split()[:-1])
        else:
            j = 5 + rnd.randrange(len(sets[0][3][0]))
            B[j] = B[j] + ' 1.0' if fault[-1] == '+' else ' '.join(B[j].split()[:-1])
        r = case.attempt('FLEXProfileFile', FLEXProfileFile, case.write('bad.pro', '\n'.join(B) + '\n'))
        case.check(isinstance(r, Raised), 'fault', 'profile file with fault {} accepted'.format(fault))
    case.sig('profile', nsets, has, tuple(len(s[1]) for s in sets), fault)
    case.desc = dict(sets=nsets, polars=[len(s[1]) for s in sets])


# --------------------------------------------------------------------------------------- waves
def wl_wavekin(case):
    from weio.flex_wavekin_file import FLEXWaveKinFile
    rnd, rng = case.rnd, case.rng
    nz = rnd.randint(1, 20)
    z = sorted(rnd.sample(range(0, 101), nz))
    z = [k / 100 for k in z]
    if rnd.random() < 0.5:
        z = z[::-1] if rnd.random() < 0.5 else rnd.sample(z, nz)
    depth = float(rnd.randint(10, 90))
    x = round(rnd.uniform(-50, 50), 2)
    nt = logint(rnd, 2, 200)
    D = np.column_stack([np.arange(nt) * 0.25, rng.normal(size=(nt, 1 + 2 * nz)) * 5])
    fmt = rnd.choice(['%7.2f', '%8.3f', '%12.4e'])
    T = [[fmt % v for v in r] for r in D]
    D = np.array(T).astype(float)
    c, u, a, hs, tp = [round(rnd.uniform(0, 30), 3) for _ in range(5)]
    st = rnd.randint(1, 20)
    def w(v, fmt='{:.3f}'):
        # one of the ways a program writes that number
        t = fmt.format(v)
        k = rnd.random()
        if k < 0.1 and t.startswith('0.'):
            return t[1:]
        if k < 0.2:
            return '{:.6e}'.format(v) if rnd.random() < 0.5 else '{:.6E}'.format(v)
        return t
    L = ['Wave kinematics', ' 3', 'CrestHeightMax   {} m'.format(w(c)), 'LongitudinalVelocityMax      {} m/s'.format(w(u)), 'LongitudinalAccelerationMax  {} m/s^2'.format(w(a)),
         '  {}   {}    {}     {}    Water Depth/Hs/Tp/spectype'.format(w(depth, '{:.2f}'), w(hs), w(tp), st), ' 1     Number of displacements', '   {:.2f}'.format(x), '{}     Number of Relative Depths'.format(nz),
         '  ' + '  '.join(w(v) for v in z), ' t  [eta  u_1..u_nDepths  a_1..a_nDepths](x,t) * nDisplacements']
    L += ['  ' + '  '.join(r) for r in T]
    fn = case.write('w.wko', '\n'.join(L) + '\n')
    f = case.call('FLEXWaveKinFile', FLEXWaveKinFile, fn)
    for k, v in (('MaxCrestHeight', c), ('MaxLongiVel', u), ('MaxLongiAcc', a), ('WaterDepth', depth), ('Hs', hs), ('Tp', tp), ('SpecType', st)):
        case.check(f[k] == v, 'header', '{}: {} expected {}'.format(k, f[k], v))
    case.check(list(f['RelDepth']) == z, 'depths', '{} expected {}'.format(f['RelDepth'], z))
    case.check(list(f['Displacements']) == [x], 'displacement', '{} expected {}'.format(f['Displacements'], x))
    df = case.call('toDataFrame', f.toDataFrame)
    cols = ['Time_[s]', 'WaveElev_[m]'] + ['u_z={:.1f}_x={:.1f}_[m/s]'.format(v * depth * -1, x) for v in z] + ['a_z={:.1f}_x={:.1f}_[m/s^2]'.format(v * depth, x) for v in z]
    case.check(list(df.columns) == cols, 'columns', '{}'.format(list(df.columns)))
    if case.check(df.shape == D.shape, 'shape', '{} expected {}'.format(df.shape, D.shape)):
        m = arr_close(df.values.astype(float), D, rtol=1e-13)
        case.check(m is None, 'values', m)
    if nz > 1:
        L[8] = '{}     Number of Relative Depths'.format(nz + rnd.choice([-1, 1]))
        fn = case.write('bad.wko', '\n'.join(L) + '\n')
        r = case.attempt('FLEXWaveKinFile', FLEXWaveKinFile, fn)
        case.check(isinstance(r, Raised), 'depth-count', 'wrong number of depths accepted')
    case.sig('wavekin', nz, nt, fmt)
    case.desc = dict(depths=nz, steps=nt)


# --------------------------------------------------------------------------------------- documentation
UNITS = ['', ' [m]', ' [m] at 3.5 deg', ' (2 values, 10 m apart)', ' kg 7', ' [kgm2] [IXNAV]', ' [Nm2]', ' [kg.m2] (Ref. point T, H=0)', ' [m/s2]', ' [-]', ' (1 if inputs present in tower file)', ' [deg] [GAMMA]']
TEXTS = ['general', 'data/TubeLight1.twr', '.\\MT100.inf', 'Flex_Monopile\\-data\\Tube.gen', 'some words here', 'v2.1beta', '1m tower, light']
KEYS = ['Mass', 'Length', 'nDOF', 'RotorConing', 'RTI-V', 'MassMomentInertiaIy_atK', 'IsolatedFreq_DOF1_Mode_2', 'A_B_C_D', 'Couplings_AlphaY', 'Freq', 'TopMass', 'File', 'ModelName', 'Comment']
GROUPS = ['Tower', 'Blade', 'Foundation', 'RNA', 'Hub', 'Rotor', 'Environment', 'Input', 'Sim', 'Geometry']
NOHEAD = ['Blade_IsolatedMassMatrix', 'Blade_IsolatedStiffnessMatrix', 'Blade_IsolatedDampingMatrix', 'Foundation_IsolatedMassMatrix', 'Foundation_IsolatedStiffnessMatrix', 'Tower_MassMatrix',
          'Tower_IsolatedMassMatrix', 'Tower_IsolatedDampingMatrix', 'EVA_MassMatrix', 'EVA_Eigenvectors', 'EVA_Eigenfrequencies', 'EVA_Damping', 'EVA_LogDec', 'EVA_StiffnessMatrix', 'EVA_DampingMatrix', 'EVA_Eigenvalues', 'Tower_IsolatedStiffnessMatrix', 'Tower_IsolatedStiffnessMatrixCorrection',
          'Foundation_IsolatedStiffnessMatrixCorrection', 'Foundation_IsolatedDampingMatrix']
HEAD = ['Tower_SectionData', 'Foundation_SectionData'] + ['Tower_ShapeFunction_DOF{}_Shape'.format(k) for k in range(1, 9)] + ['Foundation_ShapeFunction_DOF{}_Shape'.format(k) for k in (1, 2)] + ['Blade_ShapeFunction_DOF{}_Shape'.format(k) for k in range(1, 11)]


def wl_doc(case):
    from weio.flex_doc_file import FLEXDocFile
    rnd = case.rnd
    blocks, exp, singles, frames, seen = [], {}, {}, {}, set()
    for _ in range(rnd.randint(3, 25)):
        k = rnd.choice(['scalar', 'scalar', 'vector', 'text', 'matrix', 'table', 'table', 'single', 'mode'])
        if k in ('scalar', 'vector', 'text'):
            g, n = rnd.choice(GROUPS), rnd.choice(KEYS)
            if (g, n) in seen:
                continue
            seen.add((g, n))
            if k == 'text':
                v = rnd.choice(TEXTS)
                blocks.append(['#{}_{}   {}'.format(g, n, v)])
            else:
                vs = [num(rnd) for _ in range(1 if k == 'scalar' else rnd.randint(2, 6))]
                blocks.append(['#{}_{}   {}{}'.format(g, n, '  '.join(t for t, _ in vs), rnd.choice(UNITS))])
                v = vs[0][1] if k == 'scalar' else np.array([b for _, b in vs])
            exp[(g, n)] = v
        elif k == 'single':
            n = rnd.choice(['WTGName', 'BaseName', 'CurDir', 'OutDir'])
            if n in singles:
                continue
            v = rnd.choice(TEXTS)
            singles[n] = v
            blocks.append(['#{} {}'.format(n, v)])
        elif k == 'mode':
            if ('Global', 'Mode1_Shape') in seen:
                continue
            seen.add(('Global', 'Mode1_Shape'))
            nr = rnd.randint(1, 30)
            T = [['%.3E' % (rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-9, 3)) for _ in range(3)] for _ in range(nr)]
            lab = sorted(rnd.choice(['Fnd', 'Twr', 'COG']) for _ in T)
            blocks.append(['#Global_Mode1_Shape (Extracted to RNA COG)', '       x_SB   Lat1_(1)   Long1_(2)'] + [a + '  ' + ' '.join(r) for a, r in zip(lab, T)])
            exp[('Global', 'Mode1_Shape')] = frames['Global_Mode1_Shape'] = (['H_[m]', 'U_FA_[-]', 'U_SS_[]'], np.array(T).astype(float))
        elif k == 'matrix':
            q = rnd.choice(NOHEAD)
            g, n = q.split('_', 1)
            if (g, n) in seen:
                continue
            seen.add((g, n))
            nr, nc = rnd.choice([rnd.randint(1, 10), 80]), rnd.choice([rnd.randint(1, 10), 70])
            T = [['%.3E' % (rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-9, 12)) for _ in range(nc)] for _ in range(nr)]
            blocks.append(['#' + q + rnd.choice(['', ' (Tower system)', ' '])] + ['  ' + ' '.join(r) for r in T] + ([''] if rnd.random() < 0.4 else []))
            exp[(g, n)] = np.array(T).astype(float)
        else:
            q = rnd.choice(HEAD)
            g, n = q.split('_', 1)
            if (g, n) in seen:
                continue
            seen.add((g, n))
            nr, nc = rnd.choice([rnd.randint(1, 30), 120]), rnd.randint(2, 9)
            T = [['%.3E' % (rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-9, 12)) for _ in range(nc)] for _ in range(nr)]
            h = [x + rnd.choice(['q', 'n', 'on', 'rough']) for x in mknames(rnd, nc, 5)]
            un = [rnd.choice(['m', 'kg/m', 'Nm2', '-', 'rad/m']) for _ in h]
            blank = rnd.choice(['', ' '])
            cols = ['{}_[{}]'.format(a, b) for a, b in zip(h, un)]
            head = rnd.choice(['', '{}   '.format(nr)])
            style = rnd.choice(['units', 'units', 'none', 'rough'])
            if style == 'none':      # no units at all
                head, cols = head + '   '.join(h), h
            elif style == 'rough':   # the two columns FLEX leaves without unit
                j = rnd.randrange(1, nc)
                h[j], cols[j] = rnd.choice([('rough', 'rough_[-]'), ('n', 'n_[-]')])
                if j == nc - 1 and h[j] == 'n':
                    h[j], cols[j] = 'rough', 'rough_[-]'
                head += '    '.join(a if i == j else a + blank + '[' + b + ']' for i, (a, b) in enumerate(zip(h, un)))
            else:
                head += '    '.join(a + blank + '[' + b + ']' for a, b in zip(h, un))
            blocks.append(['#' + q + rnd.choice(['', ' (Unit displacement at point K)']), '  ' + head] + ['  ' + ' '.join(r) for r in T] + ([''] if rnd.random() < 0.4 else []))
            exp[(g, n)] = frames[g + '_' + n] = (cols, np.array(T).astype(float))
    L = ['#Program  Flex5']
    for b in blocks:
        if rnd.random() < 0.2:
            L.append(rnd.choice(['#' * 40, '### START TOWER DATA', '']))
        L += b
    fn = case.write('d' + rnd.choice(['.out', '.doc']), rnd.choice(['\n', '\r\n']).join(L) + '\n')
    f = case.call('FLEXDocFile', FLEXDocFile, fn)
    if rnd.random() < 0.2:  # the object reads another file, and the first again
        other = case.write('o.out', '#Program  Flex5\n#Other_Entry 3.5 [m]\n#Tower_Mass 1 2 3\n#OtherName text\n')
        case.call('read', f.read, other)
        case.check(set(f.keys()) == {'Program', 'Other', 'Tower', 'OtherName'}, 'reread-keys', '{}'.format(sorted(f.keys())))
        case.call('read', f.read, fn)
    keys = {g for g, _ in exp} | set(singles) | {'Program'}
    case.check(set(f.keys()) == keys, 'keys', '{} expected {}'.format(sorted(f.keys()), sorted(keys)))
    for (g, n), v in exp.items():
        got = f[g].get(n) if isinstance(f.get(g), dict) else None
        if not case.check(got is not None, 'entry-lost', '{}_{}'.format(g, n)):
            continue
        if isinstance(v, str):
            case.check(isinstance(got, str) and got == v, 'text', '{}_{}: {!r} expected {!r}'.format(g, n, got, v))
        elif isinstance(v, tuple):
            case.check(hasattr(got, 'columns') and list(got.columns) == v[0], 'table-columns', '{}_{}: {} expected {}'.format(g, n, list(getattr(got, 'columns', [])), v[0]))
            m = arr_close(np.asarray(got, float), v[1], rtol=1e-13)
            case.check(m is None, 'table', '{}_{}: {}'.format(g, n, m))
        else:
            case.check(not isinstance(got, str) and np.shape(got) == np.shape(v), 'number-shape', '{}_{}: {!r} expected {!r}'.format(g, n, got, v))
            m = arr_close(np.asarray(got, float), np.asarray(v), rtol=1e-13) if not isinstance(got, str) else 'text {!r}'.format(got)
            case.check(m is None, 'number', '{}_{}: {}'.format(g, n, m))
    for n, v in singles.items():
        case.check(f.get(n) == v, 'single', '{}: {!r} expected {!r}'.format(n, f.get(n), v))
    d = f.toDataFrame()
    d = d if isinstance(d, dict) else ({list(frames)[0]: d} if frames else {})
    if case.check(set(d) == set(frames), 'frames', '{} expected {}'.format(sorted(d), sorted(frames))):
        for n, (c, v) in frames.items():
            m = arr_close(d[n].values.astype(float), v, rtol=1e-13)
            case.check(m is None and list(d[n].columns) == c, 'frame', '{}: {} {}'.format(n, m, list(d[n].columns)))
    case.sig('doc', tuple(sorted(len(b) for b in blocks)))
    case.desc = dict(entries=len(exp), frames=sorted(frames))


WORKLOADS = [Workload('out', wl_out, 1600, 40000), Workload('blade', wl_blade, 1000, 24000), Workload('profile', wl_profile, 1000, 20000), Workload('wavekin', wl_wavekin, 400, 12000), Workload('doc', wl_doc, 2000, 48000)]
