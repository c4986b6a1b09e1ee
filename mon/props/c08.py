"""C08: wind-box queries are correct and do not disturb the box."""
import io
import os
import numpy as np
from ..core import Workload, Raised
from ..compare import arr_close, freeze, same
from ..gen import wind

TECHNIQUE = 'runtime monitoring: random query/modifier histories on a live box against a reference model of the box, with a state-purity monitor after every operation'
RULE = ("A box (from an encoded file or built in memory) undergoes a random history of queries, conversions and modifiers; after every operation a reference computation on a private copy of the "
        "velocities is compared and the stored arrays are compared with that copy; distinct by (sizes, multiset of operations).")
ASSUME = ['Index of the middle point: any index whose distance to the middle is minimal up to rounding is accepted.']
COLS3 = ['u_[m/s]', 'v_[m/s]', 'w_[m/s]']


def psd(x, fs):
    """Welch estimate as documented by the defaults (Hann, 256 points, half overlap, mean removed)"""
    n = min(256, len(x))
    step = n - n // 2
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n) if n > 1 else np.ones(1)
    segs = range(0, len(x) - n + 1, step)
    P = 0
    for s in segs:
        seg = x[s:s + n]
        P = P + np.abs(np.fft.rfft((seg - seg.mean()) * w)) ** 2
    P = P / len(segs) / (fs * (w ** 2).sum())
    if n % 2:
        P[1:] *= 2
    else:
        P[1:-1] *= 2
    return np.arange(n // 2 + 1) * fs / n, P


class Model:
    def __init__(self, u, y, z, t, ut, zRef, uRef):
        self.u, self.y, self.z, self.t, self.ut, self.zRef, self.uRef = u, y, z, t, ut, zRef, uRef


def clos(case, got, exp, clause, what, scale=None, rtol=1e-9):
    exp = np.asarray(exp, float)
    s = np.abs(exp[np.isfinite(exp)]).max() if scale is None and np.isfinite(exp).any() else (scale or 0)
    got = np.asarray(got)
    if got.dtype.kind == 'c':
        case.check(np.all(np.abs(got.imag) <= 1e-9 * (s + 1e-300)), clause, what + ' has an imaginary part')
        got = got.real
    m = arr_close(got, exp, rtol=rtol, atol=rtol * s)
    case.check(m is None, clause, '{}: {}'.format(what, m))


def near(v, x):
    d = np.abs(v - x)
    return set(np.where(d <= d.min() + 1e-9 * (np.abs(v).max() + abs(x) + 1e-300))[0])


def rho(a, b):
    a, b = a - a.mean(), b - b.mean()
    return (a * b).mean() / (a.std() * b.std())


def corr_check(case, got, base, others, scale, what):
    for j, o in enumerate(others):
        if min(base.std(), o.std()) < 1e-9 * (scale + 1e-300):
            continue
        case.check(abs(got[j] - rho(base, o)) < 1e-6, 'crosscorr', '{} index {}: {} expected {}'.format(what, j, got[j], rho(base, o)))


def q_mid(case, f, M):
    iy, iz = case.call('iMid', lambda: f.iMid)
    case.check(iy in near(M.y, (M.y[0] + M.y[-1]) / 2) and iz in near(M.z, (M.z[0] + M.z[-1]) / 2), 'iMid', 'iMid {} y={} z={}'.format((iy, iz), M.y, M.z))
    return int(iy), int(iz)


def q_valuesAt(case, f, M):
    rnd = case.rnd
    if rnd.random() < 0.5:
        iy, iz = rnd.randrange(len(M.y)), rnd.randrange(len(M.z))
        y, z = M.y[iy], M.z[iz]
    else:
        y = rnd.uniform(M.y[0] - 20, M.y[-1] + 20)
        z = rnd.uniform(M.z[0] - 20, M.z[-1] + 20)
    iy, iz = case.call('closestPoint', f.closestPoint, y, z)
    case.check(iy in near(M.y, y) and iz in near(M.z, z), 'closestPoint', str((iy, iz, y, z)))
    r = case.call('valuesAt', f.valuesAt, y, z)
    for c in range(3):
        clos(case, r[c], M.u[c, :, iy, iz], 'valuesAt', 'component {} at y={} z={}'.format(c, y, z), rtol=0)


def q_midValues(case, f, M):
    iy, iz = q_mid(case, f, M)
    z, u = case.call('midValues', f.midValues)
    clos(case, [z, u], [M.z[iz], M.u[0, :, iy, iz].mean()], 'midValues', 'z,u')


def q_hub(case, f, M):
    iy, iz = q_mid(case, f, M)
    arg = case.rnd.choice([None, None, M.z[case.rnd.randrange(len(M.z))]])
    z, u, b = case.call('hubValues', f.hubValues, *([] if arg is None else [arg]))
    if arg is not None:
        ez = arg
    elif M.zRef is not None:
        ez = M.zRef
    else:
        ez = M.z[iz]
    clos(case, z, ez, 'hubValues', 'zHub')
    if M.uRef is not None:
        clos(case, u, M.uRef, 'hubValues', 'uHub')
    else:
        k = int(np.argmin(np.abs(M.z - ez)))
        if len(near(M.z, ez)) == 1:
            clos(case, u, M.u[0, :, iy, k].mean(), 'hubValues', 'uHub from box', scale=np.abs(M.u[0]).max())


def q_profile(case, f, M):
    iy, iz = q_mid(case, f, M)
    span = case.rnd.choice(['full', 'mid'])
    z, m, s = case.call('vertProfile', f.vertProfile, span)
    sc = np.abs(M.u).max()
    clos(case, z, M.z, 'vertProfile', 'z')
    if span == 'full':
        em, es = M.u.mean(axis=(1, 2)), M.u.std(axis=1).mean(axis=1)
    else:
        em, es = M.u[:, :, iy, :].mean(axis=1), M.u[:, :, iy, :].std(axis=1)
    clos(case, m, em, 'vertProfile', span + ' mean', scale=sc)
    clos(case, s, es, 'vertProfile', span + ' std', scale=sc)


def q_plane(case, f, M):
    rnd = case.rnd
    iy, iz = q_mid(case, f, M)
    rm = rnd.random() < 0.6
    horiz = rnd.random() < 0.5
    n, mid, coord = (len(M.z), iz, M.z) if horiz else (len(M.y), iy, M.y)
    mode = rnd.choice(['mid', 'idx', 'coord'])
    k = mid if mode == 'mid' else rnd.randrange(n)
    kw = {}
    if mode == 'idx':
        kw['iz0' if horiz else 'iy0'] = k
    elif mode == 'coord':
        kw['z' if horiz else 'y'] = coord[k] + rnd.choice([0, 0.4, -0.4, 0.2]) * (coord[1] - coord[0])
        if k == n - 1 and rnd.random() < 0.5:
            kw['z' if horiz else 'y'] = coord[k] + 55.0
    if rm:
        kw['removeMean'] = True
    r = case.call('plane', f.horizontalPlane if horiz else f.verticalPlane, **kw)
    for c in range(3):
        e = M.u[c, :, :, k] if horiz else M.u[c, :, k, :]
        if rm:
            e = e - e.mean()
        clos(case, r[c], e, 'plane', '{} {} c={}'.format('horizontal' if horiz else 'vertical', kw, c), scale=np.abs(M.u[c]).max())


def q_corr(case, f, M):
    rnd = case.rnd
    iy, iz = q_mid(case, f, M)
    kw = {}
    if rnd.random() < 0.5:
        iy, iz = rnd.randrange(len(M.y)), rnd.randrange(len(M.z))
        kw = dict(iy0=iy, iz0=iz)
    if rnd.random() < 0.5:
        x, *r = case.call('crosscorr_y', f.crosscorr_y, **kw)
        clos(case, x, M.y, 'crosscorr', 'y')
        for c in range(3):
            corr_check(case, r[c], M.u[c, :, iy, iz], [M.u[c, :, j, iz] for j in range(len(M.y))], np.abs(M.u[c]).max(), 'y c={} {}'.format(c, kw))
    else:
        x, *r = case.call('crosscorr_z', f.crosscorr_z, **kw)
        clos(case, x, M.z, 'crosscorr', 'z')
        for c in range(3):
            corr_check(case, r[c], M.u[c, :, iy, iz], [M.u[c, :, iy, j] for j in range(len(M.z))], np.abs(M.u[c]).max(), 'z c={} {}'.format(c, kw))


def psd_check(case, fc, chi, x, fs, scale, what):
    F, P = psd(x, fs)
    clos(case, fc, F, 'spectrum', what + ' frequencies')
    clos(case, chi, P, 'spectrum', what, scale=max(P.max(), 1e-12 * scale ** 2 / fs, 1e-300), rtol=1e-7)


def q_csd(case, f, M):
    rnd = case.rnd
    iy, iz = q_mid(case, f, M)
    it = len(M.t) // 2
    fs = 1 / (M.t[1] - M.t[0])
    kind = rnd.choice(['longi', 'longi', 'lat', 'vert'])
    kw = {}
    given = rnd.random() < 0.5
    if given:
        iy, iz, it = rnd.randrange(len(M.y)), rnd.randrange(len(M.z)), rnd.randrange(len(M.t))
    if kind == 'longi':
        kw = dict(iy0=iy, iz0=iz)
        line = lambda c: M.u[c, :, iy, iz]
    elif kind == 'lat':
        kw = dict(ix0=it, iz0=iz)
        line = lambda c: M.u[c, it, :, iz]
    else:
        kw = dict(ix0=it, iy0=iy)
        line = lambda c: M.u[c, it, iy, :]
    fc, *r = case.call('csd_' + kind, getattr(f, 'csd_' + kind), **(kw if given else {}))
    for c in range(3):
        psd_check(case, fc, r[c], line(c), fs, np.abs(M.u[c]).max(), kind + ' c={}'.format(c))


def q_frames(case, f, M):
    iy, iz = q_mid(case, f, M)
    d = case.call('toDataFrame', f.toDataFrame)
    sc = np.abs(M.u).max()
    want = ['VertProfile', 'ZMidLine', 'ZMidYStartLine', 'ZMidYEndLine', 'Mid_xcorr_y', 'Mid_xcorr_z', 'Mid_csd_longi', 'Mid_csd_lat', 'Mid_csd_vert']
    case.check(all(k in d for k in want), 'frames', 'missing frame in {}'.format(list(d)))
    for k, j in (('ZMidLine', iy), ('ZMidYStartLine', 0), ('ZMidYEndLine', len(M.y) - 1)):
        clos(case, d[k]['t_[s]'].values, M.t, 'frames', k + ' t')
        for c in range(3):
            clos(case, d[k][COLS3[c]].values, M.u[c, :, j, iz], 'frames', '{} {}'.format(k, COLS3[c]), rtol=1e-12)
    v = d['VertProfile']
    clos(case, v['z_[m]'].values, M.z, 'frames', 'VertProfile z')
    m, s = M.u.mean(axis=(1, 2)), M.u.std(axis=1).mean(axis=1)
    for c in range(3):
        clos(case, v[COLS3[c]].values, m[c], 'frames', 'VertProfile ' + COLS3[c], scale=sc)
        clos(case, v['sigma_' + COLS3[c]].values, s[c], 'frames', 'VertProfile sigma ' + COLS3[c], scale=sc)
    ok = np.abs(m[0]) > 1e-3 * sc
    clos(case, v['TI_[%]'].values[ok], (s[0] / m[0] * 100)[ok], 'frames', 'TI', rtol=1e-6)
    for k, x, n in (('Mid_xcorr_y', 'y_[m]', M.y), ('Mid_xcorr_z', 'z_[m]', M.z)):
        clos(case, d[k][x].values, n, 'frames', k + ' axis')
        for c, l in enumerate(('uu', 'vv', 'ww')):
            others = [M.u[c, :, j, iz] for j in range(len(n))] if x[0] == 'y' else [M.u[c, :, iy, j] for j in range(len(n))]
            corr_check(case, d[k]['rho_{}_[-]'.format(l)].values, M.u[c, :, iy, iz], others, np.abs(M.u[c]).max(), k)
    it, fs = len(M.t) // 2, 1 / (M.t[1] - M.t[0])
    lines = dict(Mid_csd_longi=lambda c: M.u[c, :, iy, iz], Mid_csd_lat=lambda c: M.u[c, it, :, iz], Mid_csd_vert=lambda c: M.u[c, it, iy, :])
    for k, line in lines.items():
        for c, l in enumerate(('uu', 'vv', 'ww')):
            psd_check(case, np.real(d[k]['f_[Hz]'].values), d[k]['chi_{}_[-]'.format(l)].values, line(c), fs, np.abs(M.u[c]).max(), k)


def q_periodic(case, f, M):
    rnd = case.rnd
    s, a = rnd.choice([(1.5, 0.5), (0.5, 3.0), (5.0, 0.01), (1e-9, 1e-9), (1e9, 1e9)])
    u = M.u[0]
    with np.errstate(all='ignore'):
        rel = (np.abs(u[0] - u[-1]) / u.std(axis=0)).max()
    ab = np.abs(u[0] - u[-1]).mean()
    if np.isfinite(rel) and rnd.random() < 0.6:
        # tolerances next to the values that decide
        s = rnd.choice([0.9, 1.1, 2.0]) * rel
        a = rnd.choice([0.9, 1.1, 1.4]) * ab
    if not np.isfinite(rel) or rel == 0 or ab == 0 or abs(rel - s) < 1e-6 * s or abs(ab - a) < 1e-6 * a or (u.std(axis=0) < 1e-9 * np.abs(u).max()).any():
        return
    r = case.call('checkPeriodic', f.checkPeriodic, sigmaTol=s, aTol=a)
    case.check(bool(r) == bool(rel < s and ab < a), 'checkPeriodic', '{} rel={} abs={} tol={}'.format(r, rel, ab, (s, a)))


def q_probes(case, f, M):
    rnd = case.rnd
    ys = [rnd.choice(list(M.y)) for _ in range(rnd.randint(1, 2))]
    zs = [rnd.choice(list(M.z)) for _ in range(rnd.randint(1, 2))]
    # between the grid points: the nearest one is taken and named
    if rnd.random() < 0.6:
        ys = [y + rnd.choice([0.45, -0.3]) * (M.y[1] - M.y[0]) for y in ys]
        zs = [z + rnd.choice([0.45, -0.3]) * (M.z[1] - M.z[0]) for z in zs]
    p = case.path('probes.csv')
    case.call('writeProbes', f.writeProbes, p, ys, zs)
    L = open(p).read().split('\n')
    names = L[0].lstrip('# ').split(',')
    d = np.atleast_2d(np.loadtxt(p, delimiter=',', comments='#'))
    exp, en = [M.t], ['Time_[s]']
    for y in ys:
        for z in zs:
            iy, iz = int(np.argmin(np.abs(M.y - y))), int(np.argmin(np.abs(M.z - z)))
            for c, n in enumerate('uvw'):
                exp.append(M.u[c, :, iy, iz])
                en.append('{}_y{:.0f}_z{:.0f}_[m/s]'.format(n, M.y[iy], M.z[iz]))
    case.check(names == en, 'writeProbes', '{} expected {}'.format(names, en))
    m = arr_close(d, np.column_stack(exp), rtol=1e-14)
    case.check(m is None, 'writeProbes', m)
    os.remove(p)


def q_repr(case, f, M):
    s = case.call('repr', repr, f)
    case.check('{} x {} x {} x {}'.format(*M.u.shape) in s, 'repr', s[:300])


def q_write(case, f, M):
    p = case.path('w{}.bts'.format(case.rnd.randrange(10 ** 6)))
    case.call('write', f.write, p)
    case.check(os.path.getsize(p) > 0, 'write', 'empty')
    os.remove(p)


def q_info(case, f, M):
    zm = (M.z[0] + M.z[-1]) / 2
    r = case.attempt('fitPowerLaw', f.fitPowerLaw, z_ref=zm, y_span='mid', U_guess=10, alpha_guess=0.1)
    p = case.path('info.txt')
    w = case.attempt('writeInfo', f.writeInfo, p)
    if isinstance(r, Raised):
        return
    if not case.check(not isinstance(w, Raised), 'writeInfo', '{!r}'.format(w)):
        return
    text = open(p).read()
    os.remove(p)
    case.check('{} x {} x {} x {}'.format(*M.u.shape) in text, 'writeInfo', text[:300])
    for s in ('Middle height of box: {:.3f}'.format(zm), 'Power law: alpha={:.5f}  -  u={:.5f}  at z={:.5f}'.format(r[1][1], r[1][0], zm), 'Periodic: {}'.format(f.checkPeriodic(sigmaTol=1.5, aTol=0.5))):
        case.check(s in text, 'writeInfo', lambda: '{!r} is not in {!r}'.format(s, text[-200:]))


def q_fit(case, f, M):
    zr = case.rnd.choice([None, 30.0])
    mid = case.rnd.random() < 0.4
    r = case.attempt('fitPowerLaw', f.fitPowerLaw, *([] if zr is None else [zr]), **(dict(y_span='mid') if mid else {}))
    if isinstance(r, Raised):       # no convergence on a non power-law profile
        return
    fit, p, model, z = r
    z_ref = zr if zr is not None else (M.z[0] + M.z[-1]) / 2
    case.check(abs(z - z_ref) < 1e-9, 'fitPowerLaw', 'z_ref')
    clos(case, fit, p[0] * (M.z / z_ref) ** p[1], 'fitPowerLaw', 'fitted profile', rtol=1e-9)
    clos(case, [model['coeffs']['u_ref'], model['coeffs']['alpha']], p, 'fitPowerLaw', 'coeffs')
    prof = M.u[0].mean(axis=(0, 1)) if not mid else np.asarray(f.vertProfile(y_span='mid')[1])[0]
    # least-squares optimality against small perturbations of the parameters (only when the fit is meaningful)
    if (prof > 1).all():
        ss = lambda a, b: ((a * (M.z / z_ref) ** b - prof) ** 2).sum()
        s0 = ss(*p)
        for da, db in ((1e-2, 0), (-1e-2, 0), (0, 1e-2), (0, -1e-2)):
            case.check(s0 <= ss(p[0] + da, p[1] + db) + 1e-9 * (prof ** 2).sum(), 'fitPowerLaw', 'not a least-squares fit')


def m_scale(case, f, M):
    rnd = case.rnd
    iy, iz = q_mid(case, f, M)
    c = rnd.randrange(3)
    ref = rnd.choice(['mid', 'point'])
    kw = dict(component=c, reference=ref)
    if ref == 'point':
        iy, iz = rnd.randrange(len(M.y)), rnd.randrange(len(M.z))
        kw.update(y_ref=M.y[iy], z_ref=M.z[iz])
    old = M.u[c, :, iy, iz]
    if rnd.random() < 0.7 and old.std() > 1e-6 * np.abs(M.u[c]).max():
        kw['new_std'] = rnd.choice([0.5, 2.0, 1.0])
    if rnd.random() < 0.7:
        kw['new_mean'] = rnd.choice([0.0, 8.0, 12.5])
    case.call('scale', f.scale, **kw)
    pm = M.u[c].mean(axis=0)
    e = (M.u[c] - pm) * (kw['new_std'] / old.std() if 'new_std' in kw else 1) + pm
    if 'new_mean' in kw:
        e = e - old.mean() + kw['new_mean']
    u = M.u.copy()
    u[c] = e
    sc = max(np.abs(M.u[c]).max(), np.abs(e).max())
    clos(case, f['u'], u, 'scale', str(kw), scale=sc, rtol=1e-7 if 'new_std' in kw else 1e-10)
    M.u = np.array(f['u'])


def m_periodic(case, f, M):
    if len(M.t) > 150:
        return
    case.call('makePeriodic', f.makePeriodic)
    M.u = np.concatenate([M.u, M.u[:, 1:-1][:, ::-1]], axis=1)
    if M.ut is not None:
        M.ut = np.concatenate([M.ut, M.ut[:, 1:-1][:, ::-1]], axis=1)
    dt = M.t[1] - M.t[0]
    M.t = np.arange(M.u.shape[1]) * dt
    clos(case, f['t'], M.t, 'makePeriodic', 't')
    case.check(f['ID'] == 8, 'makePeriodic', 'file type is {}'.format(f['ID']))
    m = arr_close(f['u'], M.u)
    case.check(m is None, 'makePeriodic', m)
    M.t = np.array(f['t'])


def m_mann(case, f, M):
    """conversion to Mann boxes on file, and back"""
    from weio.mannbox_file import MannBoxFile
    from weio.turbsim_file import TurbSimFile
    rnd = case.rnd
    base = case.path('mann{}'.format(rnd.randrange(10 ** 6)))
    opt = rnd.choice([{}, dict(removeUConstant=rnd.choice([10.0, -2.5, 0, 0.0])), dict(removeAllUMean=True)])
    case.call('toMannBox', f.toMannBox, base, **opt)
    nt, ny, nz = M.u.shape[1:]
    boxes = []
    for c, e in enumerate('uvw'):
        p = '{}_{}x{}x{}.{}'.format(base, nt, ny, nz, e)
        if not case.check(os.path.isfile(p), 'toMannBox', 'no file ' + os.path.basename(p)):
            return
        raw = np.fromfile(p, '<f4')
        exp = M.u[c]
        if c == 0 and 'removeUConstant' in opt:
            exp = exp - opt['removeUConstant']
        elif c == 0 and opt:
            exp = exp - exp.mean(axis=0)
        sc = np.abs(M.u[c]).max()
        m = arr_close(raw.reshape(nt, ny, nz)[:, ::-1, :], exp, rtol=2e-7, atol=1e-9 * sc + 1e-45)
        case.check(m is None, 'toMannBox', '.{} {}: {}'.format(e, opt, m))
        boxes.append(case.call('MannBoxFile', MannBoxFile, p, dy=M.y[1] - M.y[0], dz=M.z[1] - M.z[0], y0=M.y[0], z0=M.z[0]))
        m = arr_close(boxes[-1]['field'], raw.reshape(nt, ny, nz)[:, ::-1, :])
        case.check(m is None, 'toMannBox', 'reading .{}: {}'.format(e, m))
        os.remove(p)
    # the same converter for one component: only "u" has a mean to be removed
    c = rnd.randrange(3)
    opt = rnd.choice([{}, dict(removeConstant=rnd.choice([10.0, -2.5])), dict(removeAllMean=True)])
    mb = MannBoxFile()
    case.call('fromTurbSim', mb.fromTurbSim, f['u'], c, **opt)
    exp = M.u[c]
    if c == 0 and opt:
        exp = exp - (opt['removeConstant'] if 'removeConstant' in opt else exp.mean(axis=0))
    m = arr_close(mb['field'], exp, rtol=2e-7, atol=1e-9 * np.abs(M.u[c]).max() + 1e-45)
    case.check(m is None, 'fromTurbSim', 'component {} {}: {}'.format(c, opt, m))
    dt = M.t[1] - M.t[0]
    U = rnd.choice([8.0, 12.0])
    ts = TurbSimFile()
    addU = rnd.choice([None, 10.0, 3.25])
    b = [x['field'] for x in boxes]
    keep = [x.copy() for x in b]
    case.call('fromMannBox', ts.fromMannBox, b[0], b[1], b[2], dt * U, U, M.y.copy(), M.z.copy(), *([] if addU is None else [addU]))
    for c in range(3):
        e = keep[c].astype(float) + (addU if addU is not None and c == 0 else 0)
        clos(case, ts['u'][c], e, 'fromMannBox', 'component {} addU={}'.format(c, addU), rtol=1e-12)
        case.check(np.array_equal(b[c], keep[c]), 'fromMannBox', 'source box modified')
    clos(case, ts['t'], np.arange(nt) * dt, 'fromMannBox', 't')
    clos(case, ts['dt'], dt, 'fromMannBox', 'dt', rtol=1e-12)
    iy, iz = (int(i) for i in ts.iMid)
    clos(case, [ts['zRef'], ts['uRef']], [M.z[iz], ts['u'][0, :, iy, iz].mean()], 'fromMannBox', 'reference height and speed', scale=np.abs(ts['u'][0]).max() + np.abs(M.z).max())
    clos(case, ts['y'], M.y, 'fromMannBox', 'y')
    clos(case, ts['z'], M.z, 'fromMannBox', 'z')


QUERIES = dict(mid=q_mid, valuesAt=q_valuesAt, midValues=q_midValues, hub=q_hub, profile=q_profile, plane=q_plane, corr=q_corr, csd=q_csd, frames=q_frames,
               periodic=q_periodic, probes=q_probes, repr=q_repr, write=q_write, fit=q_fit, info=q_info, mann=m_mann)
MODS = dict(scale=m_scale, makePeriodic=m_periodic)


def pure(case, f, M, op):
    for k, e in (('u', M.u), ('y', M.y), ('z', M.z), ('t', M.t)) + ((('uTwr', M.ut),) if M.ut is not None else ()):
        ok = np.array_equal(np.asarray(f[k]), e)
        case.check(ok, 'state-after-' + ('modifier' if op in MODS else 'query'), 'after {}: {!r} differs from the model: {}'.format(op, k, arr_close(f[k], e)) if not ok else '')


def w_history(case):
    from weio.turbsim_file import TurbSimFile
    rnd = case.rnd
    if rnd.random() < 0.5:
        b, t = wind.gen_bts(case, ymin=2, zmin=2, tmin=3, big=case.index % 8 == 0)
        f = wind.bts(case, case.write('a.bts', b))
        M = Model(np.array(f['u']), np.array(f['y']), np.array(f['z']), np.array(f['t']), np.array(f['uTwr']), t['zRef'], t['uRef'])
    else:
        ny, nz, nt = wind.dims(rnd, 2, 2, 3, big=case.index % 8 == 1)
        u, ut, kinds = wind.velocity(case, (3, nt, ny, nz), (3, nt, 2))
        for c in range(3):
            if u[c].std() == 0:
                u[c] += case.rng.normal(size=u[c].shape)
        f = TurbSimFile()
        y = (np.arange(ny) - (ny - 1) / 2) * rnd.choice([1.0, 2.5, 10.0])
        z = 10.0 + np.arange(nz) * rnd.choice([1.0, 5.0])
        t = np.arange(nt) * rnd.choice([0.1, 1.0, 0.05])
        f['u'], f['y'], f['z'], f['t'], f['ID'] = u.copy(), y.copy(), z.copy(), t.copy(), 7
        tw = rnd.random() < 0.5
        if tw:
            f['uTwr'] = ut.copy()
        M = Model(u, y, z, t, ut if tw else None, None, None)
    n = rnd.randint(3, 14)
    ops = []
    pool = list(QUERIES) * 3 + list(MODS)
    only = rnd.random()
    for i in range(n):
        op = rnd.choice(list(QUERIES) if only < 0.4 else pool)
        ops.append(op)
        (QUERIES.get(op) or MODS[op])(case, f, M)
        pure(case, f, M, op)
    case.desc = dict(dims=M.u.shape, ops=ops)
    case.sig(M.u.shape, tuple(sorted(ops)))


def w_mann_history(case):
    from weio.mannbox_file import MannBoxFile
    rnd = case.rnd
    b, F, N = wind.gen_mann(case)
    p = case.write('box_{}x{}x{}.u'.format(*N), b)
    dy, dz, z0 = rnd.choice([1.0, 2.5]), rnd.choice([1.0, 4.0]), rnd.choice([0.0, 10.0])
    f = case.call('read', MannBoxFile, p, dy=dy, dz=dz, z0=z0)
    y = (np.arange(N[1]) - (N[1] - 1) / 2) * dy
    z = z0 + np.arange(N[2]) * dz
    fs = np.abs(F).max()
    ops = []
    for i in range(rnd.randint(3, 10)):
        op = rnd.choice(['valuesAt', 'profile', 'frames', 'axes', 'repr', 't', 'write'])
        ops.append(op)
        if op == 'valuesAt':
            iy, iz = rnd.randrange(N[1]), rnd.randrange(N[2])
            r = case.call('valuesAt', f.valuesAt, y[iy] + 0.2 * dy, z[iz] - 0.2 * dz)
            m = arr_close(r, F[:, iy, iz])
            case.check(m is None, 'mann-valuesAt', m)
        elif op == 'profile':
            zz, m_, s_ = case.call('vertProfile', lambda: f.vertProfile)
            cand = [N[1] // 2, (N[1] - 1) // 2]
            ok = any(arr_close(m_, F[:, j, :].astype(float).mean(axis=0), atol=1e-4 * fs) is None and arr_close(s_, F[:, j, :].astype(float).std(axis=0), atol=1e-4 * fs) is None for j in cand)
            case.check(ok, 'mann-profile', 'profile at mid y')
            case.check(arr_close(zz, z, atol=1e-9 * (1 + z.max())) is None, 'mann-profile', 'z')
        elif op == 'frames':
            d = case.call('toDataFrame', f.toDataFrame)
            for k, js in (('ZMidYStartLine', [0]), ('ZMidYEndLine', [N[1] - 1]), ('ZMidLine', [N[1] // 2, (N[1] - 1) // 2])):
                v = d[k]['vel_[m/s]'].values
                ok = any(arr_close(v, F[:, j, kz]) is None for j in js for kz in (N[2] // 2, (N[2] - 1) // 2))
                case.check(ok, 'mann-frames', k)
        elif op == 'axes':
            case.check(arr_close(f.y, y, atol=1e-9 * (1 + abs(y).max())) is None and arr_close(f.z, z, atol=1e-9 * (1 + z.max())) is None, 'mann-axes', '{} {}'.format(f.y, f.z))
        elif op == 't':
            m = arr_close(case.call('t', f.t, 2.0, 8.0), np.arange(N[0]) * 0.25, atol=1e-9)
            case.check(m is None, 'mann-t', m)
        elif op == 'repr':
            s = case.call('repr', repr, f)
            case.check('{}x{}x{}'.format(*N) in s, 'mann-repr', s[:200])
        else:
            q = case.path('o.u')
            case.call('write', f.write, q)
            case.check(open(q, 'rb').read() == b, 'mann-write', 'bytes differ')
        case.check(np.array_equal(np.asarray(f['field']), F), 'mann-state', 'after ' + op)
    case.desc = dict(N=N, ops=ops)
    case.sig(N, tuple(sorted(ops)))


WORKLOADS = [
    Workload('history', w_history, quick=1800, thorough=24000),
    Workload('mann_history', w_mann_history, quick=320, thorough=6000),
]
