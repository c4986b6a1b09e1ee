"""C09: Mann boxes round-trip exactly with the documented orientation."""
import os
import numpy as np
from ..core import Workload, Raised
from ..compare import arr_close, freeze, same
from ..gen import wind

TECHNIQUE = 'runtime monitoring: boxes from an independent encoder are read, queried and written; every index, byte and coordinate is compared with the known box, and wrong sizes must raise'
RULE = ("Random boxes (any nx, ny, nz) encoded independently (z fastest, then y decreasing, then x); dimensions passed or taken from many file-name styles; wrong sizes injected; distinct by (N, naming, placement options).")
ASSUME = ['Little-endian single precision, as documented.']


def make_name(rnd, N):
    ext = rnd.choice(['.u', '.v', '.w', '.bin'])
    style = rnd.choice(['{0}x{1}x{2}', 'turb_{0}x{1}x{2}', 'Case12_seed3_{0}x{1}x{2}', 'u-{0}-{1}-{2}', '_{0}_{1}_{2}_', 'my.box1.{0}x{1}x{2}'])
    return style.format(*N) + ext, style


def w_read(case):
    import weio
    from weio.mannbox_file import MannBoxFile
    rnd, rng = case.rnd, case.rng
    b, F, N = wind.gen_mann(case, long=case.index % 25 == 0)
    byname = rnd.random() < 0.6
    if byname:
        name, style = make_name(rnd, N)
        p = case.write(os.path.join(rnd.choice(['', 'dir_7x8x9', 'a5']), name), b)
        kw = {}
    else:
        name = rnd.choice(['turb.u', 'b.bin', 'other_3x3x3.w', 'x12.v'])
        style = name
        p = case.write(name, b)
        kw = dict(N=rnd.choice([tuple, list])(N))
    dy, dz = 1, 1
    y0, z0, zMid = None, 0, None
    if rnd.random() < 0.7:
        dy, dz = rnd.choice([0.5, 2.0, 3.3]), rnd.choice([0.25, 4.0, 1.7])
        kw.update(dy=dy, dz=dz)
        if rnd.random() < 0.5:
            y0 = rnd.choice([-3.0, 0.0, 12.5])
            kw['y0'] = y0
        if rnd.random() < 0.5:
            z0 = rnd.choice([5.0, -8.0])
            kw['z0'] = z0
        if rnd.random() < 0.4:
            zMid = rnd.choice([90.0, 0.0])
            kw['zMid'] = zMid
    case.desc = dict(N=N, name=name, kw={k: str(v) for k, v in kw.items()})
    case.sig('read', N, style, sorted(kw))
    if not kw and case.index % 2 == 0:
        f = case.call('weio.read', weio.read, p)
        case.check(type(f).__name__ == 'MannBoxFile', 'auto', type(f).__name__)
    else:
        f = case.call('read', MannBoxFile, p, **kw)
    if rnd.random() < 0.3:
        # an object which held another box before
        other = [N[0], N[1], N[2]]
        rnd.shuffle(other)
        h = MannBoxFile(case.write('other_{}x{}x{}.u'.format(*other), np.zeros(int(np.prod(other)), '<f4').tobytes()), **rnd.choice([{}, dict(y0=3.0, z0=1.0, dy=7, dz=8), dict(zMid=50.0)]))
        case.call('queries', lambda: (h.y, h.z, h.vertProfile, repr(h)))
        case.call('read', h.read, p, **kw)
        f = h
    keys = {k: v for k, v in f.items() if k != 'field'}
    m = arr_close(f['field'], F)
    case.check(m is None and f['field'].shape == tuple(N), 'field', m)
    nx, ny, nz = N
    ey = (np.arange(ny) * dy - (ny - 1) * dy / 2.) if y0 is None else y0 + np.arange(ny) * dy
    ez = z0 + np.arange(nz) * dz
    if zMid is not None:
        ez = ez - ez.mean() + zMid
    m = arr_close(f.y, ey, atol=1e-9)
    case.check(m is None, 'y', m)
    m = arr_close(f.z, ez, atol=1e-9)
    case.check(m is None, 'z', m)
    U, dx = rnd.choice([8.0, 10.0, 6.26]), rnd.choice([1.5, 1.0, 0.33])
    m = arr_close(f.t(dx, U), np.arange(nx) * dx / U, rtol=1e-9, atol=1e-9)
    case.check(m is None, 't', m)
    # points
    for _ in range(3):
        iy, iz = rnd.randrange(ny), rnd.randrange(nz)
        yq, zq = ey[iy] + rnd.uniform(-0.45, 0.45) * dy, ez[iz] + rnd.uniform(-0.45, 0.45) * dz
        m = arr_close(f.valuesAt(yq, zq), F[:, iy, iz])
        case.check(m is None, 'valuesAt', m)
        case.check(tuple(int(i) for i in f.closestPoint(yq, zq)) == (iy, iz), 'closestPoint', str(f.closestPoint(yq, zq)))
    # outside the box: edge
    m = arr_close(f.valuesAt(ey[-1] + 100 * dy, ez[0] - 100 * dz), F[:, -1, 0])
    case.check(m is None, 'valuesAt-outside', m)
    zz, mm, ss = f.vertProfile
    D = F.astype(float)
    case.check(arr_close(zz, ez, atol=1e-9) is None, 'profile-z', '')
    sc = np.abs(D).max() + 1e-30
    j = int(ny / 2)
    m = arr_close(mm, D[:, j, :].mean(axis=0), atol=2e-5 * sc)
    case.check(m is None, 'profile-mean', m)
    m = arr_close(ss, D[:, j, :].std(axis=0), atol=2e-5 * sc)
    case.check(m is None, 'profile-std', m)
    dfs = case.call('toDataFrame', f.toDataFrame)
    k = int(nz / 2)
    for n, jj in (('ZMidLine', j), ('ZMidYEndLine', ny - 1), ('ZMidYStartLine', 0)):
        m = arr_close(dfs[n]['vel_[m/s]'].values, F[:, jj, k])
        case.check(m is None, 'frame-' + n, m)
    m = arr_close(dfs['VertProfile']['vel_[m/s]'].values, D[:, j, :].mean(axis=0), atol=2e-5 * sc)
    case.check(m is None, 'frame-profile', m)
    m = arr_close(dfs['VertProfile']['sigma_[m/s]'].values, D[:, j, :].std(axis=0), atol=2e-5 * sc)
    case.check(m is None, 'frame-profile', m)
    m = arr_close(f['field'], F)
    case.check(m is None, 'queries-do-not-disturb', m)
    now = {k: v for k, v in f.items() if k != 'field'}
    case.check(now == keys, 'queries-do-not-disturb', '{} became {}'.format(keys, now))
    # --- write back
    q = case.path('out_' + '{}x{}x{}'.format(*N) + '.u')
    case.call('write', f.write, q)
    case.check(open(q, 'rb').read() == b, 'bytes', 'rewritten box differs from the original bytes')
    g = case.call('read', MannBoxFile, q)
    m = arr_close(g['field'], F)
    case.check(m is None, 'reread', m)
    case.check(open(p, 'rb').read() == b, 'source-untouched', '')
    # --- the same object reads again, with other options: nothing of the first placement remains
    case.call('read', g.read, p, N=N)
    case.check(arr_close(g.y, np.arange(ny) - (ny - 1) / 2., atol=1e-9) is None and arr_close(g.z, np.arange(nz), atol=1e-9) is None, 'default-placement', '{} {}'.format(g.y, g.z))
    case.call('read', f.read, p, N=N)
    case.check(arr_close(f.y, np.arange(ny) - (ny - 1) / 2., atol=1e-9) is None and arr_close(f.z, np.arange(nz), atol=1e-9) is None, 'read-again-placement', '{} {}'.format(f.y, f.z))
    case.call('read', g.read, p, N=N, **{k: v for k, v in kw.items() if k != 'N'})
    case.check(arr_close(g.y, ey, atol=1e-9) is None and arr_close(g.z, ez, atol=1e-9) is None, 'read-again-placement', '{} {}'.format(g.y, g.z))
    # --- fields in any memory layout are written alike
    for lay in (np.asfortranarray(F), np.repeat(F, 2, axis=1)[:, ::2, :], np.ascontiguousarray(F.transpose(2, 1, 0)).transpose(2, 1, 0), F.astype(float)):
        g['field'] = lay
        case.call('write', g.write, q)
        case.check(open(q, 'rb').read() == b, 'bytes-layout', 'the memory layout of the field matters')


def w_wrong_size(case):
    from weio.mannbox_file import MannBoxFile
    rnd = case.rnd
    b, F, N = wind.gen_mann(case)
    kind = rnd.choice(['cut', 'extra', 'dims', 'noname', 'partial'])
    kw = dict(N=N)
    if kind == 'cut':
        b = b[:4 * rnd.randrange(1, len(b) // 4)] if len(b) > 4 else b[:2]
    elif kind == 'partial':
        b = b[:-rnd.randint(1, 3)]
    elif kind == 'extra':
        b = b + b'\0' * (4 * rnd.choice([1, 5, N[1] * N[2]]))
    elif kind == 'dims':
        M = list(N)
        M[rnd.randrange(3)] += rnd.choice([1, 2, -1])
        if min(M) < 1:
            M = [N[0] + 1, N[1], N[2]]
        kw = dict(N=M)
    name = 'turb.u'
    if kind == 'noname':
        kw = {}
        name = rnd.choice(['turb.u', 'a12.u', 'b1_2.u'])
    p = case.write(name, b)
    case.desc = dict(kind=kind, N=N, kw=str(kw))
    case.sig('wrong', kind, N)
    r = case.attempt('read', MannBoxFile, p, **kw)
    case.check(isinstance(r, Raised), 'wrong-size-refused', '{}: box of {} bytes read as {}'.format(kind, len(b), None if isinstance(r, Raised) else r['field'].shape))


WORKLOADS = [
    Workload('read', w_read, quick=6000, thorough=40000),
    Workload('wrong_size', w_wrong_size, quick=1600, thorough=12000),
]
