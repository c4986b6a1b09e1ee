"""C07: TurbSim wind boxes are read and written faithfully."""
import numpy as np
from ..core import Workload, Raised, EXAMPLES
from ..compare import arr_close, freeze, same
from ..gen import wind

TECHNIQUE = 'runtime monitoring: boxes from an independent encoder and boxes built in memory pass through reading, writing and repeated cycles; every velocity and coordinate is compared with the encoded content within one quantisation step'
RULE = ("Boxes are produced by an independent encoder (any grid/tower/time size, scaling and offset) or built in memory with turbulent, constant, nearly steady, tiny, huge or tower-dominated components, "
        "written through the library and compared with an independent decoder and with the library's own reader; distinct by (sizes, tower points, kinds of component).")
ASSUME = ['Written boxes have at least two grid points per direction and two times (the format stores spacings).']
EPS32 = 2.0 ** -23


def decode(path):
    import struct
    b = open(path, 'rb').read()
    ID, nz, ny, ntw, nt = struct.unpack('<h4i', b[:18])
    h = np.frombuffer(b, '<f4', 6, 18).astype(float)
    so = np.frombuffer(b, '<f4', 6, 42).astype(float).reshape(3, 2)
    n, = struct.unpack('<i', b[66:70])
    o = 70 + n
    per = 3 * (ny * nz + ntw)
    v = np.frombuffer(b, '<i2', per * nt, o).reshape(nt, per).astype(float)
    u = v[:, :3 * ny * nz].reshape(nt, nz, ny, 3)
    ut = v[:, 3 * ny * nz:].reshape(nt, ntw, 3)
    u = ((u - so[:, 1]) / so[:, 0]).transpose(3, 0, 2, 1)
    ut = ((ut - so[:, 1]) / so[:, 0]).transpose(2, 0, 1)
    return dict(ID=ID, nz=nz, ny=ny, ntw=ntw, nt=nt, dz=h[0], dy=h[1], dt=h[2], uRef=h[3], zRef=h[4], z0=h[5], u=u, uTwr=ut, rest=len(b) - o - 2 * per * nt)


def steps(u, ut, k=1):
    """allowed deviation per component"""
    out = []
    for c in range(3):
        a = u[c].ravel() if ut is None or ut[c].size == 0 else np.concatenate([u[c].ravel(), ut[c].ravel()])
        r = a.max() - a.min()
        m = np.abs(a).max()
        if r == 0:
            out.append(2 * EPS32 * (32768 + m))
        else:
            out.append(r * (1 + 2e-3) / 65535 + 4 * EPS32 * m)
    return k * np.array(out)


def judge_geometry(case, f, y, z, t, tag):
    ext = lambda a: 1e-6 * (np.abs(a).max() + 1)
    for n, a in (('y', y), ('z', z), ('t', t)):
        m = arr_close(f[n], a, atol=ext(a))
        case.check(m is None, tag + '-' + n, m)


def w_decode(case):
    import weio
    from weio.turbsim_file import TurbSimFile
    b, t = wind.gen_bts(case, big=case.index % 10 == 0)
    p = case.write('a.bts', b)
    case.desc = {k: t[k] for k in ('ny', 'nz', 'nt', 'ntw', 'ID')}
    case.sig('dec', t['ny'], t['nz'], t['nt'], t['ntw'], t['ID'])
    f = case.call('read', weio.read, p) if case.index % 4 == 0 else wind.bts(case, p)
    case.check(type(f).__name__ == 'TurbSimFile', 'class', type(f).__name__)
    for c in range(3):
        m = arr_close(f['u'][c], t['u'][c], atol=t['atol'][c])
        case.check(m is None, 'velocity', 'component {}: {}'.format(c, m))
        m = arr_close(f['uTwr'][c], t['uTwr'][c], atol=t['atol'][c])
        case.check(m is None, 'tower-velocity', 'component {}: {}'.format(c, m))
    for k in ('y', 'z', 't', 'zTwr'):
        m = arr_close(f[k], t[k], rtol=1e-9, atol=1e-9)
        case.check(m is None, k, '{}: {}'.format(k, m))
    m = arr_close(f.y, t['y'], rtol=1e-9, atol=1e-9) or arr_close(f.z, t['z'], rtol=1e-9, atol=1e-9) or arr_close(f.t, t['t'], rtol=1e-9, atol=1e-9)
    case.check(m is None, 'coordinate-properties', m)
    for k in ('zRef', 'uRef', 'dt'):
        case.check(abs(f[k] - t[k]) < 1e-9 * (1 + abs(t[k])), k, '{} {}'.format(f[k], t[k]))
    case.check(f['ID'] == t['ID'], 'ID', str(f['ID']))
    case.check(f['info'] == t['info'], 'info', repr(f['info']))
    h = case.call('read-header', TurbSimFile, p, header_only=True)
    for k in ('y', 'z', 't', 'zTwr'):
        m = arr_close(h[k], t[k], rtol=1e-9, atol=1e-9)
        case.check(m is None, 'header-only', '{}: {}'.format(k, m))
    case.check(h['zRef'] == f['zRef'] and h['uRef'] == f['uRef'] and h['ID'] == f['ID'], 'header-only', 'refs')


def judge_written(case, p, u, ut, y, z, t, ID, k=1, zRef=None, uRef=None):
    from weio.turbsim_file import TurbSimFile
    T = steps(u, ut, k)
    d = decode(p)
    case.check(d['rest'] == 0, 'file-size', 'unexpected file size, rest {}'.format(d['rest']))
    case.check((d['nt'], d['ny'], d['nz']) == u.shape[1:], 'file-dims', str((d['nt'], d['ny'], d['nz'])))
    for c in range(3):
        m = arr_close(d['u'][c], u[c], atol=T[c])
        case.check(m is None, 'file-velocity', 'component {} tol {:.3g}: {}'.format(c, T[c], m))
    case.check(d['ID'] == ID, 'file-ID', str(d['ID']))
    ntw = 0 if ut is None else ut.shape[2]
    case.check(d['ntw'] == ntw, 'file-ntower', str(d['ntw']))
    g = case.call('read', TurbSimFile, p)
    for c in range(3):
        m = arr_close(g['u'][c], u[c], atol=T[c])
        case.check(m is None, 'velocity', 'component {} tol {:.3g}: {}'.format(c, T[c], m))
        if ut is not None:
            m = arr_close(g['uTwr'][c], ut[c], atol=T[c])
            case.check(m is None, 'tower-velocity', 'component {} tol {:.3g}: {}'.format(c, T[c], m))
    judge_geometry(case, g, y, z, t, 'written')
    case.check(g['ID'] == ID, 'ID', str(g['ID']))
    if zRef is not None:
        case.check(abs(g['zRef'] - zRef) < 1e-6 * (1 + abs(zRef)), 'zRef', '{} {}'.format(g['zRef'], zRef))
    if uRef is not None:
        case.check(abs(g['uRef'] - uRef) < 1e-6 * (1 + abs(uRef)), 'uRef', '{} {}'.format(g['uRef'], uRef))
    return g


def w_roundtrip(case):
    """file -> object -> file, several cycles, optional edit in between"""
    from weio.turbsim_file import TurbSimFile
    rnd, rng = case.rnd, case.rng
    b, t = wind.gen_bts(case, ymin=2, zmin=2, tmin=2)
    p = case.write('a.bts', b)
    f = wind.bts(case, p)
    u, ut = t['u'].copy(), t['uTwr'].copy()
    edit = rnd.choice([None, 'add', 'field', 'point', 'axes', 'crop'])
    if edit == 'add':
        f['u'][0] += 3.25
        f['uTwr'][0] += 3.25
        u[0] += 3.25
        ut[0] += 3.25
    elif edit == 'field':
        u, ut, _ = wind.velocity(case, u.shape, ut.shape)
        f['u'], f['uTwr'] = u.copy(), ut.copy()
    elif edit == 'axes':
        s = [rnd.choice([1, 2, 0.25]) for _ in 'yzt']
        for k, x in zip('yzt', s):
            f[k] = f[k] * x
            t[k] = t[k] * x
    elif edit == 'crop':
        a = [rnd.randint(2, n) for n in u.shape[1:]]
        u, ut = u[:, :a[0], :a[1], -a[2]:], ut[:, :a[0]]
        f['u'], f['uTwr'] = f['u'][:, :a[0], :a[1], -a[2]:], f['uTwr'][:, :a[0]]
        f['t'], f['y'], f['z'] = f['t'][:a[0]], f['y'][:a[1]], f['z'][-a[2]:]
        t['t'], t['z'] = t['t'][:a[0]], t['z'][-a[2]:]
        t['y'] = t['y'][:a[1]] - t['y'][:a[1]].mean()     # always centred when read
    elif edit == 'point':
        i = tuple(rnd.randrange(n) for n in u.shape)
        u[i] = rnd.choice([-1, 1]) * 1e3
        f['u'][i] = u[i]
    case.desc = dict(dims=u.shape, ntw=t['ntw'], edit=edit)
    case.sig('rt', u.shape, t['ntw'], edit)
    zr, ur = t['zRef'], t['uRef']
    for k in range(rnd.choice([1, 1, 2, 3])):
        q = case.path('b{}.bts'.format(k))
        snap = freeze({n: f[n] for n in ('u', 'uTwr', 'y', 'z', 't')})
        case.call('write', f.write, q)
        d = same(snap, freeze({n: f[n] for n in ('u', 'uTwr', 'y', 'z', 't')}))
        case.check(d is None, 'memory-untouched', d)
        f = judge_written(case, q, u, ut, t['y'], t['z'], t['t'], t['ID'], k + 1, zr, ur)
    case.check(open(p, 'rb').read() == b, 'source-untouched', 'source file changed')


def w_build(case):
    """box built in memory from scratch"""
    from weio.turbsim_file import TurbSimFile
    rnd, rng = case.rnd, case.rng
    ny, nz, nt = wind.dims(rnd, 2, 2, 2)
    ntw = rnd.choice([None, None, 0, 1, 3])
    u, ut, kinds = wind.velocity(case, (3, nt, ny, nz), (3, nt, ntw or 0))
    f = TurbSimFile()
    dy, dz, dt = rnd.choice([1.0, 2.5, 0.1]), rnd.choice([1.0, 5.0, 0.2]), rnd.choice([0.1, 1.0, 0.05])
    y = np.arange(ny) * dy
    y = y - y.mean()
    z = rnd.choice([1.0, 20.0, 55.5]) + np.arange(nz) * dz
    t = np.arange(nt) * dt
    var = rnd.choice(['f8', 'f8', 'f4', 'fortran', 'view'])
    arg = u
    if var == 'f4':
        u = u.astype(np.float32).astype(float)
        ut = ut.astype(np.float32).astype(float)
        arg = u.astype(np.float32)
    elif var == 'fortran':
        arg = np.asfortranarray(u)
    elif var == 'view':
        arg = np.repeat(u, 2, axis=1)[:, ::2]
    f['u'], f['y'], f['z'], f['t'] = arg, y, z, t
    ID = 7
    if rnd.random() < 0.5:
        ID = rnd.choice([7, 8])
        f['ID'] = ID
    if ntw is not None:
        f['uTwr'] = ut if var != 'f4' else ut.astype(np.float32)
    zr = ur = None
    if rnd.random() < 0.5:
        zr, ur = z[rnd.randrange(nz)], 11.5
        f['zRef'], f['uRef'] = zr, ur
    case.desc = dict(dims=u.shape, ntw=ntw, kinds=kinds, var=var)
    case.sig('build', u.shape, ntw, tuple(kinds), var)
    p = case.path('o.bts')
    case.call('write', f.write, p)
    g = judge_written(case, p, u, ut if ntw is not None else None, y, z, t, ID, 1, zr, ur)


WORKLOADS = [
    Workload('decode', w_decode, quick=4000, thorough=40000),
    Workload('roundtrip', w_roundtrip, quick=4000, thorough=40000),
    Workload('build', w_build, quick=4500, thorough=40000),
]
