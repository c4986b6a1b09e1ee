"""Independent encoders of TurbSim (.bts) and Mann boxes."""
import struct
import numpy as np
from .util import logint


def dims(rnd, ymin=1, zmin=1, tmin=1, big=False):
    ny = logint(rnd, ymin, 12)
    nz = logint(rnd, zmin, 12)
    nt = logint(rnd, tmin, 400 if big else 60)
    return ny, nz, nt


def gen_bts(case, ymin=1, zmin=1, tmin=1, big=False):
    rnd, rng = case.rnd, case.rng
    ny, nz, nt = dims(rnd, ymin, zmin, tmin, big)
    ntw = rnd.choice([0, 0, 1, 2, 5])
    ID = rnd.choice([7, 7, 8])
    dz, dy = rnd.choice([1.0, 2.5, 10.0, 0.1, 13.37]), rnd.choice([1.0, 2.5, 10.0, 0.1, 7.7])
    dt = rnd.choice([0.05, 0.1, 0.5, 1.0, 1 / 3.])
    uh, zh, zb = rnd.choice([8.0, 12.34, 25.0, 9.876]), rnd.choice([90.0, 119.5, 87.65, 143.27]), rnd.choice([0.5, 10.0, 33.3])
    hdr = np.array([dz, dy, dt, uh, zh, zb], '<f4')
    packed = rng.integers(-32768, 32768, (nt, nz, ny, 3)).astype('<i2')     # file order: component fastest, then y, then z
    ptw = rng.integers(-32768, 32768, (nt, ntw, 3)).astype('<i2')
    if rnd.random() < 0.15:
        packed[..., rnd.randrange(3)] = rnd.choice([-32768, 0, 32767])
    scl = np.array([rnd.choice([1.0, 1000.0, 3276.7, 65535.0, 0.5]) * (1 + rnd.random()) for _ in range(3)], '<f4')
    off = np.array([rnd.choice([0.0, -32768.0, 1234.5, -60000.0]) * (1 + rnd.random()) for _ in range(3)], '<f4')
    info = rnd.choice(['', 'Generated by an encoder.', 'x' * 200, ' padded on both sides ', 'This full-field turbulence file was generated by TurbSim (v2)  on 01-Jan-2020'])
    b = struct.pack('<h4i', ID, nz, ny, ntw, nt) + hdr.tobytes()
    b += np.column_stack([scl, off]).astype('<f4').tobytes()
    b += struct.pack('<i', len(info)) + info.encode()
    for it in range(nt):
        b += packed[it].tobytes() + ptw[it].tobytes()
    s, o = scl.astype(float), off.astype(float)
    u = ((packed.astype(float) - o) / s).transpose(3, 0, 2, 1)      # comp, t, y, z
    ut = ((ptw.astype(float) - o) / s).transpose(2, 0, 1)
    h = hdr.astype(float)
    y = np.arange(ny) * h[1]
    y = y - y.mean()
    t = dict(u=u, uTwr=ut, y=y, z=h[5] + np.arange(nz) * h[0], t=np.arange(nt) * h[2], zTwr=h[5] - np.arange(ntw) * h[0], zRef=h[4], uRef=h[3], dt=h[2],
             ID=ID, info=info, ny=ny, nz=nz, nt=nt, ntw=ntw, atol=1e-9 * (32768 + np.abs(o)) / np.abs(s))
    return b, t



def bts(case, p, used=0.25):
    """a box read by a new object, or by one that was used for another box before"""
    from weio.turbsim_file import TurbSimFile
    rnd = case.rnd
    if rnd.random() >= used:
        return case.call('read', TurbSimFile, p)
    b, t = gen_bts(case, ymin=3, zmin=3, tmin=4)
    f = case.call('read', TurbSimFile, case.write('other.bts', b))
    for q in rnd.sample([lambda: f.iMid, lambda: repr(f), lambda: f.vertProfile(), lambda: f.vertProfile('mid'), lambda: f.makePeriodic(), lambda: f.midValues(), lambda: f.crosscorr_y(), lambda: f.closestPoint(0, 0)], 4):
        with np.errstate(all='ignore'):
            case.attempt('other box', q)
    case.call('read', lambda: f.read(p))
    return f


def velocity(case, shape, towershape):
    """physically and numerically diverse velocity fields (3, nt, ny, nz)"""
    rnd, rng = case.rnd, case.rng
    u = np.empty(shape)
    ut = np.empty(towershape)
    kinds = []
    for k in range(3):
        kind = rnd.choice(['turb', 'turb', 'const', 'zero', 'steady', 'tiny', 'huge', 'neg', 'twodigit', 'profile', 'int'])
        mean = rnd.choice([0.0, 8.0, 12.34, 25.0, -7.5])
        std = 1.5
        if kind == 'const':
            u[k], ut[k] = mean + 0.3, mean + 0.3
        elif kind == 'zero':
            u[k], ut[k] = 0, 0
        else:
            if kind == 'steady':
                std = rnd.choice([1e-2, 1e-3, 1e-4, 1e-6])
            elif kind == 'tiny':
                mean, std = 0.0, 1e-7
            elif kind == 'huge':
                mean, std = 0.0, 1e6
            elif kind == 'neg':
                mean = -30.0
            u[k] = mean + std * rng.normal(size=shape[1:])
            ut[k] = mean + std * rng.normal(size=towershape[1:])
            if kind == 'profile':
                u[k] = u[k] * 0.1 + np.linspace(5, 15, shape[3])[None, None, :]
            elif kind == 'int':
                u[k] = np.round(u[k])
            elif kind == 'twodigit' and ut[k].size:
                ut[k] *= 3          # the tower holds the extremes
        kinds.append(kind)
    return u, ut, kinds


def gen_mann(case, long=False):
    rnd, rng = case.rnd, case.rng
    if long:
        N = rnd.choice([(2, 1500, 1), (1, 2, 2048), (3, 1100, 2), (4096, 1, 2)])
    else:
        N = (logint(rnd, 1, 64), logint(rnd, 1, 12), logint(rnd, 1, 12))
    f = (rng.normal(size=N) * 10.0 ** rnd.randint(-3, 3)).astype('<f4')       # f[ix, iy, iz] with y increasing
    b = f[:, ::-1, :].tobytes()                                                # stored with y decreasing, z fastest
    return b, f, N
