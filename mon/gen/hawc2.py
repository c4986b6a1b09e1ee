"""HAWC2 / BHawC time series (dat + sel) with the sensors and values they denote."""
import numpy as np
from .util import logint, values

UNITS = ['s', 'm', 'm/s', 'deg', 'rad/s', 'kNm', 'kN', 'kW', '-', 'N/m', 'm/s^2', 'deg C', '%', '', 'kNm/m', '(m/s)', '[deg]', 'N/(m s)', '\udcb0', '\u00b0/s']
BODIES = ['tower', 'blade1', 'shaft', 'Tower-top', 'hub_1', 'b.2', 'MONOPILE']


class S:
    """one sensor: name, unit, descr as stored; col = name in the data frame (without unit)"""
    def __init__(self, name, unit, descr, col):
        self.name, self.unit, self.descr, self.col = name, unit, descr, col


def sensor(rnd, i):
    u = rnd.choice(UNITS)
    k = rnd.choice(['plain', 'plain', 'mbdy-node', 'mbdy-elem', 'aero', 'state', 'nodescr', 'global', 'long'])
    comp = rnd.choice(['Mx', 'My', 'Fz', 'Dx', 'Rot x', 'V y'])
    if k == 'plain':
        n = rnd.choice(['WSP gl. coo.,Vy', 'bea1 angle', 'Omega', 'Shear force  x', 'DLL inp {}: 3'.format(i), 'Ae rot. power', 'a,b;c', '42', 'x_{}'.format(i)])
        return S(n, u, rnd.choice(['Free wind speed Vy, gl. coo, of gl. pos    2.50,  -1.00, -47.50', 'shaft_rot angle', 'some  text {}'.format(i), 'position p\udce5 bladet', '\u03b1 angle', 'E-nr only 3', 'x']), n.replace(' ', ''))
    if k == 'nodescr':
        n = 'ch {}'.format(i)
        return S(n, u, '', n.replace(' ', ''))
    if k == 'long':
        n = ('Sensor name of thirty chars {:02d}'.format(i % 100))[:30]
        return S(n, (u + ' 1234567890')[:10].strip(), 'd' * rnd.choice([1, 40, 100]), n.replace(' ', ''))
    if k == 'global':
        n = '{} coo: global'.format(comp)
        return S(n, u, 'Distance {} in global coo'.format(comp), comp.replace(' ', '') + 'g')
    b = rnd.choice(BODIES)
    if k == 'mbdy-node':
        nd = rnd.randint(1, 120)
        n = '{} coo: {}'.format(comp, b)
        if rnd.random() < 0.3:      # in the coordinates of another body
            o = rnd.choice([x for x in BODIES if not x.startswith(b)])
            return S('{} coo: {}'.format(comp, o), u, 'Moment {} Mbdy:{} nodenr: {:3d} coo: {}  tower base flange'.format(comp, b, nd, o), b + 'N{}'.format(nd) + comp.replace(' ', '') + 'coo:' + o)
        return S(n, u, 'Moment {} Mbdy:{} nodenr: {:3d} coo: {}  tower base flange'.format(comp, b, nd, b), b + 'N{}'.format(nd) + comp.replace(' ', '') + 'b')
    if k == 'mbdy-elem':
        e = rnd.choice([rnd.randint(1, 60), rnd.randint(95, 300)])
        z = rnd.choice(['0.00', '1.00', '0.50', '0.25', '0.10', '0.99', '0.01'])
        n = '{} coo: {}'.format(comp, b)
        fz = float(z)
        pre = 'N{}'.format(e if fz == 0 else e + 1) if fz in (0, 1) else 'N{}'.format(e + fz)
        return S(n, u, 'State {} Mbdy:{} E-nr: {:3d} Z-rel:{} coo: {}'.format(comp, b, e, z, b), b + pre + comp.replace(' ', '') + 'b')
    if k == 'state':
        e = rnd.randint(1, 60)
        z = rnd.choice(['0.00', '1.00', '0.50'])
        fz = float(z)
        pre = 'N{}'.format(e if fz == 0 else e + 1) if fz in (0, 1) else 'N{}'.format(e + fz)
        n, c = rnd.choice([('State pos x coo: global', 'xg'), ('axisangle y coo: global', 'rot_yg')])
        return S(n, u, 'Pos Mbdy:{}  E-nr: {:3d}  Z-rel: {} coo: global'.format(b, e, z), b + pre + c)
    if k == 'aero':
        s = '{:.2f}'.format(rnd.choice([rnd.uniform(0, 10), rnd.uniform(1, 90), rnd.uniform(95, 140)]))
        ss = '{:.3f}'.format(rnd.uniform(0, 1))
        n = rnd.choice(['Cl, R=  20.3', 'Alfa, R= 1.0', 'Vrel'])
        return S(n, u, 'Lift of blade 1, s= {}[m] s/S= {}'.format(s, ss), 'r' + ss + n.replace(' ', ''))


class H:
    pass


def gen(case, kind=None, big=False):
    rnd, rng = case.rnd, case.rng
    h = H()
    h.kind = kind or rnd.choice(['ascii', 'binary', 'binary', 'bhawc'])
    h.nch = rnd.choice([1, 2, 3]) if rnd.random() < 0.2 else logint(rnd, 1, 60)
    h.nsc = rnd.choice([1, 2, 3]) if rnd.random() < 0.2 else logint(rnd, 1, 20000 if big else 300)
    if h.kind == 'bhawc':
        h.sensors = []
        for i in range(h.nch):
            d = rnd.choice(['Time', 'Rotor azimuthal position', 'Ff_x interface force', 'Position [m] above', 'a description', 'Wave elevation', 'x'])
            n = rnd.choice(['t', 'ang_azi', 'Ff_x interface', 'V_hor', 'lab{}'.format(i), 'y 2'])
            u = '[' + rnd.choice(['s', 'm', 'm/s', 'deg', 'kNm', '-', 'kN']) + ']'
            h.sensors.append(S(n, u, d, n.replace(' ', '')))
    else:
        h.sensors = [S('Time', 's', 'Time', 'Time')] + [sensor(rnd, i) for i in range(1, h.nch)]
    dt = rnd.choice([0.01, 0.025, 0.1, 1 / 3.0, 2.0])
    t0 = rnd.choice([0.0, dt, 100.0])
    h.time = t0 + dt * np.arange(h.nsc)
    cols = [h.time]
    for _ in range(h.nch - 1):
        v, k = values(rng, rnd, h.nsc)
        cols.append(v)
    V = np.array(cols).T.reshape(h.nsc, h.nch)
    h.simtime = float(h.time[-1])
    if h.kind == 'binary':
        h.scfmt = rnd.choice(['  {:.5E}', '  {:.5E}', ' {:.12E}', '    {!r}', '{:>14.4e}', '  {:.5E} ;'[:9]])
        scale = np.array([float(h.scfmt.format(1.0001 * max(np.abs(V[:, j]).max() / 32000., 1e-30))) for j in range(h.nch)])
        h.scale = scale
        q = np.clip(np.round(V / scale), -32768, 32767).astype('<i2')
        m = rng.random(q.shape)
        if rnd.random() < 0.3:
            q = np.where(m < 0.02, -32768, np.where(m > 0.98, 32767, q)).astype('<i2')
        h.q = q
        h.values = q.astype(float) * scale
    else:
        fmt = rnd.choice(['%16.5E', '%14.8e', '%12.5f', '%.10g', '%g'])
        if fmt == '%12.5f':
            V = np.clip(V, -1e6, 1e6)
        h.text = [[fmt % x for x in row] for row in V]
        h.values = np.array([[float(x) for x in row] for row in h.text]).reshape(h.nsc, h.nch)
    return h


LINE = '_' * 120


def write(case, h, stem):
    rnd = case.rnd
    eol = rnd.choice(['\n', '\n', '\r\n'])
    t = '{:.3f}'.format(h.simtime)
    if h.kind == 'bhawc':
        if rnd.random() < 0.5:
            L = [' BHawC channel reference file (sel):', '+' + '=' * 100 + '+', '     BHawC command file :   NA.btc  2001.01.21  00:00:00  C:\\Res\\',
                 ' Channel reference file :    NA.sel  2001.01.01  00:00:00  C:\\sim', '            Result file :    NA.dat  2001.01.01  00:00:00  C:\\sim', '',
                 '+' + '=' * 100 + '+', '  Scans    Channels    Time [sec]                Coordinate convention: Siemens', '     {}        {}        {}'.format(h.nsc, h.nch, t),
                 '', 'Channel   Variable description                            Label                 Unit', '']
            if rnd.random() < 0.3:
                L[5:5] = [''] * rnd.randint(1, 2)
            for i, s in enumerate(h.sensors):
                L.append('{:4d}  {:48s}   {:25s}   {}'.format(i + 1, s.descr, s.name, s.unit))
        else:
            L = ['BHawC channel reference file (sel):', '+' + '=' * 100 + '+', 'Original BHAWC file    : NA.dat   2001.01.01  00:00:00  C:\\',
                 'Channel reference file : NA.sel    2001.01.01  00:00:00  C:\\', 'Result file            : NA.dat   2001.01.01  00:00:00  C:\\', '+' + '=' * 100 + '+',
                 'Scans             \tChannels                      \tTime [sec]                \tCoordinate convention: Siemens', '{:19s}\t{:25s}\t{:25s}'.format(str(h.nsc), str(h.nch), t), '',
                 'Channel            \tVariable descriptions    \tLabels                   \tUnits                    ']
            for i, s in enumerate(h.sensors):
                L.append('{:19s}\t{:25s}\t{:25s}\t{:25s}'.format(str(i + 1), s.descr, s.name, s.unit))
    else:
        L = [LINE, '  Version ID : HAWC2MB 12.8', ' ' * 60 + 'Time : 10:02:19', ' ' * 60 + 'Date : 24:01.2013', LINE, '  Result file : ./res/{}.dat'.format(stem), LINE,
             '   Scans    Channels    Time [sec]      Format', '    {:7d}    {:3d}       {:>9s}       {}'.format(h.nsc, h.nch, t, 'BINARY' if h.kind == 'binary' else 'ASCII'), '',
             '  Channel   Variable Description               ', '']
        for i, s in enumerate(h.sensors):
            L.append('{:>6d}      {:31s}{:11s}{}'.format(i + 1, s.name, s.unit, s.descr))
        if h.kind == 'binary':
            L += [LINE, 'Scale factors:'] + [h.scfmt.format(x) for x in h.scale]
        else:
            L += [LINE] if rnd.random() < 0.7 else []
    txt = eol.join(L) + (eol if rnd.random() < 0.8 else '')
    case.write(stem + '.sel', txt)
    if h.kind == 'binary':
        case.write(stem + '.dat', np.ascontiguousarray(h.q.T).tobytes())
    else:
        sep = rnd.choice(['  ', ' ', '\t'])
        case.write(stem + '.dat', eol.join(rnd.choice(['', ' ']) + sep.join(r) for r in h.text) + eol)
    return case.path(stem)
