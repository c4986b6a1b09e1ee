"""Independent encoders of FAST/OpenFAST output files, written from the format definition (ReadFASTbinary.m / OpenFAST docs)."""
import struct
import numpy as np
from .util import names, UNITS, logint, values


def channels(rnd, n, width=10):
    nm = names(rnd, n, maxlen=width)
    un = [rnd.choice([u for u in UNITS if len(u) + 2 <= width]) for _ in range(n)]
    return nm, un


def df_columns(truth):
    return [n + '_[' + u.replace('sec', 's') + ']' for n, u in zip(truth['names'], truth['units'])]


def gen_binary(case, fid=None, big=False):
    """-> (bytes, truth). truth: time, data (nt, n), names, units (incl. time), description, atol per channel"""
    rnd, rng = case.rnd, case.rng
    fid = fid or rnd.choice([1, 2, 3, 4])
    width = rnd.choice([10, 12, 20, 37, 5, 41, 60, 100]) if fid == 4 else 10
    n = logint(rnd, 1, 40)
    nt = logint(rnd, 1, 400)
    if big:
        # more values than any sensible read buffer, sizes around multiples of it
        n = rnd.choice([1, 2, 3, 7, 40, 41, 1000, 4097])
        base = 4096 * 40 // n
        nt = max(1, rnd.choice([base - 1, base, base + 1, 2 * base, 2 * base + 1, int(2.6 * base)]))
    nm, un = channels(rnd, n, width)
    if width > 5 and rnd.random() < 0.25:
        # names with blanks within
        for i in range(n):
            if 3 <= len(nm[i]) < width and rnd.random() < 0.5:
                j = rnd.randrange(1, len(nm[i]))
                nm[i] = nm[i][:j] + ' ' + nm[i][j:]
        if len(set(nm)) != n:
            nm, un = channels(rnd, n, width)
    nm = ['Time'] + nm
    un = [rnd.choice(['s', 'sec'])] + un
    desc = rnd.choice(['', 'x', 'Test of a description, generated 01-Jan-2020 at 12:00:00.', 'D' * 500, 'first line\nsecond line\n third', 'Word ' * 300 + 'end',
                       'a caf\xe9 at 10\xb0', ''.join(rnd.choice('abc DEF 0-9_:/\\') for _ in range(rnd.randint(1, 80)))]).strip()
    b = struct.pack('<h', fid)
    if fid == 4:
        b += struct.pack('<h', width)
    b += struct.pack('<ii', n, nt)
    idx = np.arange(nt)
    if fid == 1:
        scl = rnd.choice([1.0, 1000.0, 2147483.0, 0.5])
        off = rnd.choice([0.0, -100.0, 12.25])
        step = np.cumsum(rng.integers(1, 50, nt)) + rnd.choice([0, -1000, 5, 2000000011, -2100000000])     # non constant time step
        ptime = step.astype('<i4')
        time = (ptime.astype(float) - off) / scl
        b += struct.pack('<dd', scl, off)
    else:
        t0 = rnd.choice([0.0, 100.0, -3.5, 1e4, 0.0125])
        dt = rnd.choice([0.1, 0.0125, 1.0, 1 / 3., 0.005, 25.0])
        time = t0 + dt * idx
        b += struct.pack('<dd', t0, dt)
    atol = np.zeros(n)
    if fid == 3:
        data = np.empty((nt, n))
        for i in range(n):
            data[:, i] = values(rng, rnd, nt, lo=-300, hi=300)[0]
        payload = data.astype('<f8').tobytes()
    else:
        packed = rng.integers(-32768, 32768, (nt, n)).astype(np.int16)
        packed.ravel()[rng.integers(0, packed.size, min(packed.size, 4))] = [-32768, 32767, 0, -1][:min(packed.size, 4)]
        scl = np.array([rnd.choice([1.0, 65535.0, 1e-3, 327.67, 1e6, -2.0, 1e-12]) * (1 + rnd.random()) for _ in range(n)], '<f4')
        off = np.array([rnd.choice([0.0, -32768.0, 1e6, 3.5, -1e8]) * (1 + rnd.random()) for _ in range(n)], '<f4')
        nanmask = np.array([rnd.random() < 0.04 for _ in range(n)])
        scl[nanmask] = np.nan
        off[nanmask] = np.nan
        b += scl.tobytes() + off.tobytes()
        s, o = scl.astype(float), off.astype(float)
        with np.errstate(all='ignore'):
            data = (packed.astype(float) - o) / s
            atol = 1e-11 * (32768 + np.abs(o)) / np.abs(s)
        data[:, nanmask] = 0
        atol[nanmask] = 0
        payload = packed.astype('<i2').tobytes()
    b += struct.pack('<i', len(desc)) + desc.encode('latin-1')
    for s in nm:
        b += s.encode('latin-1').ljust(width)[:width]
    for s in un:
        b += ('(' + s + ')').encode('latin-1').ljust(width)[:width]
    if fid == 1:
        b += ptime.tobytes()
    b += payload
    truth = dict(time=time, data=data, names=nm, units=un, description=desc, atol=atol, n=n, nt=nt, fid=fid, width=width,
                 nan=bool(fid != 3 and nanmask.any()))
    return b, truth


def gen_ascii(case, elev=False, long=True):
    rnd, rng = case.rnd, case.rng
    n = logint(rnd, 1, 60)
    nt = logint(rnd, 1, 300)
    nm, un = channels(rnd, n)
    nm = [rnd.choice(['Time', 'time', 'TIME'])] + nm
    un = [rnd.choice(['s', 'sec'])] + un
    if long and rnd.random() < 0.3:
        # the text form does not limit the length
        un[rnd.randrange(n) + 1] = rnd.choice(['kN*m*s^2/rad', 'kg/m^3/s', 'kg*m/s^2', 'm^2/s^3/Hz'])
    style = rnd.choice(['e', 'E', 'f', 'g', 'int'])
    sep = rnd.choice(['\t', '  ', ' \t '])
    fmt = {'e': '{:11.3e}', 'E': '{:12.5E}', 'f': '{:14.6f}', 'g': '{:.12g}', 'int': '{:.0f}'}[style]
    head = ['', 'Timestep: 0.0125', ' Time-marching simulation', 'times in seconds', 'The time', 'Predictions were generated on 01-Jan-2020 using OpenFAST', ' linked with NWTC Library', '', 'Description from the FAST input file: test', 'Description: M\udcf8lle', '5 \u00b0']
    nh = rnd.choice([0, 0, 1, 3, 5, 6, 8, 9, 15, 40])
    head = [rnd.choice(head) for _ in range(nh)]
    data = np.empty((nt, n))
    txt = [[] for _ in range(nt)]
    cols = []
    for j in range(n):
        v, _ = values(rng, rnd, nt, lo=-9, hi=9)
        s = [fmt.format(x) for x in v]
        if rnd.random() < 0.05:
            s[rnd.randrange(nt)] = 'NaN'
        cols.append(s)
        data[:, j] = [float(x) for x in s]
    t0 = rnd.choice([0., 100., 12.5])
    dt = rnd.choice([0.05, 0.1, 1.0, 0.0125])
    tt = ['{:10.4f}'.format(t0 + dt * k) for k in range(nt)]
    time = np.array([float(s) for s in tt])
    lines = list(head)
    lines.append(sep.join(['{:>10s}'.format(s) for s in nm]))
    lines.append(sep.join(['{:>10s}'.format('(' + u + ')') for u in un]))
    for k in range(nt):
        lines.append(sep.join([tt[k]] + [cols[j][k] for j in range(n)]))
    nl = rnd.choice(['\n', '\n', '\r\n'])
    tail = rnd.choice(['', nl, nl, nl + nl, nl + nl + 'This output file was generated by HydroDyn' + nl])
    txt = nl.join(lines) + tail
    if rnd.random() < 0.3:
        # leading blanks
        txt = nl.join((' ' + l) if i >= len(head) else l for i, l in enumerate(txt.split(nl)))
    return txt, dict(time=time, data=data, names=nm, units=un, description=None, atol=np.zeros(n), n=n, nt=nt, head=head, style=style, lines=txt.split(nl))


def gen_elm(case):
    """element file of AeroDyn 14: a remark, the names, the units, then the numbers"""
    rnd, rng = case.rnd, case.rng
    n = logint(rnd, 1, 60)
    nt = logint(rnd, 2, 300)
    nm, un = channels(rnd, n)
    nm = ['Time'] + nm
    un = [rnd.choice(['s', 'sec'])] + [u.replace('%', '-') for u in un]
    fmt = rnd.choice(['{:11.3e}', '{:12.5E}', '{:14.6f}', '{:.12g}'])
    data = np.empty((nt, n))
    cols = []
    for j in range(n):
        v, _ = values(rng, rnd, nt, lo=-9, hi=9)
        cols.append([fmt.format(x) for x in v])
        data[:, j] = [float(x) for x in cols[-1]]
    t0 = rnd.choice([0., 100., 12.5])
    dt = rnd.choice([0.05, 0.1, 1.0, 0.0125])
    tt = ['{:.4f}'.format(t0 + dt * k) for k in range(nt)]
    time = np.array([float(s) for s in tt])
    w = rnd.choice([1, 10, 12])
    lines = [rnd.choice(['This file was generated by AeroDyn (v14.02.01, 01-Jan-2020).', 'Element output'])]
    lines.append(' '.join(s.ljust(w) for s in nm).rstrip())
    lines.append(' '.join(('(' + u + ')').ljust(w) for u in un).rstrip())
    for k in range(nt):
        lines.append(' '.join([tt[k].ljust(w)] + [cols[j][k] for j in range(n)]))
    return '\n'.join(lines) + '\n', dict(time=time, data=data, names=nm, units=un, description=None, atol=np.zeros(n), n=n, nt=nt)
