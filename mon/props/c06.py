"""C06: FAST output files written by the library read back as the data given."""
import struct
import numpy as np
import pandas as pd
from ..core import Workload
from ..compare import arr_close, freeze, same
from ..gen import fastout
from ..gen.util import names, UNITS, logint, values

TECHNIQUE = 'runtime monitoring: channel tables pass through every public writer and back; a conservation monitor with the resolution of the format judges names, units, times and every value'
RULE = ("Random finite channel tables (constant, tiny, huge, offset, sign-changing, integer, single precision) are written through each public writer (object write, writeDataFrame, writeBinary) and read back both by an independent "
        "decoder of the binary layout and by the library; distinct by (writer, channels, steps, kinds of channel).")
ASSUME = ['Time axis evenly spaced (the packed variant stores start and increment only); names and bracketed units fit the 10-character fields; values within +-1e25.']
EPS32 = 2.0 ** -23


def decode(path):
    """independent decoder of variant 2"""
    b = open(path, 'rb').read()
    fid, n, nt = struct.unpack('<hii', b[:10])
    t0, dt = struct.unpack('<dd', b[10:26])
    o = 26
    scl = np.frombuffer(b, '<f4', n, o).astype(float); o += 4 * n
    off = np.frombuffer(b, '<f4', n, o).astype(float); o += 4 * n
    L, = struct.unpack('<i', b[o:o + 4]); o += 4
    desc = b[o:o + L].decode('latin-1'); o += L
    nm = [b[o + 10 * i:o + 10 * i + 10].decode('latin-1').strip() for i in range(n + 1)]; o += 10 * (n + 1)
    un = [b[o + 10 * i:o + 10 * i + 10].decode('latin-1').strip() for i in range(n + 1)]; o += 10 * (n + 1)
    v = np.frombuffer(b, '<i2', n * nt, o).reshape(nt, n); o += 2 * n * nt
    return dict(fid=fid, n=n, nt=nt, time=t0 + dt * np.arange(nt), data=(v - off) / scl, names=nm, units=un, desc=desc, rest=len(b) - o)


def tol(data, k=1):
    data = np.asarray(data, float)
    rng = data.max(axis=0) - data.min(axis=0)
    rng = np.where(rng == 0, 1.0, rng)
    # a range that vanishes in single precision counts as constant
    return k * (rng * (1 + 2e-3) / 65535 + 4 * EPS32 * np.abs(data).max(axis=0)) + np.where(rng < 1e-37, 1.0 / 65535, 0)


def table(case, nmax=25, ntmax=300, ntmin=1):
    rnd, rng = case.rnd, case.rng
    n = logint(rnd, 1, nmax)
    nt = logint(rnd, ntmin, ntmax)
    t0 = rnd.choice([0.0, 100.0, -3.5, 600.0])
    dt = rnd.choice([0.1, 0.0125, 1.0, 0.05, 0.25, 10.0])
    data = np.empty((nt, n))
    kinds = []
    for i in range(n):
        data[:, i], kd = values(rng, rnd, nt, lo=-9, hi=9)
        if rnd.random() < 0.1:
            # one outlier at a chosen extreme
            data[rnd.randrange(nt), i] = rnd.choice([-1, 1]) * 10.0 ** rnd.randint(-3, 6)
        kinds.append(kd[:2])
    time = t0 + dt * np.arange(nt)
    return np.column_stack([time, data]), kinds


def judge(case, path, chan, nm, un, desc, k=1):
    from weio.fast_output_file import FASTOutputFile
    T = tol(chan[:, 1:], k)
    d = decode(path)
    case.check(d['rest'] == 0, 'file-size', 'extra or missing bytes: {}'.format(d['rest']))
    case.check((d['n'], d['nt']) == (chan.shape[1] - 1, chan.shape[0]), 'file-shape', str((d['n'], d['nt'])))
    m = arr_close(d['data'], chan[:, 1:], atol=T[None, :])
    case.check(m is None, 'file-values', m)
    case.check(d['names'] == nm, 'file-names', lambda: '{} vs {}'.format(d['names'], nm))
    case.check(d['units'] == ['(' + u + ')' for u in un], 'file-units', lambda: '{} vs {}'.format(d['units'], un))
    ttol = 4e-16 * np.abs(chan[:, 0]).max() * (2 + len(chan)) + 1e-15
    m = arr_close(d['time'], chan[:, 0], atol=ttol)
    case.check(m is None, 'file-time', m)
    f = case.call('read', FASTOutputFile, path)
    df = f.toDataFrame()
    case.check(df.shape == chan.shape, 'shape', '{} vs {}'.format(df.shape, chan.shape))
    m = arr_close(df.values[:, 1:], chan[:, 1:], atol=T[None, :])
    case.check(m is None, 'values', m)
    m = arr_close(df.values[:, 0], chan[:, 0], atol=ttol)
    case.check(m is None, 'time', m)
    case.check(list(f.info['attribute_names']) == nm, 'names', lambda: str(f.info['attribute_names']))
    case.check(list(f.info['attribute_units']) == un, 'units', lambda: '{} vs {}'.format(f.info['attribute_units'], un))
    if desc is not None:
        case.check(f.info['description'].strip() == desc.strip(), 'description', lambda: '{!r} vs {!r}'.format(f.info['description'], desc))
    return f


def w_write_binary(case):
    from weio.fast_output_file import writeBinary
    rnd = case.rnd
    chan, kinds = table(case)
    n = chan.shape[1] - 1
    nm = ['Time'] + names(rnd, n)
    un = ['s'] + [rnd.choice(UNITS) for _ in range(n)]
    if rnd.random() < 0.1:
        un[0] = ''
    if rnd.random() < 0.2:
        un[rnd.randrange(n) + 1] = ''
    given = [('(' + u + ')') for u in un] if rnd.random() < 0.4 else list(un)
    desc = rnd.choice(['', 'A description', 'x' * 300, 'one line\nanother line', 'word ' * 400 + 'end', 'caf\xe9'])
    variant = rnd.choice(['array', 'fortran', 'float32', 'list', 'strided'])
    arg = chan
    if variant == 'fortran':
        arg = np.asfortranarray(chan)
    elif variant == 'float32':
        chan = chan.astype(np.float32).astype(float)
        tt = np.round(chan[:, 0])  # times exactly representable
        chan[:, 0] = tt[0] + np.arange(len(tt)) * 0.25
        arg = chan.astype(np.float32)
    elif variant == 'list':
        arg = [list(r) for r in chan]
    elif variant == 'strided':
        arg = np.repeat(chan, 2, axis=0)[::2]
    p = case.path('o.outb')
    snap = freeze([np.array(arg), nm, given])
    case.desc = dict(n=n, nt=len(chan), variant=variant, kinds=kinds[:5], bracketed=given != un)
    case.sig('wb', n, len(chan), variant, tuple(kinds), len(desc))
    case.call('writeBinary', writeBinary, p, arg, nm, given, descStr=desc)
    d = same(snap, freeze([np.array(arg), nm, given]))
    case.check(d is None, 'arguments-untouched', d)
    judge(case, p, chan, nm, un, desc)


def w_write_df(case):
    from weio.fast_output_file import FASTOutputFile, writeDataFrame
    rnd = case.rnd
    chan, kinds = table(case)
    n = chan.shape[1] - 1
    nm = ['Time'] + names(rnd, n, chars='abcdefgXYZ0123456789', minlen=2, maxlen=rnd.choice([9, 10]))
    un = ['s'] + [rnd.choice(UNITS) for _ in range(n)]
    if rnd.random() < 0.2:
        # names with a bracketed part of their own, as those of several models
        j = rnd.randrange(1, n + 1)
        nm[j] = rnd.choice('ABCD') + str(rnd.randrange(10)) + rnd.choice(['[1]', '(2)', '[12]', '(x)', '[a]b'])
        if len(set(nm)) != n + 1:
            nm[j] = 'B[7]z'
    if rnd.random() < 0.2:
        j = rnd.randrange(1, n + 1)
        nm[j] = rnd.choice('ABCD') + str(rnd.randrange(10)) + rnd.choice(['_', '_', 'x_', '__'])      # the last underscore before the unit is the separator
        if len(set(nm)) != n + 1:
            nm[j] = 'B_7_'
    cols = []
    brk = [('[' in a or '(' in a or a[-1] == '_') for a in nm]
    for i, (a, u) in enumerate(zip(nm, un)):
        st = rnd.choice(['_[{}]', '_[{}]', '_({})', ' [{}]', '({})', None]) if i and not brk[i] else '_[{}]'
        if st == ' [{}]' and len(a) == 10:
            st = '_[{}]'     # the blank would not fit the field
        if st is None:
            un[i] = ''
            cols.append(a)
        else:
            cols.append(a + st.format(u))
    df = pd.DataFrame(chan, columns=cols)
    if rnd.random() < 0.3:
        df.index = np.arange(len(df))[::-1] + 5
    p = case.path('o.outb')
    case.desc = dict(cols=cols[:6], nt=len(chan))
    case.sig('wdf', n, len(chan), tuple(c[len(a):len(a) + 2] for c, a in zip(cols, nm)), tuple(kinds))
    snap = freeze(df)
    if rnd.random() < 0.5:
        case.call('writeDataFrame', writeDataFrame, df, p)
    else:
        case.call('writeDataFrame', FASTOutputFile().writeDataFrame, df, p)
    case.check(same(snap, freeze(df)) is None, 'arguments-untouched', 'data frame changed')
    judge(case, p, chan, nm, un, None)
    r = case.attempt('writeDataFrame-text', writeDataFrame, df, case.path('nope.out'), binary=False)
    import os
    from ..core import Raised
    case.check(isinstance(r, Raised) or os.path.exists(case.path('nope.out')), 'not-silently-ignored', 'writeDataFrame(binary=False) neither wrote nor raised')


def w_rewrite_binary(case):
    """object read from any variant, possibly edited, written, re-read, several cycles"""
    from weio.fast_output_file import FASTOutputFile
    rnd = case.rnd
    while True:
        b, t = fastout.gen_binary(case, fid=rnd.choice([2, 2, 3, 4]))
        if max(len(s) for s in t['names']) <= 10 and max(len(u) for u in t['units']) <= 8 and np.abs(t['data']).max() < 1e25 \
                and (np.abs(t['data'])[t['data'] != 0].min() if (t['data'] != 0).any() else 1) > 1e-25:
            break
    p = case.write('i.outb', b)
    f = case.call('read', FASTOutputFile, p)
    chan = np.column_stack([t['time'], t['data']])
    if rnd.random() < 0.5:
        # edit the data
        j = rnd.randrange(1, chan.shape[1])
        f.data[:, j] = f.data[:, j] * 2 + 1
        chan[:, j] = chan[:, j] * 2 + 1
    if rnd.random() < 0.25:
        # the data as a frame of the user
        own = pd.DataFrame(chan.copy(), columns=['my{}'.format(i) for i in range(chan.shape[1])], index=np.arange(len(chan)) + rnd.choice([0, 3]))
        f.data = own
        snap = freeze(own)
        for _ in range(rnd.choice([1, 2])):
            df = case.call('toDataFrame', f.toDataFrame)
            case.check(list(df.columns) == fastout.df_columns(t) and arr_close(df.values, chan, rtol=1e-7, atol=1e-30 + 1e-6 * np.abs(chan).max()) is None, 'frame-of-frame', lambda: 'columns {}'.format(list(df.columns)[:5]))
        case.check(same(snap, freeze(own)) is None, 'arguments-untouched', 'the frame of the user changed')
    src = open(p, 'rb').read()
    case.desc = dict(fid=t['fid'], n=t['n'], nt=t['nt'])
    case.sig('rw', t['fid'], t['n'], t['nt'])
    cyc = rnd.choice([1, 2, 3])
    for k in range(cyc):
        q = case.path('o{}.outb'.format(k))
        case.call('write', f.write, q)
        f = judge(case, q, chan, t['names'], t['units'], t['description'], k=k + 1)
    case.check(open(p, 'rb').read() == src, 'source-untouched', 'source file changed')


def w_rewrite_ascii(case):
    from weio.fast_output_file import FASTOutputFile
    rnd = case.rnd
    txt, t = fastout.gen_ascii(case)
    p = case.write('i.out', txt)
    f = case.call('read', FASTOutputFile, p)
    data, time = t['data'].copy(), t['time']
    if rnd.random() < 0.5:
        j = rnd.randrange(data.shape[1])
        f.data[:, j + 1] = f.data[:, j + 1] * -3
        data[:, j] = data[:, j] * -3
    exp = np.vectorize(lambda x: float('{:.3e}'.format(x)))(data)
    exptime = np.array([float('{:.4f}'.format(x)) for x in time])
    case.sig('asc', t['n'], t['nt'], t['style'])
    case.desc = dict(n=t['n'], nt=t['nt'], style=t['style'])
    prev = None
    for k in range(rnd.choice([1, 2, 3])):
        q = case.path('o{}.out'.format(k))
        case.call('write', f.write, q)
        f = case.call('read', FASTOutputFile, q)
        df = f.toDataFrame()
        case.check(list(df.columns) == fastout.df_columns(t), 'columns', lambda: '{}'.format(list(df.columns)))
        # at least the four significant digits of the text format must survive
        m = arr_close(df.values[:, 1:], data, rtol=5.01e-4, atol=1e-300)
        case.check(m is None, 'values', m)
        m = arr_close(df.values[:, 0], exptime, atol=5.1e-5)
        case.check(m is None, 'time', m)
        cur = open(q).read()
        if prev is not None:
            case.check(cur == prev, 'stable', 'second cycle changes the text')
        prev = cur


def w_refuse(case):
    """tables that the format cannot hold are refused, and the file that is there stays as it was"""
    import os
    from weio.fast_output_file import FASTOutputFile, writeBinary, writeDataFrame
    from ..core import Raised
    rnd = case.rnd
    chan, kinds = table(case)
    n = chan.shape[1] - 1
    nm = ['Time'] + names(rnd, n, chars='abcdefgXYZ0123456789', minlen=2)
    un = ['s'] + [rnd.choice(UNITS) for _ in range(n)]
    why = rnd.choice(['no-time', 'time-not-first', 'long-name', 'long-unit', 'latin'])
    desc = ''
    j = rnd.randrange(1, n + 1)
    if why == 'no-time':
        nm[0] = rnd.choice(['Tim', 'x', 'TimeStep'])
    elif why == 'time-not-first':
        nm[0], nm[j] = nm[j], nm[0]
    elif why == 'long-name':
        nm[j] = 'N' * rnd.choice([11, 12, 30])
    elif why == 'long-unit':
        un[j] = 'u' * rnd.choice([11, 9, 20])
    else:
        k = rnd.choice(['desc', 'name', 'unit'])
        if k == 'desc':
            desc = 'abc \u03a9'
        elif k == 'name':
            nm[j] = 'o\u03a9'
        else:
            un[j] = '\u03a9'
    p = case.path('o.outb')
    old = rnd.choice([None, b'', b'old content of the file'])
    if old is not None:
        with open(p, 'wb') as fid:
            fid.write(old)
    how = rnd.choice(['writeBinary', 'df', 'object'])
    case.desc = dict(why=why, how=how, n=n, nt=len(chan), existing=old is not None)
    case.sig('refuse', why, how, n, len(chan), old)
    if how == 'writeBinary' or desc:
        r = case.attempt('writeBinary', writeBinary, p, chan, nm, un, descStr=desc)
    elif how == 'df':
        r = case.attempt('writeDataFrame', writeDataFrame, pd.DataFrame(chan, columns=[a + '_[' + u + ']' for a, u in zip(nm, un)]), p)
    else:
        f = FASTOutputFile()
        f['binary'] = True
        f.data = chan
        f.info = dict(attribute_names=nm, attribute_units=un, description=desc)
        r = case.attempt('write', f.write, p)
    case.check(isinstance(r, Raised), 'refused', 'a table that does not fit the format was written: ' + why)
    now = open(p, 'rb').read() if os.path.exists(p) else None
    case.check(now == old, 'nothing-written', lambda: 'the target holds {!r}, was {!r}'.format(now[:20] if now else now, old))


WORKLOADS = [
    Workload('refuse', w_refuse, quick=3600, thorough=12000),
    Workload('writeBinary', w_write_binary, quick=6000, thorough=48000),
    Workload('writeDataFrame', w_write_df, quick=3600, thorough=32000),
    Workload('rewrite_binary', w_rewrite_binary, quick=3600, thorough=24000),
    Workload('rewrite_ascii', w_rewrite_ascii, quick=3000, thorough=20000),
]
