"""C05: FAST output files are decoded exactly (text and binary)."""
import os
import numpy as np
from ..core import Workload, EXAMPLES
from ..compare import arr_close
from ..gen import fastout

TECHNIQUE = 'runtime monitoring: files of every variant from an independent encoder are read; every value, name, unit and the column order observed are compared with what was encoded, also against buffer sizes and re-reading'
RULE = ("Files are produced by an independent encoder of the text and the four binary variants, with random channel counts, names, units, scalings, time axes, "
        "descriptions and sizes (including sizes around multiples of large buffers); the decoder under test is observed through its data frame and attributes. "
        "A case is non-trivial when at least one value comparison was made; distinct by (variant, number of channels, number of steps, header/description style).")
ASSUME = ['The independent encoder follows the published OpenFAST binary layout (little endian).']


def judge(case, f, t, binary, sec=False):
    df = case.call('toDataFrame', f.toDataFrame)
    case.check(list(df.columns) == fastout.df_columns(t), 'columns', lambda: 'columns {} expected {}'.format(list(df.columns)[:6], fastout.df_columns(t)[:6]))
    if not case.check(df.shape == (t['nt'], t['n'] + 1), 'shape', 'shape {} expected {}'.format(df.shape, (t['nt'], t['n'] + 1))):
        return
    v = df.values
    m = arr_close(v[:, 0], t['time'], rtol=1e-9, atol=1e-12)
    case.check(m is None, 'time', m)
    m = arr_close(v[:, 1:], t['data'], rtol=1e-12, atol=t['atol'][None, :])
    case.check(m is None, 'values', m)
    # attributes
    case.check(list(f.info['attribute_names']) == t['names'], 'names', 'names')
    case.check(list(f.info['attribute_units']) == [u.replace('sec', 's') if sec else u for u in t['units']], 'units', lambda: 'units {} vs {}'.format(list(f.info['attribute_units']), t['units']))
    d = np.asarray(f.data)
    m = arr_close(d[:, 1:], t['data'], rtol=1e-12, atol=t['atol'][None, :])
    case.check(m is None, 'raw-values', m)


def w_binary(case, big=False):
    import weio
    from weio.fast_output_file import FASTOutputFile, load_binary_output
    b, t = fastout.gen_binary(case, fid=(case.index % 4) + 1, big=big)
    name = 'f.outb'
    p = case.write(name, b)
    case.desc = dict(fid=t['fid'], n=t['n'], nt=t['nt'], width=t['width'], desc=t['description'][:40])
    case.sig('bin', t['fid'], t['n'], t['nt'], t['width'], t['description'])
    f = case.call('read', FASTOutputFile, p)
    judge(case, f, t, True)
    case.check(f.info['description'] == t['description'], 'description', lambda: '{!r} vs {!r}'.format(f.info['description'], t['description']))
    if case.index % 3 == 0:
        g = case.call('weio.read', weio.read, p)
        case.check(type(g).__name__ == 'FASTOutputFile', 'auto', type(g).__name__)
        judge(case, g, t, True)
    if not t['nan']:
        # the documented memory trade-off option must not change the result
        d, info = case.call('load_unbuffered', load_binary_output, p, use_buffer=False)
        m = arr_close(d[:, 1:], t['data'], rtol=1e-12, atol=t['atol'][None, :])
        case.check(m is None, 'values-unbuffered', m)
        m = arr_close(d[:, 0], t['time'], rtol=1e-9, atol=1e-12)
        case.check(m is None, 'time-unbuffered', m)


def w_binary_big(case):
    w_binary(case, big=True)


def w_ascii(case):
    import weio
    from weio.fast_output_file import FASTOutputFile
    txt, t = fastout.gen_ascii(case)
    ext = case.rnd.choice(['.out', '.out', '.elev', '.OUT'])
    p = case.write('f' + ext, txt)
    case.desc = dict(n=t['n'], nt=t['nt'], head=len(t['head']), style=t['style'])
    case.sig('ascii', t['n'], t['nt'], len(t['head']), t['style'])
    f = case.call('read', FASTOutputFile, p)
    judge(case, f, t, False)
    if case.index % 3 == 0:
        g = case.call('weio.read', weio.read, p)
        case.check(type(g).__name__ == 'FASTOutputFile', 'auto', type(g).__name__)
        judge(case, g, t, False)
    case.check([l.rstrip('\r\n') for l in f.info['description']] == [l for l in t['lines'][:len(t['head'])]], 'description',
               lambda: '{} vs {}'.format(f.info['description'], t['head']))


def w_elm(case):
    import weio
    from weio.fast_output_file import FASTOutputFile
    txt, t = fastout.gen_elm(case)
    p = case.write(case.rnd.choice(['f.elm', 'F.ELM']), txt)
    case.desc = dict(n=t['n'], nt=t['nt'])
    case.sig('elm', t['n'], t['nt'])
    f = case.call('read', FASTOutputFile, p)
    judge(case, f, t, False, sec=True)
    if case.index % 3 == 0:
        g = case.call('weio.read', weio.read, p)
        case.check(type(g).__name__ == 'FASTOutputFile', 'auto', type(g).__name__)
        judge(case, g, t, False, sec=True)
    q = case.path('o.elm')
    case.call('write', f.write, q)
    g = case.call('reread', FASTOutputFile, q)
    df = g.toDataFrame()
    case.check(list(df.columns) == fastout.df_columns(t), 'rewritten-columns', lambda: str(list(df.columns)))
    if case.check(df.shape == (t['nt'], t['n'] + 1), 'rewritten-shape', str(df.shape)):
        m = arr_close(df.values[:, 1:], t['data'], rtol=5.01e-4, atol=1e-300)
        case.check(m is None, 'rewritten-values', m)
        m = arr_close(df.values[:, 0], t['time'], atol=5.1e-5)
        case.check(m is None, 'rewritten-time', m)


def w_same_model(case):
    """one data set encoded as text and as two binary variants gives the same table"""
    from weio.fast_output_file import FASTOutputFile
    txt, t = fastout.gen_ascii(case, long=False)
    rng = case.rng
    import struct
    p = case.write('a.out', txt)
    n, nt = t['n'], t['nt']
    t['names'][0] = 'Time'
    dt = (t['time'][1] - t['time'][0]) if nt > 1 else 1.0
    b = struct.pack('<h', 3) + struct.pack('<iidd', n, nt, t['time'][0], dt) + struct.pack('<i', 3) + b'abc'
    b += b''.join(s.encode().ljust(10) for s in t['names']) + b''.join(('(' + u + ')').encode().ljust(10) for u in t['units'])
    b += t['data'].astype('<f8').tobytes()
    q = case.write('b.outb', b)
    A = case.call('read', FASTOutputFile, p).toDataFrame()
    B = case.call('read', FASTOutputFile, q).toDataFrame()
    case.sig('same', n, nt)
    case.desc = dict(n=n, nt=nt)
    case.check([c.lower() for c in A.columns] == [c.lower() for c in B.columns], 'same-columns', 'columns differ')
    m = arr_close(B.values[:, 1:], A.values[:, 1:], rtol=1e-12)
    case.check(m is None, 'same-values', m)
    m = arr_close(B.values[:, 0], A.values[:, 0], atol=1.1e-4 * max(1, nt), rtol=1e-9)
    case.check(m is None, 'same-time', m)


WORKLOADS = [
    Workload('binary', w_binary, quick=6000, thorough=60000),
    Workload('binary_big', w_binary_big, quick=96, thorough=1500),
    Workload('ascii', w_ascii, quick=3200, thorough=25000),
    Workload('elm', w_elm, quick=600, thorough=15000),
    Workload('same_model', w_same_model, quick=160, thorough=4000),
]
