"""C12: HAWC2 time series are decoded and written exactly."""
import os
import numpy as np
from ..core import Workload, Raised, EXAMPLES
from ..compare import arr_close, freeze, same
from ..gen import hawc2

TECHNIQUE = 'runtime monitoring: results encoded by an independent writer are read by the library and compared sensor by sensor; read/convert/write histories followed by a reference model of sensors and values'
RULE = ('A case is a HAWC2 text, HAWC2 binary or BHawC result of random size, sensor texts, scale factors and number formats, read through its dat or sel file (or both, with one object), converted repeatedly, '
        'written and read back; distinct by (kind, scans, channels, operations).')
ASSUME = ['Names up to 30 characters, units up to 10 (column widths of the sensor file); BHawC labels and descriptions up to 25.',
          'Written text values have 9 significant digits.']


def strip_unit(u):
    return ''.join(c for c in u if c not in '()[]')


def judge(case, f, h, rtol=1e-12, tag='', names=None):
    D = np.asarray(f.data)
    if not case.check(D.shape == (h.nsc, h.nch), tag + 'shape', 'data {} expected {}'.format(D.shape, (h.nsc, h.nch))):
        return
    m = arr_close(D, h.values, rtol=rtol)
    case.check(m is None, tag + 'values', 'values {}'.format(m))
    for key, exp in (('attribute_names', [s.name for s in h.sensors]), ('attribute_descr', [s.descr for s in h.sensors])):
        got = list(f.info[key])
        case.check(got == exp, tag + key, lambda: '{} {!r:.300} expected {!r:.300}'.format(key, [g for g, e in zip(got, exp) if g != e], [e for g, e in zip(got, exp) if g != e] or len(exp)))
    got = [strip_unit(u) for u in f.info['attribute_units']]
    exp = [strip_unit(s.unit) for s in h.sensors]
    case.check(got == exp, tag + 'units', 'units {!r:.300} expected {!r:.300}'.format(got, exp))


def judge_df(case, f, h, rtol=1e-12, tag='', op='toDataFrame'):
    df = case.call(op, f.toDataFrame)
    cols = [str(c) for c in df.columns]
    exp = ['{}_[{}]'.format(s.col, strip_unit(s.unit)) for s in h.sensors]
    if case.check(cols == exp, tag + 'columns', lambda: 'columns {!r:.400} expected {!r:.400}'.format([g for g, e in zip(cols, exp) if g != e], [e for g, e in zip(cols, exp) if g != e])):
        m = arr_close(df.values, h.values, rtol=rtol)
        case.check(m is None, tag + 'frame-values', 'frame {}'.format(m))


def load(case, cls, stem, obj=None):
    rnd = case.rnd
    fn = stem + rnd.choice(['.dat', '.sel'])
    if obj is not None:
        case.call('read', obj.read, fn)
        return obj
    if rnd.random() < 0.8:
        return case.call('HAWC2DatFile', cls, fn)
    f = cls()
    case.call('read', f.read, fn)
    return f


def wl_read(case, big=False):
    from weio.hawc2_dat_file import HAWC2DatFile
    h = hawc2.gen(case, big=big)
    stem = hawc2.write(case, h, case.rnd.choice(['res', 'my.dat.file', 'a b', 'x.sel.y', 'r_dat']))
    f = load(case, HAWC2DatFile, stem)
    judge(case, f, h)
    judge_df(case, f, h)
    if case.rnd.random() < 0.5:
        judge_df(case, f, h, tag='second-')
        judge(case, f, h, tag='after-frame-')
    case.sig(h.kind, h.nsc, h.nch)
    case.desc = dict(kind=h.kind, scans=h.nsc, channels=h.nch)


def wl_big(case):
    wl_read(case, big=True)


def wl_cycle(case):
    """histories of conversions, writes and re-reads (new or same object)"""
    from weio.hawc2_dat_file import HAWC2DatFile
    rnd = case.rnd
    h = hawc2.gen(case)
    stem = hawc2.write(case, h, 'r0')
    f = load(case, HAWC2DatFile, stem)
    rtol, ops = 1e-12, []
    for k in range(rnd.randint(1, 6)):
        op = rnd.choice(['frame', 'frame', 'write', 'write', 'write', 'edit', 'other'])
        ops.append(op)
        if op == 'frame':
            judge_df(case, f, h, rtol)
        elif op == 'edit':
            h.values = h.values.copy()
            i, j = rnd.randrange(h.nsc), rnd.randrange(h.nch)
            v = rnd.choice([0.0, -1.5, 3.25e7, 1e-9, 12345.678])
            h.values[i, j] = v
            f.data[i, j] = v
        elif op == 'other':
            # the same object reads a different result, then comes back
            g = hawc2.gen(case)
            s2 = hawc2.write(case, g, 'o{}'.format(k))
            f2 = load(case, HAWC2DatFile, s2, obj=f)
            judge(case, f2, g, tag='other-')
            h, rtol, f = g, 1e-12, f2
        else:
            new = case.path(rnd.choice(['w{}'.format(k), 'w.dat.{}'.format(k), 'sub.sel{}'.format(k)]))
            target = new + rnd.choice(['.dat', '.sel', '.dat'])
            before = set(os.listdir(case.dir))
            if rnd.random() < 0.25:        # over existing results
                g = hawc2.gen(case)
                hawc2.write(case, g, os.path.basename(new))
            case.call('write', f.write, target)
            created = sorted(set(os.listdir(case.dir)) - before)
            b = os.path.basename(new)
            case.check(created == sorted([b + '.dat', b + '.sel']), 'files-written', 'writing {} created {}'.format(os.path.basename(target), created))
            # the counts and the duration stated in the sensor file
            st = [l.split() for l in open(new + '.sel', errors='replace').read().splitlines()]
            st = [st[i + 1] for i, l in enumerate(st[:-1]) if l[:1] == ['Scans']]
            case.check(len(st) == 1 and (int(st[0][0]), int(st[0][1])) == (h.nsc, h.nch) and abs(float(st[0][2]) - h.values[-1, 0]) <= 0.6e-3, 'written-header', 'scans, channels, time {} instead of {}'.format(st, (h.nsc, h.nch, h.values[-1, 0])))
            rtol = 1e-8 if rtol < 1e-8 else rtol
            judge(case, f, h, rtol, tag='after-write-')
            f = load(case, HAWC2DatFile, new, obj=f if rnd.random() < 0.3 else None)
            judge(case, f, h, rtol, tag='reread-')
            h.values = np.array(f.data, copy=True)
            rtol = 1e-8
            if rnd.random() < 0.5:
                judge_df(case, f, h, rtol, tag='reread-')
    case.sig(h.kind, h.nsc, h.nch, tuple(ops))
    case.desc = dict(kind=h.kind, scans=h.nsc, channels=h.nch, ops=ops)


def wl_refuse(case):
    """results that do not hold what the sensor file states are refused, not padded or cut"""
    from weio.hawc2_dat_file import HAWC2DatFile
    rnd = case.rnd
    h = hawc2.gen(case)
    stem = hawc2.write(case, h, 'r')
    raw = open(stem + '.dat', 'rb').read()
    if h.kind == 'binary':
        how = rnd.choice(['cut', 'cut', 'cut1', 'empty'])
        bad = raw[:{'cut': 2 * rnd.randrange(h.nsc * h.nch), 'cut1': len(raw) - 1, 'empty': 0}[how]]
    else:
        rows = [r for r in raw.split(b'\n') if r.strip()]
        how = rnd.choice(['fewer', 'more', 'short-row', 'text'])
        k = rnd.randrange(len(rows))
        if how == 'fewer':
            rows = rows[:k]
        elif how == 'more':
            rows += rows[:k + 1]
        elif how == 'text':
            rows[k] = b'  '.join([b'*' * 12] + rows[k].split()[1:])
        else:
            rows[k] = b'  '.join(rows[k].split()[:-1])
        bad = b'\n'.join(rows) + b'\n'
    with open(stem + '.dat', 'wb') as fid:
        fid.write(bad)
    fn = stem + rnd.choice(['.dat', '.sel'])
    r = case.attempt('HAWC2DatFile', HAWC2DatFile, fn)
    case.check(isinstance(r, Raised), 'refused', lambda: '{} result with {} scans of {} channels ({}) is read as {}'.format(h.kind, h.nsc, h.nch, how, np.shape(r.data)))
    with open(stem + '.dat', 'wb') as fid:
        fid.write(raw)
    f = case.call('HAWC2DatFile', HAWC2DatFile, fn)
    judge(case, f, h)
    case.sig('refuse', h.kind, how, h.nsc, h.nch)
    case.desc = dict(kind=h.kind, how=how, scans=h.nsc, channels=h.nch)


def wl_build(case):
    """objects built in memory"""
    from weio.hawc2_dat_file import HAWC2DatFile
    rnd = case.rnd
    h = hawc2.gen(case, kind='ascii')
    f = HAWC2DatFile()
    f.data = h.values.copy()
    f.info['attribute_names'] = [s.name for s in h.sensors]
    f.info['attribute_units'] = [rnd.choice(['{}', '[{}]', '({})']).format(s.unit) for s in h.sensors]
    f.info['attribute_descr'] = [s.descr for s in h.sensors]
    case.call('write', f.write, case.path('b') + rnd.choice(['.dat', '.sel']))
    g = load(case, HAWC2DatFile, case.path('b'))
    judge(case, g, h, rtol=1e-8)
    judge_df(case, g, h, rtol=1e-8)
    judge_df(case, f, h)
    case.sig('build', h.nsc, h.nch)
    case.desc = dict(scans=h.nsc, channels=h.nch)


def examples():
    return ['HAWC2_out_ascii', 'HAWC2_out_bin', 'BHAWC_out_ascii', 'BHAWC_out_ascii1']


def wl_examples(case):
    """the shipped results: sel and dat give the same object; written copies agree"""
    from weio.hawc2_dat_file import HAWC2DatFile
    p = os.path.join(EXAMPLES, case.item)
    a = case.call('HAWC2DatFile', HAWC2DatFile, p + '.dat')
    b = case.call('HAWC2DatFile', HAWC2DatFile, p + '.sel')
    case.check(same(freeze(a.data), freeze(b.data)) is None and same(freeze(a.info), freeze(b.info)) is None, 'dat-sel', 'dat and sel of {} differ'.format(case.item))
    d1, d2 = a.toDataFrame(), a.toDataFrame()
    case.check(list(d1.columns) == list(d2.columns), 'second-columns', 'second conversion names columns {}'.format(list(d2.columns)[:4]))
    case.call('write', a.write, case.path('e.dat'))
    c = case.call('HAWC2DatFile', HAWC2DatFile, case.path('e.sel'))
    m = arr_close(c.data, b.data, rtol=1e-8)
    case.check(m is None, 'reread-values', '{}: {}'.format(case.item, m))
    d3 = c.toDataFrame()
    case.check(list(d3.columns) == list(d1.columns), 'reread-columns', 'columns {} became {}'.format(list(d1.columns)[:6], list(d3.columns)[:6]))
    case.sig(case.item)
    case.desc = dict(file=case.item)


WORKLOADS = [Workload('read', wl_read, 6000, 120000), Workload('big', wl_big, 120, 1500), Workload('cycle', wl_cycle, 3000, 48000),
             Workload('refuse', wl_refuse, 800, 15000), Workload('build', wl_build, 400, 9000), Workload('examples', wl_examples, 1, 3, fixed=examples)]
