"""C16: Bladed results are decoded exactly and gathered by group."""
import os
import numpy as np
from ..core import Workload, Raised
from ..compare import arr_close
from ..gen.util import names as mknames, logint

TECHNIQUE = 'runtime monitoring: random Bladed result groups (text and binary, 2-D and 3-D) are encoded by a reference encoder, read through header, data or project file, and every channel of the live data frames is compared with the encoded values'
RULE = 'A case is a set of result groups with random dimensions, storage, naming and units, read one by one and through the project file, with or without damaged groups; distinct by (groups, storage, dimensions, damage).'
ASSUME = ['Groups of a project gathered in one frame share their time axis; channels bearing the name and unit of an earlier channel of the frame are dropped.',
          'When a project has several groups of one length only, the frame of that length is the only one given (stated design).',
          'Labels of sections differ after rounding to two decimals.']

UNITS = {'FL': 'Nm', 'F': 'N', 'L': 'm', 'L/T': 'm/s', 'L/TT': 'm/s^2', 'A': 'rad', 'A/T': 'rad/s', 'A/TT': 'rad/s^2', 'P': 'W', 'T': 's', 'N': 'N', 'M': 'kg', 'FL/L': 'Nm/m', 'F/L': 'N/m', '1/T': '1/s', 'V': 'V', 'I': 'I'}
SHORT = ['MXT', 'POW2', 'FYT', 'DPMOM1', 'OMEGA', 'Q1']
WORDS = ['Blade 1 Mx (Root axes)', 'Vinkel p\udce5 \udcb0', 'Winkel \u03b1', 'Rotor speed', 'Water particle velocity in X direction', 'Nominal pitch angle', 'Tower Mxy', 'Hub Fz', 'Time from start of simulation', '3P component', 'Generator torque', "x-y, total"]


class Group:
    pass


def group(case, i, nmajor, time, storage=None):
    rnd, rng = case.rnd, case.rng
    g = Group()
    g.nd = rnd.choice([2, 2, 3])
    g.nv = logint(rnd, 1, 12)
    g.nm = nmajor
    g.tag = i
    g.label = '{} {}'.format(rnd.choice(['Blade 1 loads', 'Control variables', 'Tower loads', 'Pitch']), i)
    g.ns = rnd.randint(1, 6) if g.nd == 3 else 1
    g.tick = g.nd == 3 and rnd.random() < 0.3
    if g.tick:
        g.sec = rnd.choice([['Node {}'.format(k + 1) for k in range(g.ns)], ['End {} of member'.format(k + 1) for k in range(g.ns)]])
        g.lab = [s + '-' for s in g.sec]
    else:
        v = sorted(rnd.sample(range(-2000, 9000), g.ns))
        g.sec = [x / rnd.choice([100.0, 100.0]) for x in v]
        if rnd.random() < 0.3:
            g.sec = [s + 0.002 for s in g.sec]
        g.sec = ['%.7f' % s for s in g.sec]
        g.lab = [str(np.around(float(s), 2)) + 'm-' for s in g.sec]
    pool = WORDS + SHORT
    g.names = [rnd.choice(pool) + rnd.choice(['', ' {}'.format(k), ' {}'.format(k)]) for k in range(g.nv)]
    if rnd.random() < 0.8:
        g.names = ['{} {}{}'.format(rnd.choice(WORDS), i, k) if rnd.random() < 0.7 else '{}_{}_{}'.format(rnd.choice(SHORT), i, k) for k in range(g.nv)]
    g.units = [rnd.choice(list(UNITS)) for _ in g.names]
    g.time = time
    g.storage = storage or rnd.choice(['ascii', 'R*4', 'R*4', 'R*8', 'I*4'])
    D = rng.normal(size=(g.nm, g.ns, g.nv)) * 10.0 ** rng.integers(-6, 8, size=(1, 1, g.nv))
    if rnd.random() < 0.2:
        D[rng.random(D.shape) < 0.5] = 0
    if g.storage == 'I*4':
        D = rng.integers(-2 ** 31, 2 ** 31 - 1, size=D.shape).astype('<i4') if rnd.random() < 0.5 else rng.integers(0, 127, size=D.shape).astype('<i4')
        if rnd.random() < 0.3:
            D = np.frombuffer(bytes(rng.choice(list(b'0123456789 .\n-'), size=4 * D.size).astype(np.uint8).tobytes()), dtype='<i4').reshape(D.shape)
    elif g.storage == 'R*4':
        D = D.astype('<f4')
    elif g.storage == 'R*8':
        D = D.astype('<f8')
    else:
        sep = rnd.choice([' ', '\t', '  '])
        T = [['%.7e' % x for x in r] for r in D.reshape(-1, g.nv)]
        g.text = '\n'.join(rnd.choice(['', ' ']) + sep.join(r) for r in T) + '\n'
        D = np.array(T).astype(float).reshape(g.nm, g.ns, g.nv)
    g.D = D
    return g


def header(case, g):
    rnd = case.rnd
    t = rnd.choice(['\t', '  ', '    '])
    q = lambda s: "'" + s + "'" if ' ' in s or rnd.random() < 0.4 else s
    acc = 'S' if g.storage == 'ascii' else 'D'
    L = ['FILE{}demo.$04'.format(t), 'ACCESS' + t + acc, 'FORM' + t + ('F' if acc == 'S' else rnd.choice(['F', 'U'])), 'RECL' + t + '4', 'FORMAT' + t + ('R*4' if acc == 'S' else g.storage),
         "CONTENT{}'POWPROD'".format(t), "CONFIG{}'STATIONARY'".format(t), 'NDIMENS{}{}'.format(t, g.nd)]
    dims = [g.nv, g.nm] if g.nd == 2 else [g.nv, g.ns, g.nm]
    L += ['DIMENS' + t + t.join(str(d) for d in dims), "GENLAB{}'{}'".format(t, g.label)]
    nm = [q(n) for n in g.names]
    if g.nv > 2 and rnd.random() < 0.3:
        k = rnd.randint(1, g.nv - 1)
        L += ['VARIAB' + t + ' '.join(nm[:k]), ' ' + ' '.join(nm[k:])]
    else:
        L += ['VARIAB' + t + ' '.join(nm)]
    if g.nv > 2 and rnd.random() < 0.3:
        k = rnd.randint(1, g.nv - 1)
        L += ['VARUNIT' + t + ' '.join(g.units[:k]), '  ' + ' '.join(g.units[k:])]
    else:
        L += ['VARUNIT' + t + rnd.choice([' ', '  ']).join(g.units)]
    if g.nd == 3:
        L += ["AXISLAB{}'Distance along blade'".format(t), 'AXIUNIT' + t + 'L', 'AXIMETH' + t + '3']
        if g.tick:
            tk = ["'" + s + "'" for s in g.sec]
            if g.ns > 1 and rnd.random() < 0.3:
                L += ['AXITICK' + t + ' '.join(tk[:1]), ' '.join(tk[1:])]
            else:
                L += ['AXITICK' + t + ' '.join(tk)]
        else:
            L += ['AXIVAL' + t + ' '.join(g.sec)]
    if g.time:
        L += ["AXISLAB{}'Time'".format(t), 'AXIUNIT' + t + 'T', 'AXIMETH' + t + '2', 'MIN ' + t + '%.7E' % g.time[0], 'STEP' + t + '%.7E' % g.time[1]]
    elif g.nd == 2:
        L += ["AXISLAB{}'Bin'".format(t), 'AXIUNIT' + t + 'T', 'AXIMETH' + t + '3', 'AXIVAL' + t + ' '.join('%.5g' % (k + 1) for k in range(g.nm))]
    else:
        L += ["AXISLAB{}'Step number'".format(t), 'AXIUNIT' + t + 'N', 'AXIMETH' + t + '1']
    L += ['NVARS' + t + '0', 'ULOADS' + t + ' '.join('%.6E' % x for x in range(g.nv)), 'MEAN ' + ' '.join('0.0' for _ in range(g.nv))]
    return '\n'.join(L) + '\n'


def store(case, g, base, ext, short=False, fault=None):
    g.ext = ext
    names = list(g.names)
    if fault == 'more-names':
        g.names = names + ['Surplus channel']
        g.units = g.units + ['F']
    elif fault == 'fewer-names':
        g.names = names[:-1]
    h = header(case, g)
    if fault in ('more-names', 'fewer-names'):
        h = h.replace('DIMENS\t%d' % len(g.names), 'DIMENS\t%d' % len(names))
        d = [i for i, l in enumerate(h.split('\n')) if l.startswith('DIMENS')][0]
        L = h.split('\n')
        L[d] = 'DIMENS ' + ' '.join(str(x) for x in ([g.nv, g.nm] if g.nd == 2 else [g.nv, g.ns, g.nm]))
        h = '\n'.join(L)
    g.hfile = case.write(base + '.%' + ext, h)
    if fault == 'longer':
        k = case.rnd.choice([1, g.nv, 2 * g.nv, g.nv * g.ns])
        if g.storage == 'ascii':
            g.text += '\n'.join(' '.join(['1.5000000e+00'] * g.nv) for _ in range(-(-k // g.nv))) + '\n'
        else:
            g.dfile = case.write(base + '.$' + ext, g.D.tobytes() + np.ones(k, g.D.dtype).tobytes())
            return
    if g.storage == 'ascii':
        txt = g.text
        if short:
            txt = '\n'.join(txt.rstrip('\n').split('\n')[:-1]) + '\n'
        g.dfile = case.write(base + '.$' + ext, txt.encode())
    else:
        b = g.D.tobytes()
        g.dfile = case.write(base + '.$' + ext, b[:-8] if short else b)


def expected(groups):
    """(labels, values) of the groups gathered in one frame"""
    labs, cols = [], []
    if groups[0].time:
        labs.append('Time [s]')
        cols.append(groups[0].time[0] + np.arange(groups[0].nm) * groups[0].time[1])
    for g in groups:
        for s in range(g.ns):
            for v in range(g.nv):
                labs.append('{}{} [{}]'.format(g.lab[s] if g.nd == 3 else '', g.names[v], UNITS[g.units[v]]))
                cols.append(g.D[:, s, v].astype(float))
    keep = [i for i in range(len(labs)) if labs[i] not in labs[:i]]
    return [labs[i] for i in keep], np.column_stack([cols[i] for i in keep])


def judge(case, df, groups, tag):
    labs, V = expected(groups)
    case.check(list(df.columns) == labs, tag + 'columns', lambda: '{} expected {}; first differences {}'.format(len(df.columns), len(labs), [x for x in zip(df.columns, labs) if x[0] != x[1]][:3]))
    if not case.check(df.shape == V.shape, tag + 'shape', '{} expected {}'.format(df.shape, V.shape)):
        return
    m = arr_close(df.values.astype(float), V, rtol=1e-12)
    case.check(m is None, tag + 'values', m)


def steptime(rnd):
    return (float('%.7E' % rnd.choice([0.0, 0.0, 10.0, rnd.uniform(0, 100)])), float('%.7E' % rnd.choice([0.05, 0.01, 0.1, rnd.uniform(0.001, 2)])))


BASES = ['out', 'demo_a_44', 'run.v2', '50%_power', 'case[1]', 'a$b', 'sub%dir/x', 'd[0-9]/y z']


def wl_single(case):
    from weio.bladed_out_file import BladedFile
    rnd = case.rnd
    nm = logint(rnd, 1, 300)
    g = group(case, 1, nm, steptime(rnd) if rnd.random() < 0.8 else None)
    short = rnd.random() < 0.1 and g.D.size > 2 and nm > 1
    base = rnd.choice(BASES)
    store(case, g, base, rnd.choice(['04', '41', '09', '112']), short)
    fn = rnd.choice([g.hfile, g.dfile])
    case.sig('single', g.nd, g.storage, g.nv, g.ns, nm == 1, bool(g.time), g.tick, short, fn == g.hfile, base)
    case.desc = dict(dims=(nm, g.ns, g.nv), ndim=g.nd, storage=g.storage, ticks=g.tick, short=short, base=base)
    if short:
        r = case.attempt('BladedFile', BladedFile, fn)
        case.check(isinstance(r, Raised), 'short-data', 'data shorter than the {} x {} x {} of the header is accepted ({})'.format(nm, g.ns, g.nv, g.storage))
        return
    f = case.call('BladedFile', BladedFile, fn)
    df = case.call('toDataFrame', f.toDataFrame)
    judge(case, df, [g], '')
    judge(case, case.call('toDataFrame', f.toDataFrame), [g], 'again-')
    if rnd.random() < 0.2:
        f = case.call('weio.read', lambda: __import__('weio').read(fn))
        judge(case, f.toDataFrame(), [g], 'auto-')
    if rnd.random() < 0.1:
        os.remove(g.dfile)
        r = case.attempt('BladedFile', BladedFile, g.hfile)
        case.check(isinstance(r, Raised), 'missing-data', 'missing data file accepted')


def wl_refuse(case):
    """ a header which contradicts itself or its data is refused, never cut or padded """
    from weio.bladed_out_file import BladedFile
    rnd = case.rnd
    g = group(case, 1, logint(rnd, 1, 60), steptime(rnd) if rnd.random() < 0.8 else None)
    fault = rnd.choice(['longer', 'longer', 'more-names', 'fewer-names'])
    store(case, g, rnd.choice(BASES), rnd.choice(['04', '41', '112']), False, fault)
    fn = rnd.choice([g.hfile, g.dfile])
    case.sig('refuse', fault, g.nd, g.storage, g.nv, g.nm == 1)
    case.desc = dict(fault=fault, dims=(g.nm, g.ns, g.nv), ndim=g.nd, storage=g.storage)
    r = case.attempt('read', lambda: BladedFile(fn).toDataFrame())
    case.check(isinstance(r, Raised), 'contradiction', 'header with {} accepted: frame of {} for {} x {} x {} ({})'.format(fault, getattr(r, 'shape', None), g.nm, g.ns, g.nv, g.storage))


def wl_project(case):
    from weio.bladed_out_file import BladedFile
    rnd = case.rnd
    nlen = rnd.choice([1, 1, 2, 3])
    lens = rnd.sample(range(1, 60), nlen)
    times = {n: steptime(rnd) for n in lens}
    groups = []
    base = rnd.choice(BASES)
    same = 'Blade loads' if rnd.random() < 0.2 else None
    exts = rnd.sample(['{:02d}'.format(k) for k in range(1, 100)] + ['112', '205'], rnd.randint(1, 6))
    for i, e in enumerate(sorted(exts)):
        n = rnd.choice(lens)
        timed = rnd.random() < 0.85
        g = group(case, i, n, times[n] if timed else None)
        if same:
            g.label = same
        g.damage = rnd.choice([None] * 8 + ['short', 'missing']) if len(exts) > 1 else None
        if g.D.size < 3 or n == 1:
            g.damage = g.damage if g.damage == 'missing' else None
        store(case, g, base, e, g.damage == 'short')
        if g.damage == 'missing':
            os.remove(g.dfile)
        groups.append(g)
    # files of other runs in the folder
    if rnd.random() < 0.5:
        o = group(case, 9, lens[0], times[lens[0]])
        store(case, o, base + 'x', '04')
    pj = case.write(base + rnd.choice(['.$PJ', '.$pj']), 'project of the run\n')
    f = case.call('BladedFile', BladedFile, pj)
    d = case.call('toDataFrame', f.toDataFrame)
    ok = [g for g in groups if not g.damage and (g.time or len(groups) == 1)]
    by = {}
    for g in ok:
        by.setdefault(g.nm, []).append(g)
    multi = [n for n in by if len(by[n]) > 1]
    case.sig('project', len(groups), len(by), len(multi), tuple(sorted(str(g.damage) for g in groups)), tuple(g.storage for g in groups))
    case.desc = dict(groups=[(g.ext, g.nm, g.ns, g.nv, g.storage, g.damage, bool(g.time)) for g in groups], base=base)
    if not by:
        case.check(isinstance(d, dict) and len(d) == 0, 'empty-project', 'frames {} out of no readable time series'.format(type(d)))
        return
    if len(multi) == 1:
        case.check(not isinstance(d, dict), 'frames', 'several frames {}'.format(list(d) if isinstance(d, dict) else ''))
        if not isinstance(d, dict):
            judge(case, d, by[multi[0]], '')
        return
    if len(by) == 1:
        if case.check(not isinstance(d, dict), 'frames', 'several frames'):
            judge(case, d, list(by.values())[0], '')
        return
    names = ['Misc_{}'.format(n) if len(gs) > 1 else gs[0].label for n, gs in by.items()]
    if len(set(names)) < len(names):  # groups of several lengths with one label: all are given
        if case.check(isinstance(d, dict) and sorted(len(x) for x in d.values()) == sorted(by), 'same-label', '{} expected the frames of lengths {}'.format(list(d), list(by))):
            for x in d.values():
                judge(case, x, by[len(x)], '')
        return
    exp = dict(zip(names, by.values()))
    if case.check(isinstance(d, dict) and set(d) == set(exp), 'frames', '{} expected {}'.format(list(d), list(exp))):
        for k, gs in exp.items():
            judge(case, d[k], gs, '')


WORKLOADS = [Workload('single', wl_single, 7500, 72000), Workload('project', wl_project, 5000, 60000), Workload('refuse', wl_refuse, 2500, 24000)]
