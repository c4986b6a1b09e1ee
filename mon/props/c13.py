"""C13: HAWC2 blade layout (ae), profile coefficients (pc) and structural data (st) survive reading, editing and saving."""
import os
import numpy as np
from ..core import Workload, Raised, EXAMPLES
from ..compare import arr_close, freeze, same
from ..gen.util import logint, values

TECHNIQUE = 'runtime monitoring: tables rendered by an independent writer are read, queried, edited, saved and re-read by the library, every step compared with a reference model of the sets'
RULE = ('A case is an ae, pc or st file of random sets, rows, spacing, comments and number formats followed by a random history of queries (interpolations against a reference), '
        'conversions, edits, saves and re-reads; distinct by (kind, shape of the sets, operations).')
ASSUME = ['Thicknesses within a profile set increase and have at most 8 decimals; interpolation is claimed between the first and last thickness.',
          'st values are kept to 8 significant digits on saving (the width of the format), ae exactly, pc to 16 digits.']
FMT = ['%.6e', '%g', '%.5f', '%r', '%12.4E', '%d']


def num(rnd, v):
    f = rnd.choice(FMT)
    if f == '%d':
        return '%d' % int(round(max(min(v, 1e9), -1e9)))
    if f == '%r':
        return repr(float(v))
    return f % v


def table(case, nrow, ncol, first=None, lo=-9, hi=12):
    """text rows and the values they denote"""
    rnd, rng = case.rnd, case.rng
    cols = []
    for j in range(ncol):
        v, _ = values(rng, rnd, nrow, lo=lo, hi=hi)
        cols.append(v)
    if first is not None:
        cols[0] = first
    txt = []
    for i in range(nrow):
        row = [num(rnd, cols[j][i]) for j in range(ncol)]
        if first is not None:
            row[0] = repr(float(first[i]))
        if ncol == 4 and rnd.random() < 0.3:
            row[1:3] = [repr(float(cols[j][i])) for j in (1, 2)]
        txt.append(row)
    vals = np.array([[float(x) for x in r] for r in txt]).reshape(nrow, ncol)
    return txt, vals


def grid(case, n, lo=0.0, span=None):
    rnd, rng = case.rnd, case.rng
    span = span or rnd.choice([1.0, 60.0, 120.5])
    x = np.sort(rng.random(n)) * span
    x[0] = 0
    x = np.round(x, 6)
    x = np.unique(x)
    while len(x) < n:
        x = np.append(x, x[-1] + 1.0)
    return lo + x


def close(case, got, exp, clause, what, rtol=1e-12, atol=0.0):
    m = arr_close(got, exp, rtol=rtol, atol=atol)
    case.check(m is None, clause, '{}: {}'.format(what, m))


def lin(x, xp, fp):
    """linear interpolation, constant outside"""
    x = float(x)
    if x <= xp[0]:
        return fp[0]
    if x >= xp[-1]:
        return fp[-1]
    k = 0
    while not (xp[k] <= x <= xp[k + 1]):
        k += 1
    w = (x - xp[k]) / (xp[k + 1] - xp[k])
    return fp[k] * (1 - w) + fp[k + 1] * w


def eol(case):
    return case.rnd.choice(['\n', '\n', '\r\n'])


# ------------------------------------------------------------------------------------------------------- ae
AECOLS = ['radius_[m]', 'chord_[m]', 'thickness_[%]', 'pc_set_[#]']


def gen_ae(case):
    rnd = case.rnd
    n = rnd.choice([1, 1, 2, 3, 5])
    nums = list(range(1, n + 1))
    if rnd.random() < 0.3:
        nums = sorted(rnd.sample(range(1, 12), n))
        if rnd.random() < 0.3:
            rnd.shuffle(nums)
    sets, L = {}, []
    e = eol(case)
    L.append('{}{}'.format(n, rnd.choice(['', ' r[m]           Chord[m]    T/C[%]  Set no.', ' sets in this file'])))
    for k in nums:
        nr = logint(rnd, 1, 60)
        txt, v = table(case, nr, 3, first=grid(case, nr))
        s = [rnd.randint(1, 9)] * nr if rnd.random() < 0.5 else [rnd.randint(1, 9) for _ in range(nr)]
        L.append(rnd.choice(['{} {}', '{}  {} blade layout', ' {}\t{}']).format(k, nr))
        for r, p in zip(txt, s):
            L.append(rnd.choice(['', ' ']) + rnd.choice([' ', '\t', '   ']).join(r + [str(p)]) + rnd.choice(['', ' ;', '\t; comment', ' extra text', ' ; 5 \udcb0', ' \u00b0']))
        sets[k] = np.column_stack([v, np.array(s, float)])
    return sets, e.join(L) + rnd.choice([e, '', e * 2])


def judge_ae(case, f, sets, tag=''):
    got = f.data.ae_sets
    if not case.check(sorted(got.keys()) == sorted(sets.keys()), tag + 'sets', 'sets {} expected {}'.format(sorted(got.keys()), sorted(sets.keys()))):
        return
    for k in sets:
        close(case, got[k], sets[k], tag + 'rows', 'ae set {}'.format(k))


def query_ae(case, f, sets):
    rnd = case.rnd
    k = rnd.choice(list(sets))
    a = sets[k]
    r0, r1 = a[0, 0], a[-1, 0]
    op = rnd.choice(['chord', 'thickness', 'chord-all', 'pc', 'radius', 'frame', 'sets'])
    r = rnd.choice([rnd.uniform(r0, r1), float(rnd.choice(a[:, 0])), r0, r1, 0.0, r1 + 5, r0 - 1])
    if op in ('chord', 'thickness'):
        c = dict(chord=1, thickness=2)[op]
        v = case.call(op, getattr(f.data, op), r, k)
        close(case, v, lin(r, a[:, 0], a[:, c]), 'interpolation', '{} at {}'.format(op, r), rtol=1e-9, atol=1e-9 * np.abs(a[:, c]).max())
    elif op == 'chord-all':
        close(case, case.call(op, f.data.chord, None, k), a[:, 1], 'column', 'chord')
        close(case, case.call(op, f.data.thickness, None, k), a[:, 2], 'column', 'thickness')
    elif op == 'radius':
        v = case.call(op, f.data.radius_ae, r, k)
        d = np.abs(a[:, 0] - r)
        case.check(np.ndim(v) == 0 and abs(abs(v - r) - d.min()) <= 1e-12 * (1 + abs(r)), 'nearest-radius', 'radius_ae({}) = {!r:.100}'.format(r, v))
        close(case, case.call(op, f.data.radius_ae, None, k), a[:, 0], 'column', 'radius')
    elif op == 'pc':
        v = case.call(op, f.data.pc_set_nr, r, k)
        near = np.abs(a[:, 0] - r)
        i = near.argmin()
        if near[i] < 0.5e-4 * a[:, 0].max() or near[i] == 0 and a[:, 0].max() > 0:
            ok = {a[i, 3]}
        elif near[i] < 2e-4 * a[:, 0].max():
            ok = set(a[max(i - 1, 0):i + 2, 3])
        else:
            b = np.where(a[:, 0] < r)[0]
            ok = {a[b[-1] if len(b) else 0, 3]}
        case.check(v in ok, 'pc-set', 'pc_set_nr({}) = {} expected {}'.format(r, v, ok))
    elif op == 'sets':
        S = list(f.sets)
        case.check(len(S) == len(sets) and all(any(np.array_equal(np.asarray(s), sets[k]) for k in sets) for s in S), 'sets-property', 'sets property differs from the sets')
    else:
        d = case.call('toDataFrame', f.toDataFrame)
        if len(sets) == 1:
            d = {'ae_set_{}'.format(list(sets)[0]): d}
        if case.check(sorted(d) == sorted('ae_set_{}'.format(k) for k in sets), 'frames', 'frames {} for sets {}'.format(sorted(d), sorted(sets))):
            for k in sets:
                x = d['ae_set_{}'.format(k)]
                case.check(list(x.columns) == AECOLS, 'frame-columns', 'columns {}'.format(list(x.columns)))
                close(case, x.values, sets[k], 'frame-rows', 'frame of set {}'.format(k))
    return op


def wl_ae(case):
    from weio.hawc2_ae_file import HAWC2AEFile
    rnd = case.rnd
    ops = []
    if rnd.random() < 0.8:
        sets, txt = gen_ae(case)
        fn = case.write('a' + rnd.choice(['.ae', '.dat', '.txt']), txt)
        f = case.call('HAWC2AEFile', HAWC2AEFile, fn)
    else:
        sets, f = {}, HAWC2AEFile()
    judge_ae(case, f, sets)
    for i in range(rnd.randint(2, 8)):
        op = rnd.choice(['query', 'query', 'query', 'add', 'save', 'save', 'edit'])
        if op == 'add' or not sets:
            op = 'add'
            n = logint(rnd, 1, 20)
            a = np.column_stack([grid(case, n), case.rng.random((n, 2)) * 100, np.full(n, rnd.randint(1, 4))])
            k = max(sets) + 1 if sets and rnd.random() < 0.3 else None
            conv = rnd.choice([list, np.array, tuple])
            case.call('add_set', f.add_set, radius=conv(a[:, 0]), chord=conv(a[:, 1]), thickness=conv(a[:, 2]), pc_set_id=conv(a[:, 3]), **({'set_id': k} if k else {}))
            if k is None:
                k = 1
                while k in sets:
                    k += 1
            sets[k] = a
            judge_ae(case, f, sets, 'after-add-')
        elif op == 'edit':
            k = rnd.choice(list(sets))
            r, c = rnd.randrange(len(sets[k])), rnd.choice([1, 2])
            sets[k] = sets[k].copy()
            sets[k][r, c] = v = rnd.choice([1 / 3.0, -2.5, 1e-7, 123456.789])
            f.data.ae_sets[k][r, c] = v
        elif op == 'save':
            fn = case.path('s{}.dat'.format(i))
            case.call('write', f.write, fn)
            judge_ae(case, f, sets, 'after-write-')
            g = f if rnd.random() < 0.3 else HAWC2AEFile()
            case.call('read', g.read, fn)
            f = g
            judge_ae(case, f, sets, 'reread-')
        else:
            query_ae(case, f, sets)
            judge_ae(case, f, sets, 'after-query-')
        ops.append(op)
    case.sig('ae', tuple(sorted((k, len(v)) for k, v in sets.items())), tuple(ops))
    case.desc = dict(sets={k: len(v) for k, v in sets.items()}, ops=ops)


# ------------------------------------------------------------------------------------------------------- pc
PCCOLS = ['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]']


def gen_pc(case):
    rnd = case.rnd
    e = eol(case)
    n = rnd.choice([1, 1, 2, 3])
    L = ['{}{}'.format(n, rnd.choice(['', '  DTU 10MW RWT, data', ' sets']))]
    sets = {}
    for k in range(1, n + 1):
        np_ = rnd.choice([1, 2, 3, 6])
        th = sorted(rnd.sample(range(5, 1000), np_))
        th = [t / 10.0 if rnd.random() < 0.7 else round(t / 10.0 + 0.01234567, 8) for t in th]
        prof = []
        L.append('{}{}'.format(np_, rnd.choice(['', '\t\t', ' profiles'])))
        for i, t in enumerate(th):
            nr = logint(rnd, 1, 80)
            txt, v = table(case, nr, 4, first=grid(case, nr, lo=-180, span=360) if nr > 1 else np.array([0.0]), lo=-9, hi=3)
            L.append('{} {}  {!r} {}'.format(i + 1, nr, t, rnd.choice(['', 'FFA-W3-241 (Re=12x10^6)', '; cylinder', 'vinge \udce5'])))
            for r in txt:
                L.append(rnd.choice(['', '  ']) + rnd.choice([' ', '\t', '   ']).join(r) + rnd.choice(['', '', ' ;']))
            prof.append(v)
        sets[k] = (np.array(th), prof)
    return sets, e.join(L) + rnd.choice([e, ''])


def judge_pc(case, f, sets, tag='', rtol=1e-12):
    got = f.data.pc_sets
    if not case.check(list(got.keys()) == list(sets.keys()), tag + 'sets', 'sets {} expected {}'.format(list(got.keys()), list(sets.keys()))):
        return
    for k, (th, prof) in sets.items():
        t, p = got[k]
        close(case, np.asarray(t), th, tag + 'thicknesses', 'thicknesses of set {}'.format(k))
        if case.check(len(p) == len(prof), tag + 'profiles', '{} profiles expected {}'.format(len(p), len(prof))):
            for i in range(len(prof)):
                close(case, p[i], prof[i], tag + 'rows', 'set {} profile {}'.format(k, i), rtol=rtol)


def query_pc(case, f, sets):
    rnd = case.rnd
    k = rnd.choice(list(sets))
    th, prof = sets[k]
    op = rnd.choice(['CL', 'CD', 'CM', 'CL_H2', 'frame', 'sets'])
    if op == 'CL_H2' and len(th) > 1:      # HAWC2 itself goes through a table of integer angles
        t, al = rnd.uniform(th[0], th[-1]), rnd.choice([rnd.uniform(-180, 179), float(rnd.randint(-180, 179))])
        g = np.arange(-180, 180.0)
        y = [lin(al, g, np.array([lin(x, p[:, 0], p[:, 1]) for x in g])) for p in prof]
        sc = max(np.abs(p[:, 1]).max() for p in prof)
        close(case, case.call(op, f.data.CL_H2, t, al, k), lin(t, th, y), 'interpolation', 'CL_H2 at t={} alpha={}'.format(t, al), rtol=1e-9, atol=1e-9 * sc)
    elif op in ('CL', 'CD', 'CM') and len(th) > 1:
        c = dict(CL=1, CD=2, CM=3)[op]
        t = rnd.choice([rnd.uniform(th[0], th[-1]), float(rnd.choice(list(th))), th[0], th[-1]])
        al = rnd.choice([rnd.uniform(-180, 180), 0.0, 10.0, float(rnd.choice(list(prof[0][:, 0])))])
        y = [lin(al, p[:, 0], p[:, c]) for p in prof]
        sc = max(np.abs(p[:, c]).max() for p in prof)
        close(case, case.call(op, getattr(f.data, op), t, al, k), lin(t, th, y), 'interpolation', '{} at t={} alpha={}'.format(op, t, al), rtol=1e-9, atol=1e-9 * sc)
    elif op == 'sets':
        case.check(same(freeze(f.sets), freeze(f.data.pc_sets)) is None, 'sets-property', 'sets property differs')
    else:
        d = case.call('toDataFrame', f.toDataFrame)
        exp = {'pc_set_{}_t_{}'.format(k, t): p for k, (th, prof) in sets.items() for t, p in zip(f.data.pc_sets[k][0], prof)}
        if case.check(sorted(d) == sorted(exp), 'frames', 'frames {} expected {}'.format(sorted(d), sorted(exp))):
            for n in exp:
                case.check(list(d[n].columns) == PCCOLS, 'frame-columns', 'columns {}'.format(list(d[n].columns)))
                close(case, d[n].values, exp[n], 'frame-rows', n)


def wl_pc(case):
    from weio.hawc2_pc_file import HAWC2PCFile
    rnd = case.rnd
    ops = []
    if rnd.random() < 0.8:
        sets, txt = gen_pc(case)
        f = case.call('HAWC2PCFile', HAWC2PCFile, case.write('p' + rnd.choice(['.pc', '.dat', '.txt']), txt))
    else:
        sets, f = {}, HAWC2PCFile()
    judge_pc(case, f, sets)
    for i in range(rnd.randint(2, 8)):
        op = rnd.choice(['query', 'query', 'query', 'add', 'save', 'save', 'edit'])
        if op == 'add' or not sets:
            op = 'add'
            k = len(sets) + 1
            th = sorted(rnd.sample(range(5, 100), rnd.choice([1, 2, 3])))
            prof = [np.column_stack([grid(case, n, lo=-180, span=360), case.rng.normal(size=(n, 3))]) for n in [logint(rnd, 2, 30) for _ in th]]
            case.call('add_set', f.add_set, k, [float(t) for t in th], [p.copy() for p in prof])
            sets[k] = (np.array(th, float), prof)
        elif op == 'edit':
            k = rnd.choice(list(sets))
            j = rnd.randrange(len(sets[k][1]))
            r, c = rnd.randrange(len(sets[k][1][j])), rnd.choice([1, 2, 3])
            sets[k][1][j][r, c] = v = rnd.choice([1 / 3.0, -2.5, 1e-7, 123.456])
            f.data.pc_sets[k][1][j][r, c] = v
        elif op == 'save':
            fn = case.path('s{}.pc'.format(i))
            case.call('write', f.write, fn)
            L, ok = [l.split() for l in open(fn).read().splitlines()], True
            try:      # the counts and numbers stated in the file itself
                p, ok = 1, int(L[0][0]) == len(sets)
                for th, prof in sets.values():
                    ok, p = ok and int(L[p][0]) == len(th), p + 1
                    for j, q in enumerate(prof):
                        ok, p = ok and (int(L[p][0]), int(L[p][1])) == (j + 1, len(q)) and abs(float(L[p][2]) - th[j]) < 1e-7, p + 1 + len(q)
                ok = ok and p == len(L)
            except (ValueError, IndexError):
                ok = False
            case.check(ok, 'written-counts', 'the counts and profile numbers in the written file do not describe its tables')
            g = f if rnd.random() < 0.3 else HAWC2PCFile()
            case.call('read', g.read, fn)
            f = g
            judge_pc(case, f, sets, 'reread-', rtol=2e-15)
        else:
            query_pc(case, f, sets)
        judge_pc(case, f, sets, 'after-{}-'.format(op))
        ops.append(op)
    case.sig('pc', tuple((k, len(v[0])) for k, v in sets.items()), tuple(ops))
    case.desc = dict(sets={k: [len(p) for p in v[1]] for k, v in sets.items()}, ops=ops)


# ------------------------------------------------------------------------------------------------------- st
ISO = 'r m x_cg y_cg ri_x ri_y x_sh y_sh E G I_x I_y I_p k_x k_y A pitch x_e y_e'.split()
FPM = 'r m x_cg y_cg ri_x ri_y pitch x_e y_e'.split() + ['K_{}{}'.format(i, j) for i in range(1, 7) for j in range(i, 7)]
COL19 = ['r_[m]', 'm_[kg/m]', 'x_cg_[m]', 'y_cg_[m]', 'ri_x_[m]', 'ri_y_[m]', 'x_sh_[m]', 'y_sh_[m]', 'E_[N/m^2]', 'G_[N/m^2]', 'I_x_[m^4]', 'I_y_[m^4]', 'I_p_[m^4]', 'k_x_[-]', 'k_y_[-]', 'A_[m^2]', 'pitch_[deg]', 'x_e_[m]', 'y_e_[m]']
COL30 = ['r_[m]', 'm_[kg/m]', 'x_cg_[m]', 'y_cg_[m]', 'ri_x_[m]', 'ri_y_[m]', 'pitch_[deg]', 'x_e_[m]', 'y_e_[m]'] + ['K{}{}'.format(i, j) for i in range(1, 7) for j in range(i, 7)]


def gen_st(case):
    rnd = case.rnd
    e = eol(case)
    nc = rnd.choice([19, 30])
    n = rnd.choice([1, 1, 2, 3])
    L = ['{} {}'.format(n, rnd.choice(['', 'number of sets  Nset', '; number of sets, Nset']))]
    if rnd.random() < 0.5:
        L.append(rnd.choice(['A wind turbine', 'T\udce5rn']))
    sets = {}
    nums = list(range(1, n + 1)) if rnd.random() < 0.7 else sorted(rnd.sample(range(1, 9), n))
    for m in nums:
        L.append('#{} {}'.format(m, rnd.choice(['', 'Tower', '; set number'])))
        sub = {}
        ns = rnd.choice([1, 1, 2, 3])
        for k in (list(range(1, ns + 1)) if rnd.random() < 0.7 else sorted(rnd.sample(range(1, 9), ns))):
            nr = logint(rnd, 1, 40)
            big = rnd.random() < 0.15
            txt, v = table(case, nr, nc, first=grid(case, nr), lo=-120 if big else -9, hi=120 if big else 12)
            if len(L) < 8 and rnd.random() < 0.5:
                L += ['=' * 40, ' r m x_cg ', '=' * 40]
            L.append('${} {}{}'.format(k, nr, rnd.choice(['', ' Flexible', '  stiff set, tower'])))
            for r in txt:
                L.append(rnd.choice(['', ' ']) + rnd.choice([' ', '\t', '\t\t', '   ']).join(r) + rnd.choice(['', '', ' ; comment 1 2', '; \udcb5 \u00b5']))
            sub[k] = v
        sets[m] = sub
    return nc, sets, e.join(L) + rnd.choice([e, e * 2, ''])


def judge_st(case, f, sets, tag='', rtol=1e-12):
    got = f.data.main_data_sets
    if not case.check({m: list(s) for m, s in got.items()} == {m: list(s) for m, s in sets.items()}, tag + 'sets', 'sets {} expected {}'.format({m: list(s) for m, s in got.items()}, {m: list(s) for m, s in sets.items()})):
        return
    for m in sets:
        for k in sets[m]:
            close(case, got[m][k], sets[m][k], tag + 'rows', 'set {} {}'.format(m, k), rtol=rtol)


def wl_st(case):
    from weio.hawc2_st_file import HAWC2StFile
    rnd = case.rnd
    nc, sets, txt = gen_st(case)
    names = ISO if nc == 19 else FPM
    f = case.call('HAWC2StFile', HAWC2StFile, case.write('x.st', txt))
    judge_st(case, f, sets)
    ops, exact = [], True
    for i in range(rnd.randint(2, 7)):
        op = rnd.choice(['query', 'query', 'frame', 'save', 'save', 'set', 'nearest'])
        m = rnd.choice(list(sets))
        k = rnd.choice(list(sets[m]))
        a = sets[m][k]
        if op == 'query':
            c = rnd.randrange(nc)
            r = rnd.choice([None, rnd.uniform(a[0, 0], a[-1, 0] + 1), float(rnd.choice(list(a[:, 0]))), -1.0])
            v = case.call(names[c], getattr(f.data, names[c]), r, m, k)
            sc = np.abs(a[:, c]).max()
            if r is None:
                close(case, v, a[:, c], 'column', names[c], rtol=1e-9, atol=1e-12 * sc)
            else:
                close(case, v, lin(r, a[:, 0], a[:, c]), 'interpolation', '{} at {}'.format(names[c], r), rtol=1e-9, atol=1e-9 * sc)
        elif op == 'nearest':
            r = rnd.choice([rnd.uniform(a[0, 0] - 1, a[-1, 0] + 1), float(rnd.choice(list(a[:, 0])))])
            v = case.call(op, f.data.radius_st, r, m, k)
            d = np.abs(a[:, 0] - r)
            case.check(np.ndim(v) == 0 and v in a[:, 0] and abs(abs(v - r) - d.min()) <= 1e-12 * (1 + abs(r)), 'nearest-radius', 'radius_st({}) = {!r:.100}'.format(r, v))
            close(case, case.call(op, f.data.radius_st, None, m, k), a[:, 0], 'column', 'radius')
        elif op == 'set':
            c = rnd.randrange(1, nc)
            v = rnd.choice([rnd.uniform(-5, 5), case.rng.normal(size=len(a)) * 1e3])
            case.call('set_value', f.data.set_value, m, k, **{names[c]: v})
            sets[m][k] = a = a.copy()
            a[:, c] = v
        elif op == 'frame':
            d = case.call('toDataFrame', f.toDataFrame)
            exp = {'{}_{}'.format(m, k): sets[m][k] for m in sets for k in sets[m]}
            if case.check(sorted(d) == sorted(exp), 'frames', 'frames {} expected {}'.format(sorted(d), sorted(exp))):
                for n in exp:
                    case.check(list(d[n].columns) == (COL19 if nc == 19 else COL30), 'frame-columns', 'columns {}'.format(list(d[n].columns)))
                    close(case, d[n].values, exp[n], 'frame-rows', n, rtol=1e-12)
        else:
            fn = case.path('s{}.st'.format(i))
            case.call('write', f.write, fn)
            judge_st(case, f, sets, 'after-write-', rtol=1e-12)
            g = f if rnd.random() < 0.3 else HAWC2StFile()
            case.call('read', g.read, fn)
            f = g
            judge_st(case, f, sets, 'reread-', rtol=0.6e-7)
            for m in sets:
                for k in sets[m]:
                    sets[m][k] = np.array(f.data.main_data_sets[m][k], copy=True)
        ops.append(op)
    judge_st(case, f, sets, 'end-')
    case.sig('st', nc, tuple((m, k, len(a)) for m in sets for k, a in sets[m].items()), tuple(ops))
    case.desc = dict(columns=nc, sets={m: {k: len(a) for k, a in s.items()} for m, s in sets.items()}, ops=ops)


def beam(p, L):
    """stiffness of the uniform Timoshenko beam clamped/loaded at its shear centre, moved to the reference axis (x, y, z, rotations at both ends)"""
    E, G, A = p['E'], p['G'], p['A']
    C = np.zeros((6, 6))       # flexibility of the free end
    C[0, 0] = L**3 / (3 * E * p['I_y']) + L / (p['k_x'] * G * A)
    C[1, 1] = L**3 / (3 * E * p['I_x']) + L / (p['k_y'] * G * A)
    C[2, 2], C[3, 3], C[4, 4], C[5, 5] = L / (E * A), L / (E * p['I_x']), L / (E * p['I_y']), L / (G * p['I_p'])
    C[0, 4] = C[4, 0] = L**2 / (2 * E * p['I_y'])
    C[1, 3] = C[3, 1] = -L**2 / (2 * E * p['I_x'])
    K22 = np.linalg.inv(C)
    T = np.eye(6)              # motion of the free end due to that of the clamped end
    T[0, 4], T[1, 3] = L, -L
    K = np.block([[T.T @ K22 @ T, -T.T @ K22], [-K22 @ T, K22]])
    S = np.eye(6)              # motion of the shear centre due to that of the reference axis
    S[0, 5], S[1, 5] = -p['y_sh'], p['x_sh']
    S = np.block([[S, np.zeros((6, 6))], [np.zeros((6, 6)), S]])
    return S.T @ K @ S


RIGID = [((1, 0, 0), (0, 0, 0)), ((0, 1, 0), (0, 0, 0)), ((0, 0, 1), (0, 0, 0)), ((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (0, 1, 0)), ((0, 0, 0), (0, 0, 1))]


def wl_element(case):
    """element matrices against an independently derived beam; files with a wrong number of columns"""
    from weio.hawc2_st_file import HAWC2StFile
    rnd, rng = case.rnd, case.rng
    if rnd.random() < 0.1:
        nc = rnd.choice([1, 4, 18, 20, 21, 25, 29, 31, 40])
        txt = '1 ; sets\n#1 ; set\n$1 3\n' + ''.join(' '.join('%.5e' % x for x in r) + '\n' for r in rng.random((3, nc)))
        r = case.attempt('HAWC2StFile', HAWC2StFile, case.write('bad.st', txt))
        case.check(isinstance(r, Raised), 'columns-refused', 'a table with {} columns is accepted'.format(nc))
        case.sig('columns', nc)
        case.desc = dict(columns=nc)
        return
    sets, L = {}, ['2 ; sets']
    for m in (1, rnd.choice([2, 5])):
        L.append('#{} ; set'.format(m))
        for k in (1, rnd.choice([2, 3])):
            nr = logint(rnd, 2, 8)
            a = 10.0 ** rng.uniform(-1, 1, (nr, 19))
            a[:, 0] = grid(case, nr, span=20.0)
            a[:, 6:8] = rng.normal(size=(nr, 2)) * rnd.choice([0, 0.2, 1])
            a[:, 8:10] = 10.0 ** rng.uniform(9, 11, (nr, 2))
            a[:, 13:15] = rng.uniform(0.2, 1, (nr, 2))
            a[:, 10:13] *= 0.1
            sets[m, k] = a
            L += ['${} {}'.format(k, nr)] + [' '.join(repr(float(x)) for x in r) for r in a]
    f = case.call('HAWC2StFile', HAWC2StFile, case.write('e.st', '\n'.join(L) + '\n'))
    for (m, k), a in sets.items():
        r = rnd.choice([rnd.uniform(a[0, 0], a[-1, 0]), float(rnd.choice(list(a[:, 0])))])
        p = {n: lin(r, a[:, 0], a[:, j]) for j, n in enumerate(ISO)}
        ln = 10.0 ** rnd.uniform(-0.5, 1)
        K = beam(p, ln)
        sc = np.sqrt(np.abs(np.diag(K)))
        got = case.call('element_stiffnessmatrix', f.data.element_stiffnessmatrix, r, m, k, ln)
        if case.check(np.shape(got) == (12, 12), 'stiffness-shape', np.shape(got)):
            e = np.abs(got - K) / np.outer(sc, sc)
            i, j = np.unravel_index(np.argmax(e), e.shape)
            case.check(e.max() < 1e-8, 'stiffness', lambda: 'K[{},{}] = {} expected {} (length {})'.format(i, j, got[i, j], K[i, j], ln))
        # shape functions: the motion of the ends is reproduced, so is a rigid motion anywhere; the tip-loaded cantilever deforms as the beam does
        z = rnd.choice([0.0, ln, ln * rnd.random(), ln * rnd.random()])
        N = case.call('shape_function_ori', f.data.shape_function_ori, r, m, k, ln, z)
        if not case.check(np.shape(N) == (6, 12), 'shape-shape', np.shape(N)):
            continue
        if z in (0.0, ln):
            exp = np.hstack([np.eye(6), np.zeros((6, 6))] if z == 0 else [np.zeros((6, 6)), np.eye(6)])
            case.check(np.abs(N - exp).max() < 1e-9, 'shape-ends', 'at z={}: {}'.format(z, np.abs(N - exp).max()))
        for t, w in RIGID:
            u = np.concatenate([np.concatenate([np.array(t) + np.cross(w, [0, 0, q]), w]) for q in (0, ln)])
            e = N @ u - np.concatenate([np.array(t) + np.cross(w, [0, 0, z]), w])
            case.check(np.abs(e).max() < 1e-9 * (1 + ln), 'shape-rigid', 'rigid motion {} {} gives an error {} at z={} of {}'.format(t, w, e, z, ln))
        F = rng.normal(size=6)       # load at the shear centre of the free end
        E, G, A = p['E'], p['G'], p['A']
        def defl(x):
            """shear-centre deflection of the cantilever at x (closed form)"""
            My, Mx = F[4] + F[0] * (ln - x / 3.0), F[3] - F[1] * (ln - x / 3.0)
            return np.array([F[0] / (p['k_x'] * G * A) * x + (F[4] * x**2 / 2 + F[0] * (ln * x**2 / 2 - x**3 / 6)) / (E * p['I_y']),
                             F[1] / (p['k_y'] * G * A) * x + (-F[3] * x**2 / 2 + F[1] * (ln * x**2 / 2 - x**3 / 6)) / (E * p['I_x']),
                             F[2] * x / (E * A),
                             (F[3] * x - F[1] * (ln * x - x**2 / 2)) / (E * p['I_x']),
                             (F[4] * x + F[0] * (ln * x - x**2 / 2)) / (E * p['I_y']),
                             F[5] * x / (G * p['I_p'])])
        def axis(d):
            d = d.copy()
            d[0] += p['y_sh'] * d[5]
            d[1] -= p['x_sh'] * d[5]
            return d
        u = np.concatenate([np.zeros(6), axis(defl(ln))])
        exp = axis(defl(z))
        e = np.abs(N @ u - exp) / (np.abs(u[6:]) + np.abs(exp) + np.abs(u).max() * 1e-6)
        case.check(e.max() < 1e-6, 'shape-bending', lambda: 'loaded cantilever at z={} of {}: {} expected {}'.format(z, ln, N @ u, exp))
    case.sig('element', len(a))
    case.desc = dict(sets=[list(map(str, k)) for k in sets])


WORKLOADS = [Workload('element', wl_element, 400, 6000), Workload('ae', wl_ae, 1500, 20000), Workload('pc', wl_pc, 1000, 15000), Workload('st', wl_st, 1000, 15000)]
