"""C18: SubDyn summary files: tables, modes, node positions and their conversions."""
import json
import numpy as np
from ..core import Workload
from ..compare import arr_close
from ..gen.util import logint

TECHNIQUE = 'runtime monitoring: SubDyn summary files of random structures are rendered by a reference writer; tables, Guyan/Craig-Bampton shapes, frames, JSON and graph are compared with an independent evaluation, with several files read in turn and calls repeated'
RULE = 'A case is one or two SubDyn summary files with random nodes, elements, boundary/internal/fixed DOFs, joints with extra rotations, with or without CB modes, 3- or 4-column DOF maps; distinct by these.'
ASSUME = ['Node numbers are 1..n in file order, and every node has at least one translational DOF (JSON and graph: all nodes).', 'Coordinates of nodes are distinct.', 'Displacements are scaled as documented: largest component equal to maxDisp, default a tenth of the largest dimension, not scaled below 1e-5.']


def arr(L, name, M, fmt, comment=''):
    M = np.asarray(M)
    L.append('{}: # {} x {} {}'.format(name, M.shape[0], M.shape[1], comment))
    T = [[fmt % v for v in r] for r in M]
    L += ['  - [' + ''.join(v.rjust(15 if 'E' in fmt else 8) + ',' for v in r) + (']' if r else ' ]') for r in T]
    return np.array(T).astype(float).reshape(M.shape)


def structure(case, fname):
    """writes a summary file and returns the expected content"""
    rnd, rng = case.rnd, case.rng
    n = rnd.choice([2, 3, 4, logint(rnd, 2, 30)])
    pos = np.round(rng.normal(size=(n, 3)) * rnd.choice([1, 10, 60]), 3)
    if rnd.random() < 0.3:
        pos[:, 2] = np.round(rng.integers(-3, 3, n) * 10.0, 3)  # ties
    if rnd.random() < 0.3:
        pos[:, 2] = np.sort(pos[:, 2])[:: rnd.choice([1, -1])]
    pos[:, 0] += np.arange(n) * 0.25 if rnd.random() < 0.8 else 100 * np.arange(n)
    dofs = []
    for i in range(n):
        m = rnd.choice([6, 6, 6, 6, 9, 12])
        keep = list(range(1, m + 1))
        if rnd.random() < 0.1:
            keep = [k for k in keep if k == 1 or rnd.random() < 0.7]
        dofs += [(i + 1, len(keep), k) for k in keep]
    D = np.array(dofs)
    nd = len(D)
    four = rnd.random() < 0.5
    perm = rng.permutation(nd) + 1
    kF = rnd.choice([0, 0, 1, min(6, nd - 2)])
    kB = rnd.choice([min(6, nd - kF - 1), rnd.randint(1, min(12, nd - kF - 1))])
    F, B, Lo = sorted(perm[:kF]), sorted(perm[kF:kF + kB]), sorted(perm[kF + kB:])
    if rnd.random() < 0.4:
        rnd.shuffle(B)
    if rnd.random() < 0.4:
        Lo = list(rng.permutation(Lo))
    nCB = rnd.choice([0, 1, 3, min(8, len(Lo)), min(rnd.randint(1, 40), len(Lo))])
    PhiM = rng.normal(size=(len(Lo), nCB)) * 10.0 ** rnd.randint(-3, 3)
    PhiR = rng.normal(size=(len(Lo), kB)) * (rng.random((len(Lo), kB)) < 0.7)
    if nCB and rnd.random() < 0.3:
        PhiM[:, 0] *= 1e-9
    ne = rnd.randint(1, 2 * n)
    El = np.zeros((ne, 16))
    for e in range(ne):
        a, b = rng.choice(n, 2, replace=False) + 1
        El[e] = [e + 1, a, b, rnd.randint(1, 4), rnd.randint(1, 4), rnd.randint(1, 3), 0, 0, 7850, 2.1e11, 8.0769e10, .5, .1, .2, .3, 0]
        El[e, 6] = np.linalg.norm(pos[a - 1] - pos[b - 1])
        El[e, 7] = round(rnd.uniform(0.01, 3), 3)
        El[e, 8:11] = [rnd.uniform(1000, 9000), rnd.uniform(1, 3) * 1e11, rnd.uniform(5, 9) * 1e10]
    Nd = np.column_stack([np.arange(n) + 1, pos, rng.integers(1, 4, n), rng.normal(size=(n, 4))])
    exp = {}
    L = ['', '#This summary file was generated by SubDyn  on 21-Jul-2020 at 21:06:35.', '', '#Unless specified, units are consistent with Input units', '#' + '_' * 40]
    if rnd.random() < 0.5:
        L = L[1:]
    sc = dict(nNodes_I=1, nNodes_C=rnd.randint(0, 2), nNodes=n, nDOF__B=kB, nDOF__L=len(Lo), nDOF__F=kF, nDOF_red=nd)
    for k, v in sc.items():
        L.append('{:8s}: {:8d} # Number of Nodes: "retained" (B)'.format(k, v))
    exp.update(sc)
    exp['DOF___B'] = arr(L, 'DOF___B', [B], '%d') - 1
    exp['DOF___F'] = arr(L, 'DOF___F', [F], '%d') - 1
    exp['DOF___L'] = arr(L, 'DOF___L', [Lo], '%d') - 1
    L += ['', '#Index map from DOF to nodes']
    D4 = np.column_stack([np.arange(nd) + 1, D])
    arr(L, 'DOF2Nodes', D4 if four else D, '%d', '(nDOFRed x 3, for each constrained DOF, col1: node index, col2: number of DOF)')
    exp['DOF2Nodes'] = np.column_stack([np.arange(nd), D])
    L += ['#     Node_[#]          X_[m]          Y_[m]          Z_[m]']
    exp['Nodes'] = arr(L, 'Nodes', Nd, '%.6E')
    L.append('#    Elem_[#]    Node_1   Node_2')
    exp['Elements'] = arr(L, 'Elements', El, '%.6E')
    exp['Full_frequencies'] = arr(L, 'Full_frequencies', [np.sort(np.abs(rng.normal(size=rnd.randint(1, 40))))], '%.6E')
    exp['CB_frequencies'] = arr(L, 'CB_frequencies', [np.sort(np.abs(rng.normal(size=nCB))) if rnd.random() < 0.7 else np.abs(rng.normal(size=nCB))], '%.6E').ravel()
    L.append('#' + '_' * 40)
    exp['PhiM'] = arr(L, 'PhiM', PhiM, '%.6E', '(CB modes)')
    L.append('')
    exp['PhiR'] = arr(L, 'PhiR', PhiR, '%.6E', '(Guyan modes)')
    for k in ('KBBt', 'MBBt', 'MRB'):
        exp[k] = arr(L, k, rng.normal(size=(6, 6)) * 1e6, '%.6E')
    if rnd.random() < 0.5:
        L.append(rnd.choice(['', '#end']))
    fn = case.write(fname, rnd.choice(['\n', '\n', '\r\n']).join(L) + rnd.choice(['\n', '']))
    case.sig(n, nd, kB, kF, nCB, four)
    return fn, exp


def shapes(e, kind, maxDisp):
    """node -> displacements (3 x modes), nan where the DOF does not exist"""
    B, Lo, F = (e['DOF___' + k].ravel().astype(int) for k in 'BLF')
    P = e['PhiR'] if kind == 'R' else e['PhiM']
    n, m = len(e['Nodes']), P.shape[1]
    full = np.zeros((len(e['DOF2Nodes']), m))
    full[Lo] = P
    if kind == 'R':
        full[B, np.arange(len(B))] = 1
    disp = np.full((n, 3, m), np.nan)
    for idof in range(len(full)):
        _, node, _, k = e['DOF2Nodes'][idof].astype(int)
        if k <= 3:
            disp[node - 1, k - 1] = full[idof]
    for i in range(m):
        mx = np.nanmax(np.abs(disp[:, :, i]))
        if mx > 1e-5:
            disp[:, :, i] *= maxDisp / mx
    return disp


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return 'shape {} expected {}'.format(a.shape, b.shape)
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return 'missing values differ'
    s = np.nanmax(np.abs(b)) if b.size and not np.all(np.isnan(b)) else 0
    bad = np.abs(a - b) > tol * s + 1e-300
    return 'largest difference {:.3g} (scale {:.3g})'.format(np.nanmax(np.abs(a - b)), s) if bad.any() else None


def content(case, f, e):
    for k, v in e.items():
        if not case.check(k in f.keys(), 'entry', '{} is missing'.format(k)):
            continue
        if np.ndim(v) == 0:
            case.check(f[k] == v, 'scalar', '{}: {} expected {}'.format(k, f[k], v))
        else:
            m = same(f[k], v, 1e-14)
            case.check(m is None, 'table', '{}: {}'.format(k, m))
    for i, k in enumerate('XYZ'):
        m = same(f[k], e['Nodes'][:, 1 + i], 1e-14)
        case.check(m is None, 'positions', '{}: {}'.format(k, m))


def judge(case, f, e):
    rnd = case.rnd
    pos = e['Nodes'][:, 1:4]
    dflt = 0.1 * np.max(pos.max(0) - pos.min(0))
    for md, sd in ((None, None), (None, 2), (rnd.choice([1.0, 0.01, 50]), rnd.choice([None, 0, 1, 2]))):
        kw = {} if md is None and sd == 2 else dict(maxDisp=md, sortDim=sd)
        r = case.call('getModes', lambda: f.getModes(**kw))
        for kind, (d, p, I) in (('R', r[:3]), ('M', r[3:])):
            x = shapes(e, kind, dflt if md is None else md)
            I = np.asarray(I, int)
            if not case.check(sorted(I) == list(range(1, len(pos) + 1)), 'mode-nodes', 'nodes {} of {}'.format(I[:6], len(pos))):
                continue
            case.check(sd is not None or list(I) == sorted(I), 'mode-order', 'nodes not in the order of the file')
            m = same(p, pos[I - 1], 1e-14)
            case.check(m is None, 'mode-positions', m)
            case.check(sd is None or np.all(np.diff(np.asarray(p)[:, sd]) >= 0), 'mode-sorting', 'not sorted by dimension {}'.format(sd))
            m = same(d, x[I - 1])
            case.check(m is None, 'mode-shapes', lambda: '{} {}'.format(kind, m))
    # --- displacements of some of the degrees of freedom
    D = e['DOF2Nodes'].astype(int)
    some = rnd.sample([int(i) for i in D[:, 1]], rnd.randint(1, 3))
    I = [int(r[0]) for r in D if r[1] in some]
    if any(D[i, 3] <= 3 for i in I):
        rnd.shuffle(I)
        U = case.rng.normal(size=(len(I), rnd.randint(1, 3)))
        md, sd = rnd.choice([None, 2.0]), rnd.choice([None, None, 0, 2])
        if all(any(D[i, 3] <= 3 for i in I if D[i, 1] == n) for n in set(some)):
            dd, pp, nn = case.call('NodesDisp', f.NodesDisp, I, U.copy(), maxDisp=md, sortDim=sd)
            nn = [int(q) for q in nn]
            case.check(sorted(nn) == sorted(set(some)) and (sd is not None or nn == sorted(nn)), 'some-nodes', '{} expected {}'.format(nn, sorted(set(some))))
            x = np.full((len(nn), 3, U.shape[1]), np.nan)
            for i, u in zip(I, U):
                if D[i, 3] <= 3 and D[i, 1] in nn:
                    x[nn.index(D[i, 1]), D[i, 3] - 1] = u
            if md is not None:
                for k in range(U.shape[1]):
                    mx = np.nanmax(np.abs(x[:, :, k]))
                    x[:, :, k] *= md / mx if mx > 1e-5 else 1
            m = same(dd, x) or same(pp, pos[np.array(nn) - 1], 1e-14)
            case.check(m is None, 'some-displacements', m)
            case.check(sd is None or np.all(np.diff(pp[:, sd]) >= 0), 'some-sorting', 'not sorted')
    # --- frame
    df = case.call('toDataFrame', f.toDataFrame)
    case.check(list(df.columns[:3]) == ['z_[m]', 'x_[m]', 'y_[m]'], 'frame-columns', '{}'.format(list(df.columns[:4])))
    P = df[['x_[m]', 'y_[m]', 'z_[m]']].values
    I = [int(np.argmin(np.abs(pos - p).sum(1))) for p in P]
    case.check(sorted(I) == list(range(len(pos))) and same(P, pos[I], 1e-14) is None and np.all(np.diff(P[:, 2]) >= 0), 'frame-positions', 'positions of the nodes sorted by z')
    cols = ['z_[m]', 'x_[m]', 'y_[m]']
    A, Bc, vals = [], [], {}
    for kind, pre in (('R', 'Guyan'), ('M', 'CB')):
        x = np.nan_to_num(shapes(e, kind, dflt))[I]
        for what, lst in (('Mode', A), ('Disp', Bc)):
            for i in range(x.shape[2]):
                for j, c in enumerate('xyz'):
                    if np.any(x[:, j, i] != 0):
                        c = '{}{}{}{}_[m]'.format(pre, what, i + 1, c)
                        lst.append(c)
                        vals[c] = x[:, j, i] + (P[:, j] if what == 'Mode' else 0)
    cols += A + Bc
    case.check(list(df.columns) == cols, 'frame-columns', lambda: 'extra {} missing {} or another order'.format(sorted(set(df.columns) - set(cols))[:4], sorted(set(cols) - set(df.columns))[:4]))
    for c, v in vals.items():
        if c in df.columns:
            m = same(df[c].values, v)
            case.check(m is None, 'frame-values', '{}: {}'.format(c, m))
    # --- JSON and graph
    out = case.path('o.json') if rnd.random() < 0.5 else None
    d = case.call('toJSON', lambda: f.toJSON(out) if out else f.toJSON())
    El = e['Elements']
    if out:
        with open(out) as fid:
            dj = json.load(fid)
        case.check(json.dumps(dj, sort_keys=True) == json.dumps(json.loads(json.dumps(d)), sort_keys=True), 'json-file', 'the file and the returned dictionary differ')
    geometry(case, d, pos, El, e, dflt, 'json')
    g = case.call('toGraph', f.toGraph)
    geometry(case, case.call('graph.toJSON', g.toJSON), pos, El, e, dflt, 'graph')
    case.check([n.ID for n in g.Nodes] == list(range(1, len(pos) + 1)) and [q.ID for q in g.Elements] == [int(v) for v in El[:, 0]], 'graph-ids', 'node or element numbers')
    case.check([q.data.get('Type') for q in g.Nodes] == [int(t) for t in e['Nodes'][:, 4]], 'graph-node-types', '')
    for q, E in zip(g.Elements, El):
        case.check([int(i) for i in q.nodeIDs] == [int(E[1]), int(E[2])] and abs(q.length - E[6]) <= 1e-4 * (1 + np.abs(pos).max()), 'graph-elements', '{} expected nodes {} length {}'.format(q, E[1:3], E[6]))
        for k, j in (('Area', 7), ('rho', 8), ('E', 9), ('G', 10)):
            case.check(q.data[k] == E[j], 'graph-properties', '{} of element {}: {} expected {}'.format(k, q.ID, q.data[k], E[j]))
    D = e['DOF2Nodes']
    for nd in g.Nodes:
        case.check(list(nd.data['DOFs']) == [int(r[0]) for r in D if r[1] == nd.ID], 'graph-dofs', 'node {}'.format(nd.ID))


def geometry(case, d, pos, El, e, dflt, tag, tol=1e-12):
    m = same(d['Nodes'], pos, tol)
    case.check(m is None, tag + '-nodes', m)
    case.check([list(map(int, c)) for c in d['Connectivity']] == [[int(a) - 1, int(b) - 1] for a, b in El[:, 1:3]], tag + '-connectivity', lambda: '{} expected {}'.format(d['Connectivity'][:3], El[:3, 1:3] - 1))
    case.check([int(p['type']) for p in d['ElemProps']] == [int(t) for t in El[:, 5]], tag + '-types', '')
    case.check(abs(d['groundLevel'] - pos[:, 2].min()) <= 1e-9 * np.abs(pos).max(), tag + '-ground', '{} expected {}'.format(d['groundLevel'], pos[:, 2].min()))
    for p, E in zip(d['ElemProps'], El):
        D = 4 * np.sqrt(E[7] / np.pi)
        case.check(p['shape'] == 'cylinder' and abs(p['Diam'] - D) <= 1e-12 * D, tag + '-diameter', '{} expected {}'.format(p, D))
    M = d['Modes']
    xs = [('GY', shapes(e, 'R', dflt)), ('CB', shapes(e, 'M', dflt))]
    exp = [('{}{}'.format(k, i + 1), x[:, :, i], 1.0 if k == 'GY' else 2 * np.pi * e['CB_frequencies'][i]) for k, x in xs for i in range(x.shape[2])]
    if case.check([q['name'] for q in M] == [x[0] for x in exp], tag + '-modes', lambda: '{} expected {}'.format([q['name'] for q in M][:9], [x[0] for x in exp][:9])):
        for q, (nm, x, w) in zip(M, exp):
            m = same(q['Displ'], x, 1e-6)
            case.check(m is None, tag + '-shapes', lambda: '{}: {}'.format(nm, m))
            case.check(abs(q['omega'] - w) <= 1e-9 * abs(w), tag + '-frequency', '{}: {} expected {}'.format(nm, q['omega'], w))


def wl_summary(case):
    from weio.fast_summary_file import FASTSummaryFile
    rnd = case.rnd
    fn, e = structure(case, rnd.choice(['a.SD.sum.yaml', 'a.sum', 'a.SD.sum']))
    f = case.call('FASTSummaryFile', FASTSummaryFile, fn)
    case.check(f['module'] == 'SubDyn', 'module', f['module'])
    content(case, f, e)
    both = rnd.random() < 0.5
    if both:
        fn2, e2 = structure(case, 'b.SD.sum.yaml')
        f2 = case.call('FASTSummaryFile', FASTSummaryFile, fn2)
    judge(case, f, e)
    content(case, f, e)
    if both:
        judge(case, f2, e2)
        content(case, f2, e2)
    if rnd.random() < 0.3:
        judge(case, f, e)
        content(case, f, e)
    if rnd.random() < 0.3:
        case.call('read again', f.read)
        content(case, f, e)
    case.desc = dict(nodes=len(e['Nodes']), dofs=len(e['DOF2Nodes']), cb=len(e['CB_frequencies']), fixed=e['DOF___F'].size, two=both)


def wl_yaml(case):
    """scalars and lists of the reader of summary files"""
    from weio.mini_yaml import yaml_read
    rnd, rng = case.rnd, case.rng
    L, exp, kinds = [], {}, []
    for k in range(rnd.randint(1, 8)):
        key = rnd.choice(['n{}', 'Key_{}', 'two words {}', 'K(1,{})']).format(k)
        kind = rnd.choice(['int', 'float', 'text', 'list', 'list', 'list', 'nothing', 'comment'])
        kinds.append(kind)
        rem = rnd.choice(['', '', ' # some remark', ' # 3 x 3 (a: b)', '# 12'])
        ind = rnd.choice(['', '', '  '])
        if kind == 'int':
            exp[key] = rnd.choice([0, 1, -7, 123456789012, 12345678901234567891])
            L.append('{}{}: {}{}'.format(ind, key, exp[key], rem))
        elif kind == 'float':
            s = rnd.choice(['1.7', '-3.0', '1e-5', '2.5E+08', '.5', '0.1000000000000000055', '1E3'])
            exp[key] = float(s)
            L.append('{}{} :{} {}{}'.format(ind, key, rnd.choice(['', '   ']), s, rem))
        elif kind == 'text':
            exp[key] = rnd.choice(['SubDyn', 'a B c', '"quoted"', 'v1.02', 'Wei\u00dfe'])
            L.append('{}: {}{}'.format(key, exp[key], rem))
        elif kind == 'list':
            n, m = rnd.choice([1, 2, 6, 30]), rnd.choice([1, 1, 2, 3, 12])
            if rnd.random() < 0.04:
                n, m = rnd.randint(5000, 6000), 2
            M = rng.integers(-99, 99, (n, m)) if rnd.random() < 0.4 else rng.normal(size=(n, m)) * 10.0 ** rnd.randint(-8, 8)
            T = [[str(v) if M.dtype.kind == 'i' else repr(float(v)) for v in r] for r in M]
            if M.dtype.kind != 'i' and rnd.random() < 0.3:
                T[0] = [str(rnd.randint(0, 9)) for _ in T[0]]
                M[0] = [float(v) for v in T[0]]
            exp[key] = M
            L.append('{}:{}'.format(key, rem))
            sep, end = rnd.choice([',', ', ', ' , ', ',    ']), rnd.choice(['', ',', ', '])
            br = m > 1 or rnd.random() < 0.7
            for r in T:
                x = sep.join(r) + end
                L.append(rnd.choice(['', '  ', '    ']) + '- ' + ('[' + rnd.choice(['', ' ']) + x + ']' if br else r[0]) + rnd.choice(['', '', '', '  ', ' # row', ' # row, 2']))
            if rnd.random() < 0.3:
                L.append('')
        elif kind == 'nothing':
            exp[key] = np.zeros((0, 0))
            L.append('{}:{}'.format(key, rem))
        else:
            L += [rnd.choice(['# a: b: c', '', '   ', '#---'])]
    bad = rnd.random() < 0.25 and [k for k, v in exp.items() if np.ndim(v) == 2 and v.size]
    if bad:
        J = [i for i, l in enumerate(L) if l.strip().startswith('- [')]
        if J:
            j = rnd.choice(J)
            how = rnd.choice(['open', 'short', 'word'])
            l = L[j].split('#')[0].rstrip()
            n = len([v for v in l.strip()[1:].strip(' []').split(',') if v.strip()])
            first = not L[j - 1].strip().startswith('-')
            last = j + 1 >= len(L) or not L[j + 1].strip().startswith('-')
            if how == 'open':
                L[j] = l[:l.index(']')]
            elif how == 'short' and n > 1 and not (first and last):
                L[j] = '- [' + ','.join(l.strip()[1:].strip(' []').split(',')[:rnd.randint(1, n - 1)]) + ']'
            else:
                L[j] = '- [' + ','.join(['x1'] * n) + ']'
            fn = case.write('b.yaml', '\n'.join(L) + '\n', encoding='utf-8')
            r = case.attempt('yaml_read', yaml_read, fn)
            case.check(isinstance(r, Exception) or hasattr(r, 'exc'), 'refused', lambda: 'line {!r} is read as {}'.format(L[j], {k: np.shape(v) for k, v in r.items()}))
            case.sig('bad', how)
            case.desc = dict(bad=how)
            return
    fn = case.write('a.yaml', rnd.choice(['\n', '\n', '\r\n']).join(L) + rnd.choice(['\n', '', '\n\n']))
    old = dict(kept=3, **({list(exp)[0]: 'old'} if exp else {}))
    d = case.call('yaml_read', lambda: yaml_read(fn, old) if rnd.random() < 0.3 else yaml_read(fn))
    if d is old:
        case.check(d.pop('kept', None) == 3, 'given-dictionary', 'content of the given dictionary lost')
    case.check(list(d) == list(exp) or (d is old and sorted(d) == sorted(exp)), 'keys', '{} expected {}'.format(list(d), list(exp)))
    for k, v in exp.items():
        if np.ndim(v) == 2:
            m = same(d[k], v, 0) if np.size(v) else (None if np.size(d[k]) == 0 else 'not empty')
            case.check(m is None and (v.dtype.kind != 'i' or d[k].dtype.kind == 'i'), 'list', lambda: '{}: {} {}'.format(k, m, d[k].dtype))
        else:
            case.check(d[k] == v and type(d[k]) is type(v), 'scalar', '{}: {!r} expected {!r}'.format(k, d[k], v))
    case.sig(tuple(kinds))
    case.desc = dict(kinds=kinds)


def wl_object(case):
    """the same object reads several files"""
    from weio.fast_summary_file import FASTSummaryFile
    rnd = case.rnd
    fn, e = structure(case, 'a.SD.sum.yaml')
    with open(fn, newline='') as f:
        t = f.read()
    fn1 = case.write('c.SD.sum.yaml', t.rstrip('\r\n') + '\nExtra: 3\nTable:\n - [1, 2]\n')
    fn2, e2 = structure(case, 'b.SD.sum.yaml')
    f = case.call('FASTSummaryFile', FASTSummaryFile, fn1)
    case.check(f['Extra'] == 3 and np.shape(f['Table']) == (1, 2), 'extra', 'other entries')
    content(case, f, e)
    case.call('read', f.read, fn2)
    new = case.call('FASTSummaryFile', FASTSummaryFile, fn2)
    case.check(list(f.keys()) == list(new.keys()), 'other-file', lambda: 'keys {} remain'.format(set(f.keys()) - set(new.keys())))
    content(case, f, e2)
    judge(case, f, e2)
    case.desc = dict(nodes=len(e['Nodes']), other=len(e2['Nodes']))


WORKLOADS = [Workload('summary', wl_summary, 600, 6000), Workload('object', wl_object, 100, 1500), Workload('yaml', wl_yaml, 1200, 20000)]
