"""C22: VTK files are read to the grid, cells and data they hold, and written so that they are kept."""
import os
import numpy as np
from ..core import Workload, Raised
from ..gen import anyfile, vtk

TECHNIQUE = 'runtime monitoring: the arrays returned for generated VTK files (ASCII and binary) are compared with the values, points and cells that were put in the file, and again after writing and reading'
RULE = 'A case is one VTK file (kind of dataset, encoding, data arrays) read, or read, written and read back; distinct by (dataset, encoding, dimensions, sections, types).'
ASSUME = ['Legacy VTK format (versions 2 to 4.2, and offsets/connectivity of 5.1).', 'Names of arrays are unique; cells have the types supported by the reader.']


def flat(v, n):
    v = np.asarray(v)
    return v.reshape(n, -1)


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def check_data(case, what, got, exp, n, pad=False):
    case.check(sorted(got) == sorted(exp), 'names', '{}: arrays {} instead of {}'.format(what, sorted(got), sorted(exp)))
    for k in exp:
        if k not in got:
            continue
        v = got[k]
        if isinstance(v, list):
            v = np.concatenate(v)
        if not case.check(len(v) == n, 'values', '{} {}: {} values instead of {}'.format(what, k, len(v), n)):
            continue
        e = flat(exp[k], n)
        if pad and e.shape[1] == 2 and exp[k].ndim == 2:
            e = np.column_stack((e, np.zeros(n, dtype=e.dtype)))
        g = flat(v, n)
        case.check(equal(g, e), 'values', '{} {}: {} instead of {}'.format(what, k, g[:3].tolist(), e[:3].tolist()))
        case.check(v.dtype.kind == e.dtype.kind and v.dtype.itemsize == e.dtype.itemsize, 'values', '{} {}: stored as {} instead of {}'.format(what, k, v.dtype, e.dtype))


def cells_of(f):
    """list of (type, nodes) in the order of the file, with the wedge order of VTK"""
    L = []
    for t, d in f.cells:
        for c in d:
            c = [int(v) for v in c]
            if t == 'wedge':
                c = [c[i] for i in (0, 2, 1, 3, 5, 4)]
            L.append((t, c))
    return L


def check_mesh(case, f, V, what):
    p = np.asarray(f.points)
    if V.kind == 'STRUCTURED_POINTS':
        ok = p.shape == V.points.shape and np.allclose(p, V.points, rtol=1e-12, atol=1e-9)
    else:
        ok = equal(p, V.points)
    case.check(ok, 'points', '{}: points {} instead of {}'.format(what, p[:3].tolist(), V.points[:3].tolist()))
    L = cells_of(f)
    if V.kind == 'UNSTRUCTURED_GRID':
        exp = [('polygon{}'.format(len(c)) if t == 7 else vtk.CELLS[t][0], list(c)) for t, c in V.C]
        case.check(L == exp, 'cells', '{}: cells {} instead of {}'.format(what, L[:3], exp[:3]))
    else:
        case.check([frozenset(c) for _, c in L] == V.corners, 'cells', '{}: cells {} instead of {}'.format(what, [c for _, c in L][:3], V.corners[:3]))
        dim = max(len(c) for c in V.corners)
        case.check(all(t == {2: 'line', 4: 'quad', 8: 'hexahedron'}[dim] for t, _ in L), 'cells', '{}: cell types {}'.format(what, sorted(set(t for t, _ in L))))
        # consecutive nodes of a cell are neighbours (the shape is not twisted)
        if V.axes is not None and dim >= 4:
            n = [len(a) for a in V.axes]
            for t, c in L[:5]:
                q = [np.array([i % n[0], i // n[0] % n[1], i // (n[0] * n[1])]) for i in c[:4]]
                case.check(all(np.abs(q[i] - q[(i + 1) % 4]).sum() == 1 for i in range(4)), 'cells', '{}: cell {} has crossing sides'.format(what, c))


def check_grid(case, f, V):
    if V.axes is None:
        return
    for a, g in zip(V.axes, (f.xp_grid, f.yp_grid, f.zp_grid)):
        case.check(g is not None and len(g) == len(a) and np.allclose(g, a, rtol=1e-12, atol=1e-9), 'grid', 'grid {} instead of {}'.format(g, a))
    if V.kind != 'STRUCTURED_POINTS':
        return
    nx, ny, nz = [len(a) for a in V.axes]
    G = f.point_data_grid
    case.check(G is not None and sorted(G) == sorted(V.pd), 'grid-data', 'gridded arrays {} instead of {}'.format(G and sorted(G), sorted(V.pd)))
    for k, v in V.pd.items():
        if not G or k not in G:
            continue
        g = np.asarray(G[k])
        if not case.check(g.shape[:3] == (nx, ny, nz), 'grid-data', '{}: shape {} for a grid {}'.format(k, g.shape, (nx, ny, nz))):
            continue
        e = np.array([[[np.ravel(v[i + nx * (j + ny * m)]) for m in range(nz)] for j in range(ny)] for i in range(nx)])
        case.check(equal(g.reshape(nx, ny, nz, -1), e), 'grid-data', '{}: values of the grid are not at their points'.format(k))


def wl_read(case):
    V = vtk.VTK(case.rnd)
    fn = case.write('a.vtk', V.build())
    f = case.call('read', anyfile.cls('VTKFile'), fn)
    check_mesh(case, f, V, 'read')
    check_grid(case, f, V)
    check_data(case, 'point data', f.point_data, V.pd, V.np)
    check_data(case, 'cell data', f.cell_data, V.cd, V.nc)
    if case.rnd.random() < 0.3:
        # the same object reads another file
        V = vtk.VTK(case.rnd)
        case.call('read another', f.read, case.write('other.vtk', V.build()))
        check_mesh(case, f, V, 'other')
        check_grid(case, f, V)
        check_data(case, 'point data other', f.point_data, V.pd, V.np)
        check_data(case, 'cell data other', f.cell_data, V.cd, V.nc)
        if V.axes is None:
            case.check(f.xp_grid is None and f.point_data_grid is None, 'other', 'the grid of the previous file remains')
    note(case, V)


def note(case, V):
    case.sig(V.kind, V.binary, V.np if V.axes is None else tuple(len(a) for a in V.axes), tuple(sorted((k, str(v.dtype), v.ndim) for k, v in V.pd.items())), V.nc)
    case.desc = dict(dataset=V.kind, binary=V.binary, points=V.np, cells=V.nc, point_data=sorted(V.pd), cell_data=sorted(V.cd))


def wl_write(case):
    rnd = case.rnd
    V = vtk.VTK(rnd)
    fn = case.write('a.vtk', V.build())
    f = case.call('read', anyfile.cls('VTKFile'), fn)
    out = case.path('b.vtk')
    binary = rnd.random() < 0.5
    case.call('write', lambda: f.write(out, binary=binary))
    g = case.call('read back', anyfile.cls('VTKFile'), out)
    check_mesh(case, g, V, 'written ({})'.format('binary' if binary else 'ascii'))
    check_data(case, 'point data written', g.point_data, V.pd, V.np, pad=True)
    check_data(case, 'cell data written', g.cell_data, V.cd, V.nc, pad=True)
    case.check(g.dataset.get('type') == 'UNSTRUCTURED_GRID', 'dataset', 'written as {}'.format(g.dataset.get('type')))
    a = open(out, 'rb').read()
    case.call('write again', lambda: g.write(case.path('c.vtk'), binary=binary))
    case.check(open(case.path('c.vtk'), 'rb').read() == a, 'stable', 'a second write differs from the first one')
    note(case, V)


def wl_bad(case):
    """files which are not as they should be are refused"""
    rnd = case.rnd
    n = rnd.randint(6, 12)
    binary = rnd.random() < 0.5
    blk = lambda a, t: (np.asarray(a, t).astype(np.dtype(t).newbyteorder('>')).tobytes() if binary else ' '.join(repr(v) for v in np.asarray(a, t).tolist()).encode()) + b'\n'
    C = [(t, [rnd.randrange(n) for _ in range(k)]) for t, k in [rnd.choice([(5, 3), (9, 4), (3, 2)]) for _ in range(rnd.randint(1, 5))]]
    how = rnd.choice(['type', 'count', 'points', 'cells', 'types', 'dataset', 'kind', 'section', 'dims', 'comps', 'none'])
    i = rnd.randrange(len(C))
    T = [t for t, _ in C]
    L = [[len(c)] + c for _, c in C]
    if how == 'type':
        T[i] = rnd.choice([2, 4, 6, 11, 17])
    elif how == 'count':
        L[i] = [len(C[i][1]) + 1] + C[i][1] + [0] if rnd.random() < 0.5 else [len(C[i][1]) - 1] + C[i][1][:-1]
    flat = sum(L, [])
    P = b'POINTS %d double\n' % n + blk(np.arange(3.0 * n), 'f8')
    K = b'CELLS %d %d\n' % (len(C), len(flat)) + blk(flat, 'i4')
    Y = b'CELL_TYPES %d\n' % len(C) + blk(T, 'i4')
    D = b'POINT_DATA %d\nSCALARS s double %d\nLOOKUP_TABLE default\n' % (n, 5 if how == 'comps' else 1) + blk(np.arange(float(n * (5 if how == 'comps' else 1))), 'f8')
    if how == 'section':
        D = b'NORMALITY a b c\n' + D
    kind = {'dataset': b'POLYDATA', 'dims': b'STRUCTURED_POINTS'}.get(how, b'UNSTRUCTURED_GRID')
    if how == 'dims':
        P, K, Y = b'DIMENSIONS %d 1\nORIGIN 0 0 0\nSPACING 1 1 1\n' % n, b'', b''
    S = b'# vtk DataFile Version 3.0\ntitle\n' + (b'HEXA' if how == 'kind' else b'BINARY' if binary else b'ASCII') + b'\nDATASET ' + kind + b'\n'
    S += (b'' if how == 'points' else P) + (b'' if how == 'cells' else K) + (b'' if how == 'types' else Y) + D
    r = case.attempt('read bad', anyfile.cls('VTKFile'), case.write('a.vtk', S))
    case.check(isinstance(r, Raised) != (how == 'none') and not (isinstance(r, Raised) and isinstance(r.exc, NameError)), 'refused', '{}: {!r}'.format(how, r))
    case.sig('bad', how, binary, len(C))
    case.desc = dict(how=how, cells=len(C))


def wl_build(case):
    """meshes made (or edited) by the user"""
    from weio.vtk_file import VTKFile, CellBlock
    rnd, rng = case.rnd, case.rng
    V = vtk.VTK(rnd, 'UNSTRUCTURED_GRID')
    V.build()
    f = VTKFile()
    if rnd.random() < 0.3:
        f = case.call('read', VTKFile, case.write('a.vtk', vtk.VTK(rnd, 'UNSTRUCTURED_GRID').build()))
    flat2 = rnd.random() < 0.3
    dt = rnd.choice(['f4', 'f8'])
    p = rng.normal(size=(V.np, 2 if flat2 else 3)).astype(dt)
    if rnd.random() < 0.2:
        p = np.asfortranarray(p)
    f.points = p
    B, n = [], 0
    V.pd, V.cd = {}, {}
    for t, c in V.C:
        nm = 'polygon{}'.format(len(c)) if t == 7 else vtk.CELLS[t][0]
        if t == 13:
            c = [c[i] for i in (0, 2, 1, 3, 5, 4)]
        if B and B[-1][0] == nm:
            B[-1][1].append(c)
        else:
            B.append((nm, [c]))
    it = rnd.choice(['i4', 'i8', int])
    f.cells = [CellBlock(t, np.array(c, dtype=it)) for t, c in B]
    f.point_data, f.cell_data = {}, {}
    for k in range(rnd.randint(0, 3)):
        sh = rnd.choice([(), (1,), (2,), (3,), (3, 3), (4,), (2, 2), (2, 3)])
        d = rnd.choice(['f4', 'f8', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'i1', 'i2'])
        mk = lambda m: (rng.normal(size=(m,) + sh) * 1000 if d[0] == 'f' else rng.integers(0, 100, (m,) + sh)).astype(d)
        v = mk(V.np)
        f.point_data['p{}'.format(k)] = v
        V.pd['p{}'.format(k)] = v.reshape(V.np, -1) if sh != (2,) else v
        if rnd.random() < 0.6:
            L = [mk(len(c)) for _, c in B]
            f.cell_data['c{}'.format(k)] = L
            v = np.concatenate(L)
            V.cd['c{}'.format(k)] = v.reshape(V.nc, -1) if sh != (2,) else v
    before = [p.copy()] + [v.copy() for v in f.point_data.values()]
    binary = rnd.random() < 0.5
    out = case.path('b.vtk')
    if rnd.random() < 0.3 and f.point_data:
        # names with blanks are refused, and the file is left as it was
        old = case.write('b.vtk', 'something')
        f.point_data['a b'] = before[1]
        r = case.attempt('write bad', lambda: f.write(out, binary=binary))
        with open(old) as q:
            case.check(isinstance(r, Raised) and q.read() == 'something', 'refused', 'a name with blanks: {!r}'.format(r))
        del f.point_data['a b']
    case.call('write', lambda: f.write(out, binary=binary))
    case.check(all(equal(a, b) for a, b in zip(before, [f.points] + list(f.point_data.values()))), 'unchanged', 'writing changed the data of the object')
    g = case.call('read back', VTKFile, out)
    V.points = np.column_stack((p, np.zeros(V.np, dt))) if flat2 else p
    check_mesh(case, g, V, 'built')
    case.check(np.asarray(g.points).dtype.itemsize == p.dtype.itemsize, 'points', 'precision of the points')
    check_data(case, 'point data built', g.point_data, V.pd, V.np, pad=True)
    check_data(case, 'cell data built', g.cell_data, V.cd, V.nc, pad=True)
    with open(out, 'rb') as q:
        raw = q.read()
    case.check(raw.startswith(b'# vtk DataFile Version') and raw.split(b'\n')[2] == (b'BINARY' if binary else b'ASCII') and raw.split(b'\n')[3] == b'DATASET UNSTRUCTURED_GRID', 'header', repr(raw[:90]))
    txt = [l for l in raw.split(b'\n') if l.startswith((b'POINT_DATA', b'CELL_DATA', b'POINTS', b'CELLS', b'CELL_TYPES'))]
    exp = [b'POINTS %d' % V.np, b'CELLS %d %d' % (V.nc, V.nc + sum(len(c) for _, c in V.C)), b'CELL_TYPES %d' % V.nc] + ([b'POINT_DATA %d' % V.np] if V.pd else []) + ([b'CELL_DATA %d' % V.nc] if V.cd else [])
    case.check(sorted(b' '.join(l.split()[:2 if l.startswith(b'POINTS') else 9]) for l in txt) == sorted(exp), 'header', 'sections {} instead of {}'.format(txt, exp))
    if binary:
        k = raw.index(b'\n', raw.index(b'POINTS')) + 1
        e = np.ascontiguousarray(V.points).astype(V.points.dtype.newbyteorder('>')).tobytes()
        case.check(raw[k:k + len(e)] == e, 'points', 'points are not stored big-endian, row by row')
    case.sig('build', flat2, binary, len(B), tuple(sorted(V.pd)), dt)
    case.desc = dict(points=V.np, blocks=[(t, len(c)) for t, c in B][:5], binary=binary)


def wl_cut(case):
    """files cut short: refused, or the arrays that are returned are complete"""
    rnd = case.rnd
    V = vtk.VTK(rnd)
    raw = V.build()
    C = anyfile.cls('VTKFile')
    for i in range(6):
        cut = rnd.randrange(1, len(raw)) if rnd.random() < 0.7 else len(raw) - rnd.randint(1, min(20, len(raw) - 1))
        fn = case.write('a.vtk', raw[:cut])
        f = case.attempt('read cut', C, fn)
        if isinstance(f, Raised):
            case.check(not isinstance(f.exc, NameError), 'internal-error', 'cut file: {!r}'.format(f))
            continue
        ok = np.asarray(f.points).shape == V.points.shape
        case.check(ok, 'cut-points', 'cut at {} of {}: {} points instead of {}'.format(cut, len(raw), np.shape(f.points), V.points.shape))
        for what, got, exp, n in (('point', f.point_data, V.pd, V.np), ('cell', f.cell_data, V.cd, V.nc)):
            for k, v in got.items():
                v = np.concatenate(v) if isinstance(v, list) else np.asarray(v)
                if len(str(k)) and k not in exp:
                    case.fail('cut-data', 'cut at {} of {}: unknown {} array {}'.format(cut, len(raw), what, k))
                    continue
                g, e = v.ravel(), exp[k].ravel()
                if not case.check(g.shape == e.shape, 'cut-data', 'cut at {} of {}: {} values of {} array {} instead of {}'.format(cut, len(raw), g.size, what, k, e.size)):
                    continue
                same = (g == e) | ((g != g) & (e != e))
                case.check(bool(np.all(same if V.binary else same[:-1])), 'cut-data', 'cut at {} of {}: wrong values in {} array {}'.format(cut, len(raw), what, k))
    note(case, V)


WORKLOADS = [Workload('cut', wl_cut, 1200, 15000), Workload('read', wl_read, 5000, 60000), Workload('write', wl_write, 3000, 40000),
             Workload('bad', wl_bad, 800, 5000), Workload('build', wl_build, 2000, 20000)]
