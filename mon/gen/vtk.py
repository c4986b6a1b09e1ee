"""VTK legacy files, written by hand together with what they mean."""
import numpy as np

# VTK name -> numpy
TYPES = {'float': 'f4', 'double': 'f8', 'int': 'i4', 'unsigned_char': 'u1', 'char': 'i1', 'short': 'i2', 'unsigned_short': 'u2', 'unsigned_int': 'u4', 'long': 'i8', 'unsigned_long': 'u8'}
# VTK cell type -> (name given by the library, number of nodes)
CELLS = {1: ('vertex', 1), 3: ('line', 2), 5: ('triangle', 3), 9: ('quad', 4), 10: ('tetra', 4), 12: ('hexahedron', 8), 13: ('wedge', 6), 14: ('pyramid', 5), 21: ('line3', 3), 22: ('triangle6', 6), 23: ('quad8', 8), 24: ('tetra10', 10), 25: ('hexahedron20', 20), 28: ('quad9', 9),
         15: ('penta_prism', 10), 16: ('hexa_prism', 12), 26: ('wedge15', 15), 27: ('pyramid13', 13), 29: ('hexahedron27', 27), 30: ('quad6', 6), 31: ('wedge12', 12), 32: ('wedge18', 18), 33: ('hexahedron24', 24), 34: ('triangle7', 7), 35: ('line4', 4)}


def values(rnd, typ, n):
    d = np.dtype(TYPES[typ])
    if d.kind == 'f':
        v = [rnd.choice([0, 1, -1, rnd.uniform(-10, 10), rnd.gauss(0, 1) * 10 ** rnd.randint(-6, 8), round(rnd.uniform(-100, 100), 2)]) for _ in range(n)]
    else:
        ii = np.iinfo(d)
        v = [rnd.choice([0, 1, int(ii.max), int(ii.min), rnd.randint(0, 100), rnd.randint(int(ii.min), int(ii.max))]) for _ in range(n)]
    return np.array(v, dtype=d)


def ascii_(rnd, a, per=None):
    a = np.asarray(a).ravel()
    per = per or rnd.choice([1, 3, 9, 100000])
    S = []
    for v in a:
        if a.dtype.kind == 'f':
            S.append(rnd.choice(['{!r}', '{!r}', '{:.17e}'])[1:-1] and (repr(float(v)) if rnd.random() < 0.7 else '{:.17e}'.format(float(v))))
        else:
            S.append(str(int(v)))
    sep = rnd.choice([' ', '  ', ' '])
    return '\n'.join(sep.join(S[i:i + per]) for i in range(0, len(S), per)).encode() + b'\n'


class VTK:
    def __init__(self, rnd, kind=None, binary=None):
        self.rnd = rnd
        self.kind = kind or rnd.choice(['STRUCTURED_POINTS', 'STRUCTURED_POINTS', 'RECTILINEAR_GRID', 'STRUCTURED_GRID', 'UNSTRUCTURED_GRID', 'UNSTRUCTURED_GRID'])
        self.binary = rnd.random() < 0.5 if binary is None else binary
        self.axes, self.blocks, self.pd, self.cd, self.polygon = None, [], {}, {}, False

    def block(self, a, typ, per=None):
        a = np.asarray(a, dtype=TYPES[typ])
        if self.binary:
            return a.astype(a.dtype.newbyteorder('>')).tobytes() + b'\n'
        return ascii_(self.rnd, a, per)

    def build(self):
        rnd = self.rnd
        S = '# vtk DataFile Version {}\n'.format(rnd.choice(['3.0', '4.2', '2.0'])).encode()
        S += rnd.choice([b'Low resolution, disturbed wind of XY Slice at time = 0 seconds.', b'title', b'x', b'DATASET BINARY POINTS 3']) + b'\n'
        S += rnd.choice([b'BINARY', b'BINARY', b'Binary'] if self.binary else [b'ASCII', b'ASCII', b'ascii ']) + b'\n'
        if rnd.random() < 0.3:
            S += b'\n'
        S += self.w('DATASET').encode() + b' ' + self.w(self.kind).encode() + b'\n'
        if rnd.random() < 0.1:
            S += self.w('FIELD').encode() + b' FieldData 1\nTIME 1 1 double\n' + self.block([rnd.uniform(0, 9)], 'double')
        S += getattr(self, 'build_' + self.kind.lower())()
        secs = []
        if rnd.random() < 0.8:
            secs.append(('POINT_DATA', self.np, self.pd))
        if rnd.random() < 0.5:
            secs.append(('CELL_DATA', self.nc, self.cd))
        if rnd.random() < 0.3:
            secs.reverse()
        for n, k, d in secs:
            S += '{}{}\n'.format(rnd.choice([self.w(n), n + '    ']), ' ' + str(k)).encode() + self.data(k, d)
        if not secs and self.binary and self.kind == 'UNSTRUCTURED_GRID' and rnd.random() < 0.5:
            S = S[:-1]       # no line end after the last block
        if not self.binary and rnd.random() < 0.15:
            S = S.replace(b'\n', b'\r\n')
        return S

    def w(self, s):
        """keywords may be in any case"""
        r = self.rnd.random()
        return s.lower() if r < 0.06 else s.capitalize() if r < 0.1 else s

    def meta(self):
        return b'' if self.rnd.random() < 0.85 else b'METADATA\nINFORMATION 1\nNAME L2_NORM_RANGE LOCATION vtkDataArray\nDATA 2 0 1\n\n'

    def gap(self):
        return self.rnd.choice([b'', b'', b'\n', b'\n  \n'])

    def dims(self):
        rnd = self.rnd
        while True:
            d = [rnd.choice([1, 1, 2, 3, 4, 7]) for _ in range(3)]
            if max(d) > 1:
                return d

    def grid(self, axes):
        self.axes = axes
        nx, ny, nz = [len(a) for a in axes]
        self.np = nx * ny * nz
        self.points = np.array([[axes[0][i], axes[1][j], axes[2][k]] for k in range(nz) for j in range(ny) for i in range(nx)], dtype=float)
        self.cells_grid((nx, ny, nz))

    def cells_grid(self, n):
        """corners of the cells: sets of indices, x fastest"""
        r = [range(max(k - 1, 1)) for k in n]
        c = []
        for k in r[2]:
            for j in r[1]:
                for i in r[0]:
                    c.append(frozenset((i + a) + n[0] * ((j + b) + n[1] * (k + g)) for a in ((0, 1) if n[0] > 1 else (0,)) for b in ((0, 1) if n[1] > 1 else (0,)) for g in ((0, 1) if n[2] > 1 else (0,))))
        self.corners = c
        self.nc = len(c)

    def build_structured_points(self):
        rnd = self.rnd
        d = self.dims()
        o = [rnd.choice([0.0, 5.0, -20.0, round(rnd.uniform(-500, 500), 3)]) for _ in range(3)]
        s = [rnd.choice([1.0, 10.0, 0.5, round(rnd.uniform(0.01, 50), 3)]) for _ in range(3)]
        self.grid([np.array([o[i] + j * s[i] for j in range(d[i])]) for i in range(3)])
        L = ['DIMENSIONS   {}  {} {}\n'.format(*d), 'ORIGIN {} {}   {}\n'.format(*o), '{} {} {} {}\n'.format(rnd.choice(['SPACING', 'SPACING', 'ASPECT_RATIO']), *s)]
        if rnd.random() < 0.3:
            rnd.shuffle(L)
        return ''.join(L).encode()

    def build_rectilinear_grid(self):
        rnd = self.rnd
        d = self.dims()
        typ = rnd.choice(['float', 'double'])
        ax = [np.cumsum(np.array([rnd.uniform(0.1, 30) for _ in range(n)])).astype(TYPES[typ]) for n in d]
        self.grid(ax)
        S = 'DIMENSIONS {} {} {}\n'.format(*d).encode()
        for i, c in enumerate('XYZ'):
            S += '{} {} {}\n'.format(self.w(c + '_COORDINATES'), d[i], self.w(typ)).encode() + self.block(ax[i], typ)
        return S

    def pts(self, n):
        rnd = self.rnd
        typ = rnd.choice(['float', 'double'])
        p = values(rnd, typ, 3 * n).reshape(n, 3)
        self.np, self.points = n, p
        return '{} {} {}\n'.format(self.w('POINTS'), n, self.w(typ)).encode() + self.block(p, typ) + self.meta()

    def build_structured_grid(self):
        d = self.dims()
        S = 'DIMENSIONS {} {} {}\n'.format(*d).encode() + self.pts(d[0] * d[1] * d[2])
        self.cells_grid(d)
        return S

    def build_unstructured_grid(self):
        rnd = self.rnd
        n = rnd.randint(1, 30)
        S = self.pts(n)
        self.polygon = rnd.random() < 0.2
        types = rnd.sample(sorted(CELLS), rnd.randint(1, 4))
        C = []
        for _ in range(rnd.randint(1, 6)):
            t = 7 if self.polygon and rnd.random() < 0.5 else rnd.choice(types)
            for _ in range(rnd.choice([1, 1, 3, 10])):
                k = rnd.choice([3, 5, 6]) if t == 7 else CELLS[t][1]
                C.append((t, [rnd.randrange(n) for _ in range(k)]))
        if self.polygon and not any(t == 7 for t, _ in C):
            C.append((7, [rnd.randrange(n) for _ in range(5)]))
        self.C, self.nc = C, len(C)
        if rnd.random() < 0.3:
            it = rnd.choice(['vtktypeint64', 'vtktypeint32'])
            off = np.cumsum([0] + [len(c) for _, c in C])
            con = np.concatenate([c for _, c in C])
            TYPES2 = {'vtktypeint64': 'long', 'vtktypeint32': 'int'}[it]
            S += 'CELLS {} {}\nOFFSETS {}\n'.format(len(off), len(con), it).encode() + self.block(off, TYPES2)
            S += 'CONNECTIVITY {}\n'.format(it).encode() + self.block(con, TYPES2)
            self.offsets = True
        else:
            flat = [v for t, c in C for v in [len(c)] + c]
            if self.binary:
                b = self.block(flat, 'int')
            else:
                b = ''.join(' '.join(map(str, [len(c)] + c)) + '\n' for _, c in C).encode()
            S += '{} {} {}\n'.format(self.w('CELLS'), len(C), len(flat)).encode() + b
        S += self.gap() + self.w('CELL_TYPES').encode() + ' {}\n'.format(len(C)).encode() + self.block([t for t, _ in C], 'int')
        return S

    def name(self, d):
        while True:
            n = self.rnd.choice(['DisXY', 'Velocity', 'u', 'Gamma', 'p', 'Vel_' + str(self.rnd.randint(0, 99)), 'a-b', '1'])
            if n not in self.pd and n not in self.cd:
                return n

    def data(self, n, d):
        rnd = self.rnd
        S = b''
        for _ in range(rnd.randint(1, 4)):
            k = rnd.choice(['SCALARS', 'SCALARS', 'VECTORS', 'VECTORS', 'TENSORS', 'FIELD', 'COLOR_SCALARS'])
            typ = rnd.choice(['float', 'double', 'float', 'double', 'int', 'unsigned_char', 'short', 'long'])
            S += self.gap()
            if k == 'SCALARS':
                nm, c = self.name(d), rnd.choice([1, 1, 1, 2, 3, 4])
                v = values(rnd, typ, n * c).reshape(n, c)
                tab = rnd.choice(['default', 'default', 'default', 'mytab'])
                S += '{} {} {}{}\n{} {}\n'.format(self.w('SCALARS'), nm, self.w(typ), ' {}'.format(c) if c > 1 or rnd.random() < 0.5 else '', self.w('LOOKUP_TABLE'), tab).encode() + self.block(v, typ)
                if tab != 'default':
                    m = rnd.choice([2, 8])
                    S += 'LOOKUP_TABLE {} {}\n'.format(tab, m).encode()
                    if self.binary:
                        S += bytes(rnd.randrange(256) for _ in range(4 * m)) + b'\n'
                    else:
                        S += b''.join(b'%.3f %.3f %.3f 1\n' % (rnd.random(), rnd.random(), rnd.random()) for _ in range(m))
                d[nm] = v
            elif k == 'COLOR_SCALARS':
                c = rnd.choice([1, 3])
                S += 'COLOR_SCALARS col {}\n'.format(c).encode()
                if self.binary:
                    S += bytes(rnd.randrange(256) for _ in range(n * c)) + b'\n'
                else:
                    S += ascii_(rnd, np.array([rnd.random() for _ in range(n * c)]))
            elif k == 'FIELD':
                m = rnd.randint(1, 3)
                S += 'FIELD FieldData {}\n'.format(m).encode()
                for _ in range(m):
                    nm, c = self.name(d), rnd.choice([1, 1, 2, 3, 6])
                    v = values(rnd, typ, n * c).reshape(n, c)
                    S += '{} {} {} {}\n'.format(nm, c, n, self.w(typ)).encode() + self.block(v, typ) + (self.meta() if _ < m - 1 else b'')
                    d[nm] = v
            else:
                nm, sh = self.name(d), (3,) if k == 'VECTORS' else (3, 3)
                v = values(rnd, typ, n * int(np.prod(sh))).reshape((n,) + sh)
                S += '{} {} {}\n'.format(self.w(k), nm, self.w(typ)).encode() + self.block(v, typ) + self.meta()
                d[nm] = v
        return S
