"""HAWC2 control files: random trees of sections and commands, rendered in random style."""
from .util import names as mknames

WORDS = ['alpha', 'turbine', 'note', 'deg', '[m]', '0=none,', '1=constant', '(newmark)', 'x,y', 'tower-top']
COMMANDS = ['density', 'wsp', 'tint', 'horizontal_input', 'windfield_rotations', 'center_pos0', 'shear_format', 'nbodies', 'node_distribution', 'damping_posdef',
            'concentrated_mass', 'mbdy1', 'rel_vel', 'Uppercase_Cmd', 'a-ct-filename', 'gravity', 'iterations', 'log_deltat', 'box_dim_u', 'DLL', 'pitch1', 'x']
SECTIONS = ['wind', 'mann', 'aero_extra', 'orientation', 'relative', 'base', 'constraint', 'fix0', 'bearing1', 'hydro', 'water_properties', 'dynstall_mhh', 'init', 'type2_dll', 'actions', 'soil', 'MixedCase']


class Sec:
    def __init__(self, name, items=None):
        self.name, self.items = name, items if items is not None else []
        self.bc, self.ec = '', ''
        self.extra = None      # output_at_time: (type, time)
        self.kind = 'sec'

    def tree(self):
        return ('sec', self.name.lower() if self.extra is None else 'output_at_time', self.extra, [x.tree() for x in self.items])


class Line:
    kind = 'line'

    def __init__(self, name, values, comment=''):
        self.name, self.values, self.comment = name, values, comment

    def tree(self):
        return ('line', self.name, list(self.values))


class Sensor:
    kind = 'sensor'

    def __init__(self, type, sensor, values, comment=''):
        self.type, self.sensor, self.values, self.comment = type, sensor, values, comment

    def tree(self):
        return ('sensor', self.type, self.sensor, list(self.values))


class Gen:
    def __init__(self, case):
        self.case, self.rnd = case, case.rnd
        self.ncom = 0
        self.comments = []

    def comment(self, p=0.4, multi=False):
        if self.rnd.random() > p:
            return ''
        self.ncom += 1
        tok = 'com{}q'.format(self.ncom)
        self.comments.append(tok)
        return ' '.join([tok] + [self.rnd.choice(WORDS) for _ in range(self.rnd.randint(0, 4))])

    def value(self, kinds=('int', 'float', 'exp', 'str', 'path', 'intf')):
        """(text, value)"""
        rnd = self.rnd
        k = rnd.choice(kinds)
        if k == 'int':
            v = rnd.randint(-10 ** rnd.randint(1, 9), 10 ** rnd.randint(1, 9))
            return str(v), v
        if k == 'intf':
            v = rnd.randint(-1000, 1000)
            return rnd.choice(['{}.0', '{}.', '{}.000']).format(v), v
        if k == 'float':
            t = repr(round(rnd.uniform(-100, 100), rnd.randint(1, 12)))
            return t, float(t)
        if k == 'exp':
            t = rnd.choice(['%.3e', '%.10E', '%.15e']) % (rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-20, 12))
            f = float(t)
            return t, int(f) if f == int(f) else f
        if k == 'path':
            parts = mknames(rnd, rnd.randint(1, 3), 6)
            sep = rnd.choice(['/', '\\'])
            t = '.' + sep + sep.join(parts) + rnd.choice(['.dat', '.htc', ''])
            return t, t.replace('\\', '/')
        t = mknames(rnd, 1, 8)[0]
        if rnd.random() < 0.2:
            t = rnd.choice(['inf', '-inf', 'Infinity', 'nan', 'NaN', '1e400', '-1E+999', '2020_11', '1_2', '_3', '4_', '1d0', '1.5D-3', '0x10', '1e', 'e5', '1,5', '--2', '+', '1.2.3', '50%', '%s', '{}', "'a'", '"b"', '/', '1/2', '#', 'True', 'None', 'begin', 'end', 'exit'])
        return t, t

    def line(self, pool=COMMANDS, nv=None):
        rnd = self.rnd
        n = rnd.choice(pool)
        vs = [self.value() for _ in range(rnd.choice([0, 1, 1, 1, 2, 3, 6]) if nv is None else nv)]
        L = Line(n, [v for _, v in vs], self.comment())
        L.text = [t for t, _ in vs]
        return L

    def section(self, depth, names=SECTIONS):
        rnd = self.rnd
        s = Sec(rnd.choice(names))
        for _ in range(rnd.choice([0, 1, 2, 3, 5, 8])):
            if depth > 0 and rnd.random() < 0.3:
                s.items.append(self.section(depth - 1))
            else:
                s.items.append(self.line())
        s.bc, s.ec = self.comment(0.2), self.comment(0.2)
        return s

    def body(self, i, st=None):
        rnd = self.rnd
        s = Sec('main_body')
        nm = Line('name', ['body{}'.format(i)], self.comment())
        nm.text = [nm.values[0]]
        s.items.append(nm)
        for _ in range(rnd.randint(0, 2)):
            s.items.append(self.line())
        if st:
            ti = Sec('timoschenko_input')
            a = Line('filename', [st[0]], self.comment())
            a.text = [st[0]]
            ti.items.append(a)
            if st[1]:
                b = Line('set', list(st[1]), self.comment())
                b.text = [str(x) for x in st[1]]
                ti.items.append(b)
            s.items.append(ti)
        if rnd.random() < 0.8:
            c2 = Sec('c2_def')
            n = rnd.randint(1, 12)
            a = Line('nsec', [n], self.comment())
            a.text = [str(n)]
            c2.items.append(a)
            for k in range(n):
                vs = [(str(k + 1), k + 1)] + [self.value(('int', 'float', 'exp', 'intf')) for _ in range(4)]
                L = Line('sec', [v for _, v in vs], self.comment(0.2))
                L.text = [t for t, _ in vs]
                c2.items.append(L)
            s.items.append(c2)
            s.c2 = c2
        s.bc = self.comment(0.3)
        return s

    def output(self, at=False):
        rnd = self.rnd
        s = Sec('output')
        if at:
            t = rnd.choice([15.0, 0.5, 100.0])
            s.extra = (rnd.choice(['aero', 'struct']), t)
            s.name = 'output_at_time {} {}'.format(s.extra[0], t)
        head = []
        f = Line('filename', ['./res/out'], self.comment())
        f.text = ['./res/out']
        head.append(f)
        if not at:
            for n, v in (('data_format', ['hawc_binary']), ('buffer', [1]), ('time', [0, 600.5])):
                if rnd.random() < 0.5:
                    L = Line(n, v, self.comment())
                    L.text = [str(x) for x in v]
                    head.append(L)
        s.items += head
        for _ in range(rnd.choice([0, 1, 3, 10])):
            vs = [self.value(('int', 'float', 'str', 'intf')) for _ in range(rnd.choice([0, 1, 2, 4]))]
            S = Sensor(rnd.choice(['mbdy', 'general', 'aero', 'wind', 'DLL', 'constraint']), rnd.choice(['momentvec', 'time', 'omega', 'free_wind', 'bearing1', 'inpvec']), [v for _, v in vs], self.comment())
            S.text = [t for t, _ in vs]
            s.items.append(S)
        s.bc, s.ec = self.comment(0.4), self.comment(0.3)
        return s

    # ------------------------------------------------------------------------------------------------- text
    def semi(self, c):
        rnd = self.rnd
        return rnd.choice([';', ' ;', '\t;']) + ((rnd.choice([' ', '\t', '']) + c) if c else rnd.choice(['', '', ' ']))

    def free(self, out, ind):
        """blank lines and comment lines between entries"""
        rnd = self.rnd
        for _ in range(rnd.choice([0, 0, 0, 0, 1, 2])):
            k = rnd.choice(['blank', 'blank', 'semi', 'com'])
            if k == 'blank':
                out.append(rnd.choice(['', '   ']))
            elif k == 'semi':
                out.append(ind + ';')
            else:
                out.append(ind + ';' + self.comment(1.0))

    def render(self, items, level=0, out=None):
        rnd = self.rnd
        out = [] if out is None else out
        ind = rnd.choice(['  ', '\t', ' ']) * level
        for x in items:
            if self.style_free:
                self.free(out, ind)
            if x.kind == 'sec':
                out.append(ind + rnd.choice(['begin ', 'begin ', 'BEGIN ', 'Begin ', 'begin  ', 'begin\t']) + x.name + self.semi(x.bc))
                self.render(x.items, level + 1, out)
                if self.style_free:
                    self.free(out, ind)
                out.append(ind + rnd.choice(['end ', 'end ', 'END ', 'end\t', 'End  ']) + x.name.split()[0] + self.semi(x.ec))
            elif x.kind == 'line':
                out.append(ind + rnd.choice([' ', '\t', '   ']).join([x.name] + x.text) + self.semi(x.comment))
            else:
                out.append(ind + rnd.choice([' ', '  ']).join([x.type, x.sensor] + x.text) + self.semi(x.comment))
        return out
