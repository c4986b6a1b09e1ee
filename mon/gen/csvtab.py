"""Delimited text tables of many dialects, with the table they denote."""
import numpy as np
from .util import names as mknames, logint

UN = ['(s)', '(m)', '[m/s]', '[deg]', '(-)', '[kN-m]', '(N/m)', '[%]']
NONASCII = 'éüØα°µλ²ñ'
WORDS = ['wind', 'turbine', 'case', 'run', 'file', 'made', 'by', 'a', 'tool', 'version', '2.3', 'on', 'Monday', 'deg', 'test', '1', 'speed:', '10', 'm/s']


def number(rnd, rng, kind):
    v = float(rng.normal() * 10.0 ** rnd.randint(-8, 8)) if kind != 'int' else None
    if kind == 'int':
        return str(int(rng.integers(-10 ** rnd.randint(1, 15), 10 ** rnd.randint(1, 15))))
    if kind == 'digit':
        return str(rnd.randrange(10))
    if kind == 'repr':
        return repr(v)
    if kind == 'f3':
        return '%.3f' % (v % 1e6)
    if kind == 'e':
        return '%.6e' % v
    if kind == 'E':
        return '%+.12E' % v
    if kind == 'mix':
        return rnd.choice(['0', '1', '-1', '.5', '5.', '+2.25', '-0.0', '1e3', '1E-3', '-1.5e+02', '0.1', '100000'])
    return '%g' % v


class Tab:
    pass


def gen_table(case, seps=None, big=False, named=None, text=None, minrows=1, missing=None, numnames=False):
    rnd, rng = case.rnd, case.rng
    T = Tab()
    T.sep = rnd.choice(seps or [',', ',', ';', '\t', ' ', ' '])
    T.ncol = rnd.choice([1, 2, 2, 3]) if rnd.random() < 0.35 else logint(rnd, 1, 25)
    if T.ncol == 1:
        T.sep = ' '
    T.nrow = logint(rnd, minrows, 20000 if big else 120)
    T.named = (rnd.random() < 0.75) if named is None else named
    T.uni = T.named and rnd.random() < 0.25
    spaces = T.named and T.ncol > 1 and T.sep in ',;\t' and rnd.random() < 0.3
    T.kinds = []
    for j in range(T.ncol):
        T.kinds.append(rnd.choice(['int', 'repr', 'f3', 'e', 'E', 'mix', 'g'] if T.ncol > 1 or rnd.random() < 0.6 else ['digit']))
    if (text if text is not None else rnd.random() < 0.2) and T.named and T.ncol > 1:
        T.kinds[rnd.randrange(T.ncol)] = 'text'
        if rnd.random() < 0.3:
            T.kinds[rnd.randrange(T.ncol)] = 'text'
    T.missing = T.ncol > 1 and rnd.random() < 0.2 and missing is not False
    cells, cols = [], []
    for j, k in enumerate(T.kinds):
        if k == 'text':
            pool = mknames(rnd, 6, 8, 2) + (['two words', 'x y z'] if T.sep in ',;' else []) + rnd.choice([[], ['1_000', '10_5'], ['2020-01-01', '12:30'], ['0x1F', '1.2.3', 'T1']])
            if T.sep == ',':
                pool += ['a;b', 'p:q;r']
            c = [rnd.choice(pool) for _ in range(T.nrow)]
            v = np.array(c, dtype=object)
        else:
            c = [number(rnd, rng, k) for _ in range(T.nrow)]
            v = np.array([float(x) for x in c])
        if T.missing and rnd.random() < 0.5:
            for i in range(T.nrow):
                if rnd.random() < 0.25 and (i > 0 or T.named):
                    v[i] = np.nan
                    c[i] = 'NaN' if T.sep in ' \t' else rnd.choice(['', '', 'NaN', 'nan'])
        cells.append(c)
        cols.append(v)
    # a line with nothing in it is not a row
    for i in range(T.nrow):
        if all(c[i] == '' for c in cells):
            j = next((j for j, k in enumerate(T.kinds) if k != 'text'), 0)
            cells[j][i] = '7'
            cols[j][i] = 7.0 if T.kinds[j] != 'text' else '7'
    if T.kinds.count('text') == T.ncol:
        # a table without numbers: keep one numeric column
        j = rnd.randrange(T.ncol)
        cells[j] = [str(i) for i in range(T.nrow)]
        cols[j] = np.arange(T.nrow, dtype=float)
        T.kinds[j] = 'int'
    T.cells, T.cols = cells, cols
    chars = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-/' + (NONASCII * 2 if T.uni else '')
    if T.named:
        nm = mknames(rnd, T.ncol, rnd.choice([4, 12, 30]), 1, chars=chars)
        if spaces:
            nm = [n + rnd.choice([' speed', ' x', '', '']) for n in nm]
        if rnd.random() < 0.4:
            nm = [n + '_' + rnd.choice(UN) for n in nm]
        if rnd.random() < 0.2:
            # names that contain a character which separates the fields of other dialects
            foreign = {',': ';', ';': ',', '\t': ',;', ' ': ',;'}[T.sep]
            nm = [n[:1] + rnd.choice(foreign) + n[1:] + 'f' if rnd.random() < 0.4 else n for n in nm]
        if numnames and T.ncol > 2 and rnd.random() < 0.2:
            # some of the names are numbers (wind speeds, radial stations, ...)
            for j in rnd.sample(range(1, T.ncol), rnd.randint(1, T.ncol // 2)):
                nm[j] = rnd.choice(['{}', '{}.5', '-{}', '{}e1']).format(j + 3)
        T.names = nm
    else:
        T.names = ['C{}'.format(j) for j in range(T.ncol)]
    return T


def fields(line, sep):
    return line.split() if sep == ' ' else [x.strip() for x in line.strip().split(sep)]


def render(case, T, comments=None, units=None):
    """text of the file; sets T.where ('line','header',None), T.comment, T.header, T.full (expected names)"""
    rnd = case.rnd
    L = []
    T.header = []
    T.comment = None
    chars = ['#', '!'] + ([';'] if T.sep not in ';' and T.sep != ' ' and 'text' not in T.kinds else [])
    if (rnd.random() < 0.4) if comments is None else comments:
        T.comment = rnd.choice(chars)
    T.where = 'line' if T.named else None
    if T.comment and T.named and 'text' not in T.kinds and not T.missing and rnd.random() < 0.35:
        T.where = 'header'
    if T.comment:
        n = rnd.choice([1, 1, 2, 3, 12, 12, rnd.randint(13, 160)] if T.nrow < 10000 else [150])
        for _ in range(n):
            while True:
                s = ' ' + ' '.join(rnd.choice(WORDS) for _ in range(rnd.randint(1, 9)))
                if (T.ncol == 1 or len(fields(s, T.sep)) != T.ncol) and len(s.split()) != T.ncol:
                    break
            T.header.append(T.comment + s)
    pad = rnd.random() < 0.3 and 'text' not in T.kinds and not (T.missing and T.sep in ',;')
    tabpad = rnd.random() < 0.3
    j = {',': lambda: ', ' if pad else ',', ';': lambda: ' ; ' if pad else ';', '\t': lambda: rnd.choice(['\t', ' \t', '\t ', '  \t  ']) if tabpad else '\t', ' ': lambda: ' ' * rnd.choice([1, 1, 2, 5])}[T.sep]
    def line(cells):
        out = cells[0]
        for c in cells[1:]:
            out += j() + c
        if T.sep == ' ' and pad:
            out = '   ' + out + ' ' * rnd.choice([0, 0, 3])
        return out
    T.full = list(T.names)
    if T.where == 'header':
        k = rnd.choice([0, len(T.header)])
        T.header.insert(k, T.comment + rnd.choice(['', ' ']) + line(T.names).strip())
    L += T.header
    T.units = False
    if T.where == 'line':
        L.append(line(T.names))
        if (rnd.random() < 0.25) if units is None else units:
            T.units = True
            us = [rnd.choice(UN) for _ in T.names]
            if rnd.random() < 0.25:
                for i in rnd.sample(range(T.ncol), rnd.randint(0, (T.ncol - 1) // 2)):
                    us[i] = rnd.choice(['-', 'm', 'deg', 'kN'])    # most units are within parentheses
            L.append(line(us))
            T.full = [a + '_' + b for a, b in zip(T.names, us)]
    T.nhead = len(L)
    for i in range(T.nrow):
        s = line([c[i] for c in T.cells])
        if T.comment and i > 1 and rnd.random() < 0.05:
            L.append(T.comment + ' in between')
        L.append(s)
    T.eol = rnd.choice(['\n', '\n', '\r\n'])
    txt = T.eol.join(L) + rnd.choice([T.eol, T.eol, '', T.eol * 3])
    T.pad = pad
    return txt


def encode(case, T, txt):
    rnd = case.rnd
    e = rnd.choice(['utf-8', 'utf-8', 'utf-8', 'utf-8-sig', 'utf-16'])
    T.encoding = e
    return txt.encode(e)


def judge(case, df, T, names, tag='', rtol=1e-11):
    cols = [str(c) for c in df.columns]
    if not case.check(cols == list(names), tag + 'names', 'columns {!r:.300} expected {!r:.300}'.format(cols, names)):
        return False
    if not case.check(df.shape == (T.nrow, T.ncol), tag + 'shape', 'shape {} expected {}'.format(df.shape, (T.nrow, T.ncol))):
        return False
    for j, k in enumerate(T.kinds):
        got = df.iloc[:, j].values
        if k == 'text':
            bad = [i for i in range(T.nrow) if not (got[i] == T.cols[j][i] or (got[i] != got[i] and T.cols[j][i] != T.cols[j][i]))]
            case.check(not bad, tag + 'text', lambda: 'column {} row {}: {!r} expected {!r}'.format(j, bad[0], got[bad[0]], T.cols[j][bad[0]]))
        else:
            try:
                g = np.asarray(got, dtype=float)
            except (ValueError, TypeError):
                case.check(False, tag + 'values', 'column {} ({}) is not numeric: {!r:.200}'.format(j, names[j], got))
                continue
            e = T.cols[j]
            ok = (g == e) | (np.isnan(g) & np.isnan(e)) | (np.abs(g - e) <= rtol * np.abs(e))
            case.check(ok.all(), tag + 'values', lambda: 'column {} row {}: {!r} expected {!r} ({!r})'.format(j, np.where(~ok)[0][0], g[~ok][0], e[~ok][0], T.cells[j][np.where(~ok)[0][0]] if T.cells else ''))
    return True
