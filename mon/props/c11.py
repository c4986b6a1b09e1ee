"""C11: delimited text tables written by the library read back the same."""
import numpy as np
import pandas as pd
from ..core import Workload, Raised
from ..compare import freeze, same
from ..gen import csvtab as G

TECHNIQUE = 'runtime monitoring: read/build, edit, write, re-read histories of delimited tables compared with an independent model of the table and an independent parse of the written file'
RULE = ("A table is obtained by reading a generated file of a random dialect, or built from a data frame, edited (values, rows, columns, names), written 1-3 times and read back; the file is also parsed independently. "
        "Distinct by (origin, separator, names position, comments, edits, size class).")
ASSUME = ['As C10; comment lines kept with a table built in memory contain no column names.']


def frame_of(T):
    d = pd.DataFrame({i: T.cols[i] for i in range(T.ncol)})
    d.columns = T.full
    return d


def edit(case, f, T, names_free):
    """apply the same edit to the library's table and to the model"""
    rnd, rng = case.rnd, case.rng
    ops = []
    for _ in range(rnd.choice([0, 0, 1, 2, 3])):
        op = rnd.choice(['value', 'scale', 'droprow', 'addrow'] + (['rename', 'addcol', 'dropcol'] if names_free else []))
        num = [j for j, k in enumerate(T.kinds) if k != 'text']
        if op == 'value' and num:
            i, j = rnd.randrange(T.nrow), rnd.choice(num)
            v = float(rng.normal())
            c = f.data.columns[j]
            col = f.data[c].astype(float).copy()
            col.iloc[i] = v
            f.data[c] = col
            T.cols[j] = T.cols[j].copy()
            T.cols[j][i] = v
        elif op == 'scale' and num:
            j = rnd.choice(num)
            c = f.data.columns[j]
            f.data[c] = f.data[c] * 0.1
            T.cols[j] = np.asarray(f.data[c], dtype=float).copy()
        elif op == 'droprow' and T.nrow > 1:
            i = rnd.randrange(T.nrow)
            f.data = f.data[np.arange(T.nrow) != i]
            T.cols = [np.delete(c, i) for c in T.cols]
            T.nrow -= 1
        elif op == 'addrow':
            f.data = pd.concat([f.data, f.data.iloc[[0]]])
            T.cols = [np.concatenate([c, c[:1]]) for c in T.cols]
            T.nrow += 1
        elif op == 'rename':
            j = rnd.randrange(T.ncol)
            n = 'renamed{}_[m]'.format(rnd.randrange(1000))
            if n not in T.full:
                T.full[j] = n
                f.data.columns = T.full
        elif op == 'addcol':
            n = 'added{}'.format(rnd.randrange(1000))
            if n not in T.full:
                v = rng.normal(size=T.nrow)
                f.data = f.data.assign(**{n: v})
                T.full = T.full + [n]
                T.cols = T.cols + [v]
                T.kinds = T.kinds + ['repr']
                T.ncol += 1
        elif op == 'dropcol' and T.ncol > 2:
            j = rnd.randrange(T.ncol)
            if T.kinds[j] == 'text' or T.kinds.count('text') < T.ncol - 1:
                f.data = f.data.drop(columns=f.data.columns[j])
                del T.full[j], T.cols[j], T.kinds[j]
                T.ncol -= 1
        ops.append(op)
    # fully empty rows are not rows of a delimited file
    return ops


def allmissing(T):
    return any(all((T.cols[j][i] != T.cols[j][i]) for j in range(T.ncol)) for i in range(T.nrow))


def parse(path, T, sep, nskip):
    """independent parse of the written file -> list of rows (strings)"""
    import csv
    with open(path, encoding='utf-8', newline='') as fid:
        L = fid.read().split('\n')
    L = [l.rstrip('\r') for l in L]
    while L and L[-1] == '':
        L.pop()
    rows = list(csv.reader(L[nskip:], delimiter=sep))
    return L[:nskip], rows


def judge_file(case, path, T, sep, header, names_written):
    head, rows = parse(path, T, sep, len(header))
    case.check(head == header, 'file-header', '{!r:.300} expected {!r:.300}'.format(head, header))
    if names_written:
        if not case.check(len(rows) > 0 and rows[0] == T.full, 'file-names', '{!r:.300} expected {!r:.300}'.format(rows[:1], T.full)):
            return
        rows = rows[1:]
    if not case.check(len(rows) == T.nrow and all(len(r) == T.ncol for r in rows), 'file-shape', '{} rows expected {} x {}'.format(len(rows), T.nrow, T.ncol)):
        return
    for j, k in enumerate(T.kinds):
        for i in range(T.nrow):
            s, e = rows[i][j], T.cols[j][i]
            if e != e:
                ok = s.strip().lower() in ('', 'nan')
            elif k == 'text':
                ok = s == e
            else:
                try:
                    ok = float(s) == e
                except ValueError:
                    ok = False
            if not ok:
                case.check(False, 'file-values', 'row {} column {}: {!r} expected {!r}'.format(i, j, s, e))
                return
    case.check(True, 'file-values')


def inmemory(f, T):
    """from here on the numbers are the ones in memory: what is written must be exactly these"""
    for j, k in enumerate(T.kinds):
        if k != 'text':
            T.cols[j] = f.data.iloc[:, j].values.astype(float)


def cycles(case, f, T, header, names_written, kw=None):
    from weio.csv_file import CSVFile
    rnd = case.rnd
    for k in range(rnd.choice([1, 1, 2, 3])):
        p = case.path('out{}.csv'.format(k))
        before = freeze(f.data)
        case.call('write', f.write, p)
        d = same(before, freeze(f.data))
        case.check(d is None, 'memory-untouched', d)
        sep = {None: ',', '': '\t', r'\s+': '\t'}.get(f.sep, f.sep)
        judge_file(case, p, T, sep, header, names_written)
        f = case.call('re-read', CSVFile, p, **(kw or {}))
        if not G.judge(case, f.toDataFrame(), T, T.full, tag='reread-'):
            return
        inmemory(f, T)
        if not kw or 'commentLines' in kw:
            case.check(list(f.header) == header, 'reread-header', '{!r:.200} expected {!r:.200}'.format(f.header, header))


def w_read(case):
    from weio.csv_file import CSVFile
    T = G.gen_table(case, big=case.index % 40 == 0)
    txt = G.render(case, T)
    p = case.write('in.csv', txt.encode('utf-8'))
    f = case.call('read', CSVFile, p)
    T.cells = None
    if not G.judge(case, f.toDataFrame(), T, T.full, tag='first-'):
        return
    inmemory(f, T)
    ops = edit(case, f, T, names_free=T.where == 'line' or not T.header)
    if allmissing(T) or T.nrow == 0:
        return
    case.desc = dict(sep=T.sep, rows=T.nrow, cols=T.ncol, names=T.where, comment=T.comment, ops=ops)
    case.sig('read', T.sep, T.where, T.comment, tuple(sorted(set(ops))), min(T.ncol, 3), min(T.nrow, 3), T.missing)
    cycles(case, f, T, T.header, T.where == 'line' or not T.header)


def w_build(case):
    from weio.csv_file import CSVFile
    rnd = case.rnd
    T = G.gen_table(case, named=True)
    T.cells, T.comment, T.where = None, None, 'line'
    T.full = list(T.names)
    if T.sep == ' ' and rnd.random() < 0.5:
        pass
    f = CSVFile(**({} if T.sep == ',' and rnd.random() < 0.5 else dict(sep=T.sep if T.sep != ' ' or rnd.random() < 0.5 else '')))
    f.data = frame_of(T)
    ops = edit(case, f, T, names_free=True)
    if allmissing(T) or T.nrow == 0:
        return
    if T.sep == ' ' and T.ncol > 1 and any(' ' in n for n in T.full):
        return
    case.desc = dict(sep=T.sep, rows=T.nrow, cols=T.ncol, ops=ops)
    case.sig('build', T.sep, tuple(sorted(set(ops))), min(T.ncol, 3), min(T.nrow, 3), T.missing, tuple(sorted(set(T.kinds))))
    cycles(case, f, T, [], True)


def w_remarks(case):
    """comment lines at any place of the table, given by their line numbers"""
    from weio.csv_file import CSVFile
    rnd = case.rnd
    T = G.gen_table(case, named=True)
    txt = G.render(case, T, comments=False, units=False)
    L = txt.split(T.eol)
    at = sorted(rnd.sample(range(T.nrow + 4), rnd.randint(1, 3)))
    at = [a for k, a in enumerate(at) if a - k <= T.nrow + 1]
    for k, a in enumerate(at):
        L.insert(a, 'remark of the, author; number {}'.format(a))
    lead = 0
    while lead in at:
        lead += 1
    kw = dict(commentLines=rnd.sample(at, len(at)), colNamesLine=lead, sep=T.sep)
    p = case.write('in.csv', T.eol.join(L).encode('utf-8'))
    f = case.call('read', CSVFile, p, **kw)
    T.cells = None
    if not G.judge(case, f.toDataFrame(), T, T.full, tag='first-') or allmissing(T):
        return
    inmemory(f, T)
    case.desc = dict(sep=T.sep, rows=T.nrow, cols=T.ncol, at=at)
    case.sig('remarks', T.sep, len(at), lead, min(T.ncol, 3), min(T.nrow, 3))
    for k in range(2):
        q = case.path('out{}.csv'.format(k))
        case.call('write', f.write, q)
        with open(q, encoding='utf-8') as fid:
            W = fid.read().split('\n')
        case.check([W[a] for a in at if a < len(W)] == ['remark of the, author; number {}'.format(a) for a in at], 'remarks-in-place', lambda: '{!r:.300}'.format(W))
        f = case.call('re-read', CSVFile, q, **kw)
        if not G.judge(case, f.toDataFrame(), T, T.full, tag='reread-'):
            return
        case.check(list(f.header) == ['remark of the, author; number {}'.format(a) for a in at], 'reread-header', lambda: '{!r:.200}'.format(f.header))


def w_commentlines(case):
    """preamble without comment character, kept through explicit settings"""
    from weio.csv_file import CSVFile
    rnd = case.rnd
    T = G.gen_table(case, named=True)
    txt = G.render(case, T, comments=False, units=False)
    n = rnd.randint(1, 4)
    junk = ['preamble {} of, the; file {}'.format(i, 'x' * (i + 1)) for i in range(n)]
    kw = dict(commentLines=list(range(n)), colNamesLine=n)
    p = case.write('in.csv', (T.eol.join(junk) + T.eol + txt).encode('utf-8'))
    f = case.call('read', CSVFile, p, **kw)
    T.cells = None
    if not G.judge(case, f.toDataFrame(), T, T.full, tag='first-'):
        return
    inmemory(f, T)
    ops = edit(case, f, T, names_free=True)
    if allmissing(T) or T.nrow == 0:
        return
    case.desc = dict(sep=T.sep, rows=T.nrow, cols=T.ncol, ops=ops, preamble=n)
    case.sig('pre', T.sep, tuple(sorted(set(ops))), min(T.ncol, 3), min(T.nrow, 3), n)
    cycles(case, f, T, junk, True, kw)


def w_hidden(case):
    """column names which are part of the comment lines: kept there when saving"""
    from weio.csv_file import CSVFile
    rnd = case.rnd
    T = G.gen_table(case, named=True, missing=False, text=False)
    L = G.render(case, T, comments=False, units=False).split(T.eol)
    if rnd.random() < 0.5:
        c = rnd.choice(['%', '#', '$'])
        head = [c + ' remark {}, of; it'.format(i) for i in range(rnd.randint(0, 3))] + [c + rnd.choice(['', ' ']) + L[0].strip()]
        kw = dict(commentChar=c, colNamesLine=-1)
    else:
        head = ['remark {} of the, author; x'.format(i) for i in range(rnd.randint(1, 3))]
        k = rnd.randrange(len(head) + 1)
        head.insert(k, L[0].strip())
        kw = dict(commentLines=rnd.sample(range(len(head)), len(head)), colNamesLine=k)
    if rnd.random() < 0.3 or T.nrow < 2:
        kw['sep'] = T.sep
    p = case.write('in.csv', T.eol.join(head + L[1:]).encode('utf-8'))
    f = case.call('read', CSVFile, p, **kw)
    T.cells = None
    if not G.judge(case, f.toDataFrame(), T, T.full, tag='first-'):
        return
    inmemory(f, T)
    case.desc = dict(sep=T.sep, rows=T.nrow, cols=T.ncol, kw=str(kw))
    case.sig('hidden', T.sep, sorted(kw), min(T.ncol, 3), min(T.nrow, 3), len(head))
    cycles(case, f, T, head, False, kw)


WORKLOADS = [
    Workload('read', w_read, quick=2000, thorough=12000),
    Workload('build', w_build, quick=1000, thorough=8000),
    Workload('remarks', w_remarks, quick=300, thorough=4000),
    Workload('commentlines', w_commentlines, quick=400, thorough=4000),
    Workload('hidden', w_hidden, quick=400, thorough=4000),
]
