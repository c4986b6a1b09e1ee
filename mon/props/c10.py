"""C10: delimited text tables are read completely, whatever the dialect."""
import numpy as np
from ..core import Workload, Raised
from ..compare import freeze, same
from ..gen import csvtab as G

TECHNIQUE = 'runtime monitoring: reader driven with generated delimited tables of many dialects, results compared with the generated table by an independent oracle'
RULE = ("Tables (1-25 columns, 1-20000 rows, numbers in many spellings, words, missing values) are rendered in a random dialect (separator, comments, names line or names in the comments, unit line, "
        "padding, line ends, encoding, final newline) and read with automatic or explicit settings; distinct by (dialect, size).")
ASSUME = ['Column names are not numbers and words contain no separator; blank- or tab-separated fields contain no blanks and spell missing values out; comment lines do not have as many fields as the table.']


def sig(case, T):
    case.desc = dict(sep=T.sep, rows=T.nrow, cols=T.ncol, names=T.where, comment=T.comment, units=T.units, eol=T.eol, enc=T.encoding, pad=T.pad, missing=T.missing, kinds=sorted(set(T.kinds)))
    case.sig(T.sep, T.where, T.comment, T.units, T.eol, T.encoding, T.pad, T.missing, min(T.ncol, 4), min(T.nrow, 3), 'text' in T.kinds)


def w_auto(case):
    import weio
    from weio.csv_file import CSVFile
    T = G.gen_table(case, big=case.index % 25 == 0, numnames=True)
    if T.named and T.sep == ',' and T.ncol > 2 and case.rnd.random() < 0.06:
        T.names[0] = ''                              # table saved with its row labels: the first name is empty
    b = G.encode(case, T, G.render(case, T))
    ext = case.rnd.choice(['.csv', '.csv', '.txt', '.CSV'])
    p = case.write('tab' + ext, b)
    sig(case, T)
    if ext != '.txt' and case.index % 3 == 0:
        f = case.call('weio.read', weio.read, p)
        case.check(type(f).__name__ == 'CSVFile', 'detected', type(f).__name__)
    else:
        f = case.call('CSVFile', CSVFile, p)
    G.judge(case, case.call('toDataFrame', f.toDataFrame), T, T.full)
    case.check(open(p, 'rb').read() == b, 'source-untouched', 'file changed')


def w_explicit(case):
    """settings given explicitly are obeyed"""
    from weio.csv_file import CSVFile
    rnd = case.rnd
    kind = case.index % 7
    T = G.gen_table(case, named=True if kind in (1, 2, 3) else None, missing=False if kind in (1, 3) else None, text=False if kind in (1, 3) else None)
    kw = {}
    if kind == 0:                                    # separator given
        txt = G.render(case, T)
        kw['sep'] = T.sep if T.sep != ' ' else rnd.choice([' ', '', r'\s+'])
        names = T.full
    elif kind == 1:                                  # names given for a table without names
        txt = G.render(case, T, comments=rnd.random() < 0.5, units=False)
        L = txt.split(T.eol)
        if T.where == 'line':
            del L[T.nhead - 1]
        elif T.where == 'header':
            L = [l for l in L]
        txt = T.eol.join(L)
        names = ['N{}_x'.format(i) for i in range(T.ncol)]
        kw['colNames'] = list(names)
        if T.nrow < 2 and T.sep in ',;':
            kw['sep'] = T.sep
    elif kind == 2:                                  # names line and comment lines given
        txt = G.render(case, T, comments=False, units=False)
        n = rnd.randint(1, 4)
        junk = ['preamble {} of, the; file {}'.format(i, 'x' * i) for i in range(n)]
        txt = T.eol.join(junk) + T.eol + txt
        kw = dict(commentLines=list(range(n)), colNamesLine=n)
        names = T.full
        if rnd.random() < 0.4:                       # the names line is one of the comment lines, units may follow them
            L = txt.split(T.eol)
            body = L[n + 1:]
            top = junk + ['more {}'.format(i) for i in range(rnd.randint(0, 2))]
            k = rnd.randrange(len(top) + 1)
            top.insert(k, L[n])
            if rnd.random() < 0.6:
                us = [rnd.choice(['(m)', '[-]', '(kN)', '[deg]']) for _ in range(T.ncol)]
                top.append({' ': '  '}.get(T.sep, T.sep).join(us))
                names = [a + '_' + b for a, b in zip(T.full, us)]
                kw = dict(commentLines=list(range(len(top) - 1)), colNamesLine=k)
            else:
                kw = dict(commentLines=list(range(len(top))), colNamesLine=k)
            rnd.shuffle(kw['commentLines'])
            txt = T.eol.join(top + body)
            if T.nrow < 2 and T.sep in ',;':
                kw['sep'] = T.sep
    elif kind == 3:                                  # names hidden in the last comment line
        c = rnd.choice(['%', '#', '$'])
        if rnd.random() < 0.3:
            T.names[-1] += c
        txt = G.render(case, T, comments=False, units=False)
        names = T.full
        txt = c + ' a comment' + T.eol + c + rnd.choice(['', ' ']) + txt.lstrip()
        T.comment = c
        kw = dict(commentChar=c, colNamesLine=-1)
        if T.nrow < 2:
            kw['sep'] = T.sep
    elif kind == 4:                                  # no detection of names
        T = G.gen_table(case, named=False)
        txt = G.render(case, T, comments=False)
        kw = dict(detectColumnNames=False)
        names = T.names
    elif kind == 6:                                  # comment lines at arbitrary places
        txt = G.render(case, T, comments=False, units=False)
        L = txt.split(T.eol)
        at = sorted(rnd.sample(range(T.nrow + T.named + 3), rnd.randint(1, 3)))
        at = [a for k, a in enumerate(at) if a - k <= T.nrow + T.named]
        for a in at:
            L.insert(a, rnd.choice(['remark of the, author; number {}'.format(a), '(m) (s) (-)', '7', {' ': ' '}.get(T.sep, T.sep).join(['(m)', '[-]', '(s)'][i % 3] for i in range(T.ncol))]))
        txt = T.eol.join(L)
        names = T.full
        lead = 0
        while lead in at:
            lead += 1
        kw = dict(commentLines=rnd.sample(at, len(at)))
        if T.named and rnd.random() < 0.6:
            kw['colNamesLine'] = lead
        elif not T.named:
            kw.update(rnd.choice([dict(detectColumnNames=False), dict(colNames=['N{}'.format(i) for i in range(T.ncol)])]))
            names = kw.get('colNames', names)
        if T.nrow < 2:
            kw['sep'] = T.sep
    else:                                            # comment character given
        c = rnd.choice(['%', '$', '*'])
        txt = G.render(case, T, comments=False)
        txt = (c + ' some words, here' + T.eol) * rnd.randint(1, 3) + txt
        T.comment = c
        kw = dict(commentChar=c)
        names = T.full
        if not T.named:
            kw['detectColumnNames'] = False
    T.encoding = 'utf-8'
    p = case.write('tab.csv', txt.encode())
    sig(case, T)
    case.sig('explicit', kind, T.sep)
    case.desc['kw'] = {k: str(v)[:80] for k, v in kw.items()}
    snap = freeze(kw)
    f = case.call('CSVFile', CSVFile, p, **kw)
    G.judge(case, case.call('toDataFrame', f.toDataFrame), T, names, tag='explicit-')
    if 'commentLines' in kw:
        want = [l.strip() for i, l in enumerate(txt.split(T.eol)) if i in kw['commentLines']]
        case.check(list(f.header) == want, 'comment-lines', lambda: 'header {!r:.300} expected {!r:.300}'.format(f.header, want))
    case.check(same(snap, freeze(kw)) is None, 'settings-untouched', lambda: 'the settings given were changed to {}'.format(kw))


def w_mismatch(case):
    """names or units that do not fit the number of columns cost no data; rows that do not fit are refused"""
    from weio.csv_file import CSVFile
    rnd = case.rnd
    while True:
        T = G.gen_table(case, named=True, text=False, missing=False, minrows=3)
        if T.ncol > 2:
            break
    T.names = [n.replace(' ', '') for n in T.names]
    kind = rnd.choice(['fewer-names', 'more-names', 'fewer-units', 'ragged'])
    txt = G.render(case, T, comments=rnd.random() < 0.3, units=False)
    L = txt.split(T.eol)
    sep = T.sep if T.sep != ' ' else '  '
    names = T.full
    k = T.nhead - 1
    if kind in ('fewer-names', 'more-names') and T.where == 'line':
        L[k] = sep.join(T.names[:-1] if kind == 'fewer-names' else T.names + rnd.choice([['extra'], ['extra', 'more']]))
        names = ['C{}'.format(j) for j in range(T.ncol)]
    elif kind == 'fewer-units' and T.where == 'line':
        L.insert(k + 1, sep.join([rnd.choice(G.UN) for _ in range(T.ncol - 1)]))
    elif kind == 'ragged':
        i = rnd.randrange(T.nhead + 1, T.nhead + 2)
        L.insert(T.nhead + rnd.randint(1, T.nrow - 1), sep.join(['7'] * (T.ncol + rnd.choice([1, 2, 5]))))
    T.encoding = 'utf-8'
    p = case.write('tab.csv', T.eol.join(L).encode())
    sig(case, T)
    case.sig('mismatch', kind, T.sep, T.where, min(T.ncol, 6), min(T.nrow, 6))
    case.desc['kind'] = kind
    if kind == 'ragged':
        r = case.attempt('CSVFile', CSVFile, p)
        case.check(isinstance(r, Raised), 'ragged-refused', lambda: 'a row with too many fields is accepted: {}'.format(r.data.shape))
        return
    f = case.call('CSVFile', CSVFile, p)
    G.judge(case, case.call('toDataFrame', f.toDataFrame), T, names, tag='mismatch-')


WORKLOADS = [
    Workload('mismatch', w_mismatch, quick=1000, thorough=5000),
    Workload('auto', w_auto, quick=10000, thorough=30000),
    Workload('explicit', w_explicit, quick=2000, thorough=12000),
]
