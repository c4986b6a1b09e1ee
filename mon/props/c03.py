"""C03: editing a FAST input file changes exactly what was edited."""
import numpy as np
from ..core import Workload, Raised, EXAMPLES
from ..compare import arr_close, freeze, same
from ..gen import fastin
from .c04 import judge, describe, entries, same_scalar, norm
from .c02 import snapshot, RT, corpus, cmp_entries, readraw
import os

TECHNIQUE = 'runtime monitoring: random edit histories on the real object shadowed by a model of the file; every read, write and re-read is compared with the model'
RULE = ("Random histories of assignments (scalars of all types, lists, tables with more/fewer rows, in-place table edits, absent labels), reads, writes and re-reads on generated files with known content and on the example files; "
        "the model predicts every entry after every step; distinct by (family, sequence of operations).")
ASSUME = ['Assigned lists have at least two numbers or logicals; assigned strings are single words or quoted; assigned tables keep the number of columns.']
COUNTER = dict(BldProp='NBlInpSt', BldAeroNodes='NumBlNds', AFCoeff='NumAlf')


def anycase(rnd, s):
    return rnd.choice([s, s, s.lower(), s.upper(), s.swapcase(), ''.join(c.upper() if rnd.random() < 0.5 else c.lower() for c in s)])


def newvalue(rnd):
    k = rnd.choice(['int', 'float', 'bool', 'quoted', 'word', 'list', 'np'])
    if k == 'np':
        x = rnd.choice([np.float64(rnd.uniform(-5, 5)), np.int64(rnd.randint(-9, 9)), np.float64(3.0), np.float64(1e-7)])
        return x, (float(x) if isinstance(x, np.floating) else int(x))
    v, _ = fastin.scalar(rnd, (k,))
    if k == 'list' and all(isinstance(x, bool) for x in v) and False:
        pass
    return v, v


def mem_judge(case, f, doc, tag='memory-'):
    judge(case, f, doc, rtol=0.0, tag=tag)


def w_history(case):
    from weio import fast_input_file as M
    rnd, rng = case.rnd, case.rng
    doc = fastin.make(rnd, rnd.choice(['generic'] * 5 + ['tower', 'edblade', 'edblade', 'adblade', 'adblade', 'polar', 'polar', 'subdyn', 'bdmain', 'nodal']))
    p = case.write('a.dat', doc.text())
    src = readraw(p)
    f = case.call('read', M.FASTInputFile, p)
    ops = []
    first = {}
    for it in doc.items:
        if it.kind != 'comment':
            first.setdefault(it.label.lower(), []).append(it)
    ents = [it for it in doc.items if it.kind == 'entry' and it.label not in DIMS]
    fixed = [it for it in doc.items if it.kind == 'num' and it.label != 'GuyanDampMatrix' or it.kind == 'headercom']
    nstep = rnd.choice([1, 2, 4, 8, 15])
    kw = 0
    for step in range(nstep):
        op = rnd.choice(['set', 'set', 'set', 'set', 'table', 'table', 'inplace', 'absent', 'get', 'write', 'reread', 'names', 'comment'])
        if op == 'set' and ents:
            it = rnd.choice(ents)
            v, e = newvalue(rnd)
            if doc.name == 'polar' and not isinstance(v, (int, float)):
                v = e = rnd.uniform(-1, 1)
            if it.label.startswith(('Bld', 'Tw')) and '(' in it.label:
                v = e = rnd.uniform(-2, 2)
            case.call('setitem', f.__setitem__, anycase(rnd, it.label), v)
            for x in first[it.label.lower()]:
                x.value = e
        elif op == 'table' and fixed:
            it = rnd.choice(fixed)
            lab = it.label.split('_')[0]
            n, m = it.value.shape
            cnt = COUNTER.get(lab)
            n2 = n
            if cnt and (doc.name, lab) in (('edblade', 'BldProp'), ('adblade', 'BldAeroNodes'), ('polar', 'AFCoeff')):
                n2 = rnd.choice([n, n + 1, max(2, n - 1), rnd.randint(2, 40), rnd.randint(2, 5)])
            V = rng.normal(size=(n2, m)) * 10.0 ** rnd.randint(-6, 6)
            if rnd.random() < 0.3:
                V = np.round(V)
            if lab == 'BldProp':
                V[:, 0] = np.linspace(0, 1, n2)
            if n2 and rnd.random() < 0.2:
                V = np.asfortranarray(V)
            case.call('setitem', f.__setitem__, anycase(rnd, it.label), V.copy())
            it.value = V
            if n2 != n:
                c = doc.get(cnt + it.label[len(lab):])
                c.pending = n2
        elif op == 'inplace' and fixed:
            it = rnd.choice(fixed)
            if it.value.size:
                i, j = rnd.randrange(it.value.shape[0]), rnd.randrange(1, it.value.shape[1])
                t = case.call('getitem', f.__getitem__, it.label)
                t[i, j] = 1234.5
                it.value = it.value.copy()
                it.value[i, j] = 1234.5
        elif op == 'absent':
            s0 = snapshot(f)
            k = rnd.choice(['NotThere', 'zzTop', 'Bld Prop', 'xx(9)', '_'])
            r = case.attempt('getitem-absent', f.__getitem__, k)
            case.check(isinstance(r, Raised) and isinstance(r.exc, KeyError), 'absent-get', '{}: {!r}'.format(k, r))
            r = case.attempt('setitem-absent', f.__setitem__, k, 1)
            case.check(isinstance(r, Raised) and isinstance(r.exc, KeyError), 'absent-set', '{}: {!r}'.format(k, r))
            d = same(s0, snapshot(f))
            case.check(d is None, 'absent-untouched', d)
        elif op == 'get' and ents:
            it = rnd.choice(ents)
            v = case.call('getitem', f.__getitem__, anycase(rnd, it.label))
            case.check(same_scalar(v, first[it.label.lower()][0].value) or v == it.value, 'get', '{}: {!r} instead of {!r}'.format(it.label, v, it.value))
        elif op == 'names':
            fil = [it for it in doc.items if it.kind in ('fil', 'out') and it.label != 'KDAdd']
            if fil:
                it = rnd.choice(fil)
                if it.kind == 'out':
                    v = [''] + [rnd.choice(fastin.CHANNELS) for _ in range(rnd.randint(0, 6))]
                else:
                    v = ['"new{}.dat"'.format(i) for i in range(rnd.randint(1, 5))]
                    c = [x for x in doc.items if x.label in ('NumAFfiles', 'NumFoil')][0]
                    case.call('setitem', f.__setitem__, c.label, len(v))
                    c.value = len(v)
                case.call('setitem', f.__setitem__, it.label, list(v))
                it.value = v
        elif op == 'comment' and doc.name in ('edblade', 'adblade'):
            t = '! new comment {}'.format(step) + rnd.choice(['', '', ' and a long text' * rnd.randint(3, 15)])
            if rnd.random() < 0.15:
                t = ''
            f.comment = t
            doc.items[1].value = t
            case.check(f.comment == t, 'comment', repr(f.comment))
        elif op == 'comment' and doc.name == 'polar':
            I = [it for it in doc.items[1:4] if it.kind == 'comment' and it.value.startswith('!') and not it.value.startswith('! ---')]
            case.check(f.comment == '\n'.join(it.value[1:].strip() for it in I), 'comment-get', '{!r} instead of {}'.format(f.comment, [it.value for it in I]))
            new = [rnd.choice(['', '', '- ', '-- ', '! ', '# ']) + 'remark {} {}'.format(step, j) + rnd.choice(['', ' text']) for j in range(rnd.randint(1, len(I)))] if I else ['lost']
            f.comment = '\n'.join(new)
            for it, t in zip(I, new):
                it.value = '! ' + t
        elif op in ('write', 'reread'):
            q = case.path('w{}.dat'.format(kw))
            kw += 1
            case.call('write', f.write, q)
            settle(doc)
            mem_judge(case, f, doc)
            g = case.call('reread', M.FASTInputFile, q)
            judge(case, g, doc, rtol=RT, tag='file-')
            if op == 'reread':
                if rnd.random() < 0.4:
                    # the same object reads what it has just written
                    case.check(f.filename == q, 'filename', '{!r} after writing {!r}'.format(f.filename, q))
                    case.call('read', f.read)
                else:
                    f = g
                for it in doc.items:
                    if it.kind in ('num', 'headercom'):
                        it.value = np.array(g[it.label], copy=True)
        else:
            continue
        ops.append(op)
        if op not in ('write', 'reread'):
            chk = rnd.random() < 0.5
            if chk:
                mem_judge(case, f, doc)
    q = case.path('final.dat')
    case.call('write', f.write, q)
    settle(doc)
    mem_judge(case, f, doc)
    g = case.call('reread', M.FASTInputFile, q)
    judge(case, g, doc, rtol=RT, tag='file-')
    case.check(readraw(p) == src, 'source-untouched', 'source file changed by edits')
    case.desc = dict(family=doc.name, ops=ops)
    case.sig(doc.name, tuple(ops), len(doc.items))


DIMS = set(x for t in fastin.VAL_TABLES for x in [t[1]] if isinstance(x, str)) | set(t[1] for t in fastin.LAB_TABLES) | \
    {'NBlInpSt', 'NumBlNds', 'NumAlf', 'NumTabs', 'NumAFfiles', 'NumFoil', 'NumCoords', 'NXPropSets', 'GuyanDampSize', 'station_total'} | \
    {'NumAlf_{}'.format(i) for i in range(1, 14)} | {'InterpOrd'} | {'InclUAdata_{}'.format(i) for i in range(14)} | {'InclUAdata'}


def settle(doc):
    """writing brings the row counters up to date"""
    for it in doc.items:
        if hasattr(it, 'pending'):
            it.value = it.pending
            del it.pending


def w_corpus(case):
    """one assignment on an example file: everything else stays"""
    from weio.fast_input_file import FASTInputFile
    rnd = case.rnd
    p = case.write('a.dat', readraw(os.path.join(EXAMPLES, case.item)))
    f = case.call('read', FASTInputFile, p)
    D = entries(f)
    labs = [d['label'].lower() for d in D if not d['isComment']]
    cand = [i for i, d in enumerate(D) if not d['isComment'] and d['tabType'] == 0 and i > 2 and labs.count(d['label'].lower()) == 1 and d['label'] not in DIMS
            and not isinstance(d['value'], (np.ndarray, dict)) and d['label'].strip() not in ('-', '') and d['label'] != 'AirfoilRefPoint' and '(' not in d['label']
            and d['label'].lower() not in ('ndof', 'dt', 't', 'nonodes', 'numfoil')]
    case.desc = dict(file=case.item, candidates=len(cand))
    if not cand:
        case.check(True, 'no-scalar')
        return
    ref = FASTInputFile(p)
    for i in rnd.sample(cand, min(len(cand), 3)):
        v = rnd.choice([17, 2.5, True, '"text"'])
        if D[i]['label'] in ('Cd0', 'alpha0', 'alpha1', 'alpha2', 'C_nalpha'):
            v = 0.5
        case.sig(case.item, D[i]['label'], str(v))
        case.call('setitem', f.__setitem__, anycase(rnd, D[i]['label']), v)
        entries(ref)[i]['value'] = v
    cmp_entries(case, entries(ref), entries(f), 'memory-')
    case.call('write', f.write, case.path('b.dat'))
    g = case.call('reread', FASTInputFile, case.path('b.dat'))
    cmp_entries(case, entries(ref), entries(g), 'file-')


WORKLOADS = [
    Workload('history', w_history, quick=4000, thorough=40000),
    Workload('corpus', w_corpus, quick=8, thorough=100, fixed=corpus),
]
