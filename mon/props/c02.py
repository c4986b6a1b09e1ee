"""C02: FAST input files survive read, write, read unchanged."""
import os, re
import numpy as np
from ..core import Workload, Raised, EXAMPLES
from ..compare import arr_close, freeze, same
from ..gen import fastin
from .c04 import judge, describe, entries, norm, same_scalar

TECHNIQUE = 'runtime monitoring: read/write/read histories of generated and example input files, recorded entry by entry and judged by a conservation monitor and by the known content'
RULE = ("Histories read, write, read, write of generated files (nine families, content known) and of every example FAST input file with randomly perturbed numbers; "
        "entries, tables, comments, bytes of successive writes and memory before/after writing are compared; distinct by (family or example, labels, sizes, perturbation).")
ASSUME = ['Blank lines at the end of the file are ignored; byte-identity of successive writes is required when table numbers have at most nine significant digits; AeroDyn 14 airfoil files are excluded (no writer).']
RT = 6e-9


def snapshot(f):
    return freeze([{k: v for k, v in d.items()} for d in entries(f)])


def readraw(p):
    return open(p, 'rb').read()


def strip_end(b):
    return b.rstrip(b'\r\n \t')


def cmp_entries(case, A, B, tag):
    """two lists of entries (dicts) describe the same content"""
    while A and A[-1]['isComment'] and not str(A[-1]['value']).strip():
        A = A[:-1]
    while B and B[-1]['isComment'] and not str(B[-1]['value']).strip():
        B = B[:-1]
    if len(A) != len(B):
        la = [d['label'] if not d['isComment'] else d['value'] for d in A]
        lb = [d['label'] if not d['isComment'] else d['value'] for d in B]
        i = next((i for i, (a, b) in enumerate(zip(la, lb)) if a != b), min(len(la), len(lb)))
        case.fail(tag + 'entries', '{} entries, then {}; first difference at {}: {!r} / {!r}'.format(len(A), len(B), i, la[i:i + 2], lb[i:i + 2]))
        return
    for a, b in zip(A, B):
        if a['isComment']:
            case.check(b['isComment'] and a['value'].rstrip() == str(b['value']).rstrip(), tag + 'comment', '{!r} became {!r}'.format(a['value'], b['value']))
            continue
        if not case.check(not b['isComment'] and a['label'] == b['label'], tag + 'label', '{!r} became {!r}'.format(a['label'], b['label'] or b['value'])):
            continue
        va, vb = a['value'], b['value']
        if isinstance(va, np.ndarray):
            if va.dtype == object:
                m = None if va.shape == np.shape(vb) and all(str(x) == str(y) for x, y in zip(va.ravel(), np.ravel(vb))) else '{} became {}'.format(va, vb)
            else:
                m = arr_close(vb, va, rtol=RT)
            case.check(m is None, tag + 'table', '{}: {}'.format(a['label'], m))
            ca, cb = a.get('tabColumnNames'), b.get('tabColumnNames')
            case.check(ca == cb, tag + 'table-columns', '{}: {} became {}'.format(a['label'], ca, cb))
            case.check(a.get('tabUnits') == b.get('tabUnits'), tag + 'table-units', '{}: {} became {}'.format(a['label'], a.get('tabUnits'), b.get('tabUnits')))
        elif isinstance(va, dict):
            for k in va:
                m = arr_close(vb[k], va[k], rtol=1e-15, atol=5.1e-7 if k == 'span' else 0)
                case.check(m is None, tag + 'beam', '{}: {}'.format(k, m))
        elif isinstance(va, list):
            case.check(list(vb) == list(va) and type(vb) is type(va), tag + 'list', '{}: {!r} became {!r}'.format(a['label'], va, vb))
        else:
            case.check(same_scalar(vb, va) or (va != va and vb != vb), tag + 'value', '{}: {!r} became {!r}'.format(a['label'], va, vb))
        if not isinstance(va, (np.ndarray, dict)):
            case.check(norm(a.get('descr')) == norm(b.get('descr')), tag + 'description', '{}: {!r} became {!r}'.format(a['label'], a.get('descr'), b.get('descr')))


def cycle(case, f, n, doc=None, exact=True, tag=''):
    from weio.fast_input_file import FASTInputFile
    prev = None
    A = entries(f)
    s0 = snapshot(f)
    for k in range(n):
        q = case.path('w{}.dat'.format(k))
        case.call('write', f.write, q)
        d = same(s0, snapshot(f))
        case.check(d is None, tag + 'memory-untouched', d)
        g = case.call('reread', FASTInputFile, q)
        cmp_entries(case, A, entries(g), tag)
        if doc is not None:
            judge(case, g, doc, rtol=RT, tag='written-')
        b = readraw(q)
        if prev is not None and exact:
            case.check(strip_end(b) == strip_end(prev), tag + 'stable-bytes', lambda: diffline(prev, b))
        prev = b
        f, A, s0 = g, entries(g), snapshot(g)
    return f


def diffline(a, b):
    for i, (x, y) in enumerate(zip(a.split(b'\n'), b.split(b'\n'))):
        if x != y:
            return 'line {}: {!r} / {!r}'.format(i + 1, x[:150], y[:150])
    return 'lengths {} {}'.format(len(a), len(b))


def w_generated(case):
    from weio.fast_input_file import FASTInputFile
    doc = fastin.make(case.rnd)
    text = doc.text()
    if case.rnd.random() < 0.1 and doc.name not in ('extptfm', 'bdblade'):
        text = text.replace('blade', 'bläde')
        for it in doc.items:
            it.descr = it.descr.replace('blade', 'bläde')
            if it.label == 'KDAdd':
                it.value = [x.replace('blade', 'bläde') for x in it.value]
            if it.kind == 'comment':
                it.value = it.value.replace('blade', 'bläde')
    p = case.write('a.dat', text.encode('utf-8'))
    describe(case, doc)
    f = case.call('read', FASTInputFile, p)
    judge(case, f, doc)
    how = case.rnd.choice(['wrapper', 'wrapper', 'dedicated', 'again'])
    if how != 'wrapper':
        # the classes behind it, and objects which held another file before
        from weio import fast_input_file as M
        cls = dict(edblade=M.EDBladeFile, adblade=M.ADBladeFile, polar=M.ADPolarFile, extptfm=M.ExtPtfmFile).get(doc.name, M.FASTInputFileBase)
        if how == 'again':
            cls = cls if doc.name in ('polar', 'extptfm') else case.rnd.choice([FASTInputFile, M.FASTInputFileBase])
            other = fastin.make(case.rnd, doc.name if cls not in (FASTInputFile, M.FASTInputFileBase) else case.rnd.choice([doc.name, 'nodal', 'generic', 'subdyn']))
            f = cls(case.write('other/o.dat', other.text()))
            case.call('read', f.read, p)
        else:
            f = case.call('read', cls, p)
        case.desc['how'] = how + ' ' + cls.__name__
        judge(case, f, doc)
    b = readraw(p)
    cycle(case, f, case.rnd.choice([2, 2, 3]), doc)
    case.check(readraw(p) == b, 'source-untouched', 'source changed')


NUM = re.compile(r'(?<![\w.+"-])[-+]?(?:\d+\.\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w."])')
SKIP = ('AD14_arf',)


def corpus():
    out = []
    for r, ds, fs in os.walk(EXAMPLES):
        for f in fs:
            if os.path.splitext(f)[1].lower() in ('.dat', '.txt', '.fst', '.dvr', '.inp') and (f.startswith('FASTIn') or 'input_decks' in r) and 'AD14_arf' not in f:
                out.append(os.path.relpath(os.path.join(r, f), EXAMPLES))
    return sorted(out)


def perturb(case, text):
    """replace decimal numbers by others of the same notation"""
    rnd = case.rnd
    cnt = [0]

    def rep(m):
        t = m.group(0)
        if rnd.random() < 0.7:
            return t
        cnt[0] += 1
        x = rnd.choice([rnd.uniform(-9, 9), 10.0 ** rnd.randint(-9, 9) * rnd.uniform(0.1, 9.9), 0.0, float(rnd.randint(-99, 99))])
        s = rnd.choice(['{:.4f}' if abs(x) < 1e4 else '{:.4e}', '{:.6e}', '{:.3E}', '{:.1f}' if abs(x) < 1e7 else '{:.1e}']).format(x)
        return s
    lines = text.split('\n')
    out = []
    for i, l in enumerate(lines):
        if i < 3 or l.lstrip().startswith(('!', '-', '=', '#')) and not re.match(r'\s*-[\d.]', l):
            out.append(l)
        else:
            # only the head of the line (values), not the description
            k = l.find(' - ')
            out.append(NUM.sub(rep, l) if k < 0 else NUM.sub(rep, l[:k]) + l[k:])
    return '\n'.join(out), cnt[0]


def w_corpus(case):
    from weio.fast_input_file import FASTInputFile
    name = case.item
    src = os.path.join(EXAMPLES, name)
    b = readraw(src)
    n = 0
    if case.index >= len(corpus()) and 'ExtPtfm' not in name and 'BD_bld' not in name:
        t, n = perturb(case, b.decode('latin-1'))
        b = t.encode('latin-1')
    p = case.write('a.dat', b)
    case.desc = dict(file=name, perturbed=n)
    case.sig(name, n, hash(b) if n else 0)
    f = case.attempt('read', FASTInputFile, p)
    if isinstance(f, Raised):
        if n:
            case.check(True, 'perturbed-unreadable')
            return
        case.fail('read-raises', '{}: {!r}'.format(name, f))
        return
    cycle(case, f, 2, tag='corpus-')


def w_build(case):
    """prototype files made by the dedicated classes"""
    from weio import fast_input_file as M
    rnd, rng = case.rnd, case.rng
    k = rnd.choice(['ed', 'ad', 'polar', 'polar2', 'ext'])
    if k == 'ed':
        f = M.EDBladeFile()
        n = rnd.randint(1, 30)
        f['BldProp'] = np.round(rng.random((n, 6)), 6)
        dim = [('NBlInpSt', n)]
    elif k == 'ad':
        f = M.ADBladeFile()
        n = rnd.randint(2, 30)
        f['BldAeroNodes'] = np.round(rng.random((n, 7)), 6)
        dim = [('NumBlNds', n)]
    elif k.startswith('polar'):
        nt = 1 if k == 'polar' else rnd.randint(2, 4)
        f = M.ADPolarFile(numTabs=nt, hasUA=rnd.random() < 0.5)
        dim = []
        for i in range(nt):
            off = '' if nt == 1 else '_{}'.format(i + 1)
            n = rnd.randint(20, 40)
            f['AFCoeff' + off] = np.round(rng.normal(size=(n, 4)), 5)
            dim.append(('NumAlf' + off, n))
    else:
        f = M.ExtPtfmFile()
        n = rnd.randint(1, 7)
        nt = rnd.randint(1, 20)
        f['nDOF'], f['dt'], f['T'] = n, 0.05, nt * 0.05
        r9 = lambda a: np.array([[float('{:.8e}'.format(x)) for x in y] for y in a])
        for m in ('MassMatrix', 'StiffnessMatrix', 'DampingMatrix'):
            f[m] = r9(rng.normal(size=(n, n)))
        L = r9(rng.normal(size=(nt + 1, n + 1)))
        f['Loading'] = L
        dim = []
    case.desc = dict(kind=k, dim=dim)
    case.sig(k, tuple(dim))
    p = case.path('a.dat')
    case.call('write', f.write, p)
    for lab, n in dim:
        case.check(f[lab] == n, 'counter', '{}: {} instead of {}'.format(lab, f[lab], n))
    g = case.call('reread', M.FASTInputFile, p)
    if k.startswith('polar'):
        # prototypes hold NaN place holders and ints: compare tables and labels only
        la = [d['label'].lower() for d in entries(f) if not d['isComment']]
        lb = [d['label'].lower() for d in entries(g) if not d['isComment']]
        case.check(la == lb, 'build-labels', '{} / {}'.format(la, lb))
        for lab, n in dim:
            t = lab.replace('NumAlf', 'AFCoeff')
            m = arr_close(g[t], f[t], rtol=RT)
            case.check(m is None and g[lab] == n, 'build-table', '{}: {}'.format(t, m))
    elif k == 'ext':
        for m in ('MassMatrix', 'StiffnessMatrix', 'DampingMatrix', 'Loading'):
            d = arr_close(g[m], f[m], rtol=RT)
            case.check(d is None, 'build-table', '{}: {}'.format(m, d))
    else:
        cmp_entries(case, [d for d in entries(f) if not d['isComment']], [d for i, d in enumerate(entries(g)) if not d['isComment'] and i != 1], 'build-')
    cycle(case, g, 2, tag='build2-')


WORKLOADS = [
    Workload('generated', w_generated, quick=4000, thorough=40000),
    Workload('corpus', w_corpus, quick=12, thorough=150, fixed=corpus),
    Workload('build', w_build, quick=250, thorough=4000),
]
