"""C20: reading, converting and printing have no side effects; writing touches its target only; objects do not influence each other."""
import copy
import gc
import hashlib
import os
import sys
import tempfile
import warnings
import numpy as np
import pandas as pd
from ..core import Workload, Raised
from ..compare import freeze, same
from ..gen import anyfile

TECHNIQUE = 'runtime monitoring: file-system events (interpreter audit hook), directory snapshots, open descriptors, process state and deep object snapshots are recorded around every operation of random histories on files of all formats'
RULE = 'A case is a history of reads, conversions, printing, queries, saves and re-reads over one to three objects of random formats (examples and generated files); distinct by (formats, operations).'
ASSUME = ['Documented companions: HAWC2 .sel/.dat pair, Bladed header/data and project files, FLEX sensor file, files named inside an input file.',
          'Files are not changed by others during the history.']

EVENTS = []          # (kind, path)
ON = [False]
WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def hook(ev, args):
    if not ON[0]:
        return
    if ev == 'open':
        p, mode, flags = args
        if isinstance(p, (str, bytes)):
            w = (mode and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & WR)
            EVENTS.append(('write' if w else 'open', os.fsdecode(p)))
    elif ev in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.link', 'os.symlink', 'os.utime', 'shutil.copyfile', 'shutil.move', 'shutil.rmtree', 'os.chdir', 'subprocess.Popen', 'os.system'):
        EVENTS.append((ev, str(args[0]) if args else ''))


INSTALLED = []


def warm():
    """import what weio or its libraries import lazily: importing is not an effect of weio"""
    import importlib
    for n in ('chardet', 'scipy.signal', 'scipy.optimize', 'scipy.io', 'scipy.interpolate', 'scipy.linalg', 'scipy.stats', 'openpyxl', 'pyarrow', 'pyarrow.parquet', 'xarray', 'nptdms', 'matplotlib.pyplot', 'matplotlib.cm', 'pandas', 'weio'):
        try:
            importlib.import_module(n)
        except Exception:
            pass
    gc.collect()


def snap(d):
    S = {}
    for r, ds, fs in os.walk(d):
        for n in ds:
            S[os.path.join(r, n)] = 'dir'
        for n in fs:
            p = os.path.join(r, n)
            st = os.stat(p)
            with open(p, 'rb') as fid:
                S[p] = (hashlib.md5(fid.read()).hexdigest(), st.st_mtime_ns, st.st_mode)
    return S


def process():
    return dict(cwd=os.getcwd(), err=np.geterr(), env=dict(os.environ), path=list(sys.path), filters=len(warnings.filters), printopt=repr(sorted(np.get_printoptions().items(), key=str)),
                pd=(pd.get_option('display.max_rows'), pd.get_option('display.precision'), pd.get_option('mode.chained_assignment')))


def handles(d):
    L = []
    for n in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if p.startswith(os.path.realpath(d) + os.sep):
            L.append(p)
    return sorted(L)


class Watch:
    """around one operation: which files were touched"""

    def __init__(self, case, what, targets=()):
        self.case, self.what, self.targets = case, what, set(map(os.path.realpath, targets))

    def __enter__(self):
        if not INSTALLED:
            warm()
            sys.addaudithook(hook)
            INSTALLED.append(1)
        self.s, self.p, self.h = snap(self.case.dir), process(), handles(self.case.dir)
        # libraries (openpyxl) use temporary files: these are given a place of their own
        self.scratch, self.tmp = os.path.realpath(os.path.join(os.path.dirname(self.case.dir), 'tmp_{}'.format(os.getpid()))), tempfile.tempdir
        os.makedirs(self.scratch, exist_ok=True)
        tempfile.tempdir = self.scratch
        del EVENTS[:]
        ON[0] = True
        return self

    def __exit__(self, *exc):
        ON[0] = False
        tempfile.tempdir = self.tmp
        if exc[0] is not None:
            return False
        case, what = self.case, self.what
        E = list(EVENTS)
        for e in E:
            case.event('fs:' + e[0])
        bad = [e for e in E if e[0] != 'open' and os.path.realpath(e[1]) not in self.targets and not e[1].startswith(('/dev/', '/proc/')) and not e[1].endswith('.pyc') and not (os.path.realpath(e[1]) + os.sep).startswith(self.scratch + os.sep)
               and not (e[0] == 'os.mkdir' and any(t.startswith(os.path.realpath(e[1]) + os.sep) for t in self.targets))]
        case.check(not bad, 'events', '{}: {}'.format(what, bad[:3]))
        S = snap(case.dir)
        for p in sorted(set(S) | set(self.s)):
            if os.path.realpath(p) in self.targets:
                continue
            if not case.check(S.get(p) == self.s.get(p), 'files', '{}: {} {}'.format(what, os.path.relpath(p, case.dir), 'created' if p not in self.s else 'removed' if p not in S else 'changed')):
                break
        P = process()
        for k in P:
            case.check(P[k] == self.p[k], 'process-state', '{}: {} changed'.format(what, k))
        H = handles(case.dir)
        case.check(H == self.h, 'handles', '{}: left open {}'.format(what, [os.path.basename(h) for h in H if h not in self.h][:3]))
        return False


def state(f):
    """public state of an object: dictionary content, and attributes that are set"""
    f = getattr(f, 'fixedfile', f)
    d = dict(vars(f)) if hasattr(f, '__dict__') else {}
    d = {k: freeze(v) for k, v in d.items() if not k.startswith('_') and v is not None and k not in ('basefile', 'filename')}
    return (freeze(dict(f)) if isinstance(f, dict) else None, d)


def changed(s0, s1, root=None, skip=()):
    """first difference between two states (attributes that were not set might be cached later)"""
    if s0[0] is not None:
        m = same(nopath(s0[0], root), nopath(s1[0], root))
        if m is not None:
            return 'content ' + m
    for k in s0[1]:
        if k in skip:
            continue    # CSV: separator to be used with the written file
        if k not in s1[1]:
            return 'attribute {} removed'.format(k)
        m = same(nopath(s0[1][k], root), nopath(s1[1][k], root))
        if m is not None:
            return 'attribute {} {}'.format(k, m)
    return None


def nopath(x, root):
    if root is None:
        return x
    if isinstance(x, str) and root in x:
        return '<path>'
    if isinstance(x, (list, tuple)):
        return type(x)(nopath(v, root) for v in x)
    return x


def frames(r):
    if isinstance(r, Raised):
        return ('raised', type(r.exc).__name__)
    return freeze(r)


def do(case, what, fn, targets=()):
    with Watch(case, what, targets):
        r = case.attempt(what.split(' ')[0], fn)
    return r


def queries(f):
    """cheap read-only methods of the objects"""
    L = [('repr', lambda: repr(f)), ('str', lambda: str(f)), ('toDataFrame', lambda: f.toDataFrame())]
    if isinstance(f, dict):
        L += [('keys', lambda: list(f.keys()))]
    for n in ('size', 'encoding', 'toGraph', 'toJSON', 'comment', 'header', 'summary', 'checkVar', 'xdescr', 'udescr', 'ydescr', 'xdotdescr', 'getModes', 'infos', 'dt', 't', 'x', 'y', 'z', 'module'):
        if hasattr(type(f), n):
            L.append((n, lambda n=n: (lambda v: v() if callable(v) else v)(getattr(f, n))))
    return L


def spoil(x, depth=0, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 8:
        return 0
    seen.add(id(x))
    n = 0
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fiuc' and x.flags.writeable and x.size:
            x[...] = 77
            n += 1
    elif isinstance(x, pd.DataFrame):
        for c in range(x.shape[1]):
            if x.dtypes.iloc[c].kind in 'fiu' and len(x):
                x.iloc[:, c] = x.dtypes.iloc[c].type(77)
                n += 1
    elif isinstance(x, dict):
        for v in list(dict.values(x)):
            n += spoil(v, depth + 1, seen)
        for k in list(dict.keys(x)):
            if isinstance(dict.__getitem__(x, k), (int, float, str)):
                dict.__setitem__(x, k, 77)
                n += 1
    elif isinstance(x, list):
        for v in x:
            n += spoil(v, depth + 1, seen)
        x.append(77)
        n += 1
    if type(x).__module__.startswith('weio') and hasattr(x, '__dict__'):
        for v in list(vars(x).values()):
            n += spoil(v, depth + 1, seen)
    return n


class Obj:
    pass


def open_(case, i):
    rnd = case.rnd
    o = Obj()
    if rnd.random() < 0.5:
        o.a = anyfile.example(case, *rnd.choice(anyfile.examples(300000)), sub='d{}'.format(i))
    else:
        o.a = anyfile.generated(case, stem=os.path.join('d{}'.format(i), 'g'))
    return o


def wl_history(case):
    rnd = case.rnd
    objs = []
    for i in range(rnd.choice([1, 1, 2, 3])):
        o = open_(case, i)
        tag = '{} {}'.format(o.a.clsname, o.a.kind)
        r = do(case, 'read ' + tag, o.a.read)
        if isinstance(r, Raised):
            continue
        o.f, o.tag = r, tag
        o.s, o.df = state(r), None
        objs.append(o)
    ops = []
    for k in range(rnd.randint(4, 12)):
        if not objs:
            break
        o = rnd.choice(objs)
        op = rnd.choice(['query', 'query', 'df', 'df', 'df', 'fresh', 'reread', 'write'] + (['spoil'] if rnd.random() < 0.3 else []))
        ops.append(op)
        if op == 'query':
            n, fn = rnd.choice(queries(o.f))
            r = do(case, '{} {}'.format(n, o.tag), fn)
            if n in ('repr', 'str'):
                case.check(isinstance(r, str) and r.strip() != '', 'printing', '{}: printing the object: {!r}'.format(o.tag, r)[:300])
        elif op == 'df':
            r = frames(do(case, 'toDataFrame ' + o.tag, o.f.toDataFrame))
            if o.df is None:
                o.df = r
            m = same(o.df, r)
            case.check(m is None, 'frames-again', '{}: second conversion differs: {}'.format(o.tag, m))
        elif op == 'fresh':
            r = do(case, 'read ' + o.tag, o.a.read)
            if not isinstance(r, Raised):
                m = same(frames(case.attempt('toDataFrame', r.toDataFrame)), frames(case.attempt('toDataFrame', o.f.toDataFrame)))
                case.check(m is None, 'fresh-object', '{}: a new object gives other frames: {}'.format(o.tag, m))
        elif op == 'reread':
            before = frames(case.attempt('toDataFrame', o.f.toDataFrame))
            r = do(case, 'reread ' + o.tag, lambda: o.f.read(**o.a.kw))
            if case.check(not isinstance(r, Raised), 'reread', '{}: reading again with the same object: {!r}'.format(o.tag, r)):
                m = same(before, frames(case.attempt('toDataFrame', o.f.toDataFrame)))
                case.check(m is None, 'reread-frames', '{}: reading again gives other frames: {}'.format(o.tag, m))
        elif op == 'write':
            save(case, o)
        elif op == 'spoil':
            # the user overwrites everything held by one object: the others, and new ones, are not affected
            ref = frames(case.attempt('toDataFrame', o.f.toDataFrame))
            n = spoil(o.f)
            case.event('spoiled an object', 'some' if n else 'none')
            objs = [q for q in objs if q is not o]
            r = do(case, 'read ' + o.tag, o.a.read)
            if case.check(not isinstance(r, Raised), 'fresh-object', '{}: cannot be read after another object was changed'.format(o.tag)):
                m = same(ref, frames(case.attempt('toDataFrame', r.toDataFrame)))
                case.check(m is None, 'shared-state', '{}: a new object shows changes done to another one: {}'.format(o.tag, m))
        if op == 'reread':
            o.s = state(o.f)    # what reading finds out may change with the second read: the frames are compared
        for q in objs:
            m = changed(q.s, state(q.f))
            if not case.check(m is None, 'object-changed', '{}: {} on {} changed the object: {}'.format(q.tag, op, o.tag, m)):
                q.s = state(q.f)
    case.sig(tuple(sorted(o.a.kind for o in objs)), tuple(ops))
    case.desc = dict(objects=[o.tag for o in objs], ops=ops)


def save(case, o):
    rnd = case.rnd
    stem, ext = os.path.splitext(o.a.fn)
    out = case.path('out')
    os.makedirs(out, exist_ok=True)
    fn = os.path.join(out, 'w' + ext)
    pre = rnd.random() < 0.5
    if pre:
        with open(fn, 'w') as fid:
            fid.write('previous content')
    if not hasattr(o.f, 'write'):
        return
    try:
        obj = copy.deepcopy(o.f)    # writing changes the file name of the object
    except Exception:
        return
    s0 = state(obj)
    extra = [os.path.join(out, 'w.sel'), os.path.join(out, 'w.dat')] if o.a.clsname == 'HAWC2DatFile' else []
    r = do(case, 'write ' + o.tag, lambda: obj.write(fn), [fn] + extra)
    if isinstance(r, Raised):
        case.check((not pre and not os.path.exists(fn)) or (pre and os.path.exists(fn) and open(fn, 'rb').read() == b'previous content'), 'failed-write', '{}: failed write ({!r}) left something in the target'.format(o.tag, r))
    m = changed(s0, state(obj), case.dir, skip=('sep',))
    case.check(m is None, 'write-changed', '{}: writing changed the object: {}'.format(o.tag, m))
    for p in [fn] + extra:
        if os.path.exists(p):
            os.remove(p)


def wl_other(case):
    """ an object which reads another file gives what a new object gives """
    rnd = case.rnd
    if rnd.random() < 0.5:
        k = rnd.choice(anyfile.KINDS)
        a, b = [anyfile.generated(case, k, os.path.join('d{}'.format(i), 'g')) for i in (0, 1)]
    else:
        ex = anyfile.examples(300000)
        n, c = rnd.choice(ex)
        n2 = rnd.choice([x for x in ex if x[1] == c])[0]
        a, b = anyfile.example(case, n, c, 'd0'), anyfile.example(case, n2, c, 'd1')
    if rnd.random() < 0.2 and a.kind != b.kind:
        a, b = b, a
    fresh = case.attempt('read', b.read)
    f = case.attempt('read', a.read)
    case.sig('other', a.kind, b.kind)
    case.desc = dict(first=a.kind, then=b.kind, cls=b.clsname)
    if isinstance(fresh, Raised) or isinstance(f, Raised) or not hasattr(f, 'read'):
        return
    for _ in range(rnd.choice([0, 1])):
        case.attempt('toDataFrame', f.toDataFrame)
    r = case.attempt('read', lambda: f.read(b.fn, **b.kw))
    if not case.check(not isinstance(r, Raised), 'other-file', '{}: an object which has read {} cannot read {}: {!r}'.format(b.clsname, a.kind, b.kind, r)):
        return
    m = same(frames(case.attempt('toDataFrame', fresh.toDataFrame)), frames(case.attempt('toDataFrame', f.toDataFrame)))
    case.check(m is None, 'other-frames', '{}: an object which has read {} before gives other frames of {}: {}'.format(b.clsname, a.kind, b.kind, m))
    if isinstance(f, dict):
        m = same(freeze(dict(getattr(fresh, 'fixedfile', fresh))), freeze(dict(getattr(f, 'fixedfile', f))))
        case.check(m is None, 'other-content', '{}: an object which has read {} before keeps content in {}: {}'.format(b.clsname, a.kind, b.kind, m))


class Poison:
    """content that no format can hold"""

    def __str__(self):
        raise ValueError('cannot be written')
    __repr__ = __str__

    def __format__(self, spec):
        raise ValueError('cannot be written')

    def __float__(self):
        raise ValueError('cannot be written')
    __int__ = __index__ = __float__

    def __deepcopy__(self, memo):
        return self


def places(x, path='', depth=0, seen=None, out=None):
    """containers of an object that hold content: (container, key, description)"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 7 or len(out) > 3000:
        return out
    seen.add(id(x))
    items = []
    if isinstance(x, dict):
        items = [(k, v) for k, v in dict.items(x)]
        out += [(x, k, '{}[{!r}]'.format(path, k)) for k, _ in items]
    elif isinstance(x, list):
        items = list(enumerate(x))
        out += [(x, k, '{}[{}]'.format(path, k)) for k, _ in items]
    for k, v in items:
        places(v, '{}[{!r}]'.format(path, k), depth + 1, seen, out)
    if type(x).__module__.startswith('weio') and hasattr(x, '__dict__'):
        for k, v in vars(x).items():
            if isinstance(v, (list, dict, np.ndarray, pd.DataFrame)) or type(v).__module__.startswith('weio'):
                out.append((vars(x), k, '{}.{}'.format(path, k)))
            places(v, '{}.{}'.format(path, k), depth + 1, seen, out)
    return out


def damage(rnd, c, k):
    v = dict.__getitem__(c, k) if isinstance(c, dict) else c[k]
    how = rnd.choice(['poison', 'none', 'element', 'row', 'column', 'remove', 'text', 'unicode'])
    new = Poison()
    if how == 'none':
        new = None
    elif how == 'text':
        new = 'not a number'
    elif how == 'unicode' and isinstance(v, str):
        new = v + ' \u2192 \u4e2d'
    elif how == 'element' and isinstance(v, np.ndarray) and v.size:
        new = v.astype(object)
        new[tuple(rnd.randrange(n) for n in v.shape)] = Poison()
    elif how == 'element' and isinstance(v, list) and v:
        new = list(v)
        new[rnd.randrange(len(v))] = Poison()
    elif how == 'element' and isinstance(v, pd.DataFrame) and v.size:
        new = v.astype(object)
        new.iloc[rnd.randrange(v.shape[0]), rnd.randrange(v.shape[1])] = Poison()
    elif how == 'row' and isinstance(v, (np.ndarray, list)) and len(v) > 1:
        new = v[:-1]
    elif how == 'column' and isinstance(v, np.ndarray) and v.ndim > 1 and v.shape[-1] > 1:
        new = v[..., :-1]
    elif how == 'remove':
        if isinstance(c, dict):
            dict.__delitem__(c, k)
        else:
            del c[k]
        return how
    else:
        how = 'poison'
    if isinstance(c, dict):
        dict.__setitem__(c, k, new)
    else:
        c[k] = new
    return how


def wl_failing(case):
    rnd = case.rnd
    o = open_(case, 0)
    f = do(case, 'read ' + o.a.clsname, o.a.read)
    if isinstance(f, Raised) or not hasattr(f, 'write'):
        case.event('write', 'no object')
        case.sig('none', o.a.clsname)
        return
    stem, ext = os.path.splitext(o.a.fn)
    out = case.path('out')
    os.makedirs(out, exist_ok=True)
    fn = os.path.join(out, 'w' + ext)
    targets = [fn] + ([os.path.join(out, 'w.sel'), os.path.join(out, 'w.dat')] if o.a.clsname == 'HAWC2DatFile' else [])
    try:
        good = copy.deepcopy(f)
    except Exception:
        return
    if isinstance(case.attempt('write', good.write, fn), Raised) or not os.path.exists(fn):
        case.event('write', 'not supported')
        case.sig('none', o.a.clsname)
        return
    for _ in range(rnd.randint(3, 10)):
        bad = copy.deepcopy(f)
        P = places(bad)
        if not P:
            break
        c, k, name = rnd.choice(P)
        how = damage(rnd, c, k)
        before = snap(out)
        r = do(case, 'write ' + o.a.clsname, lambda: bad.write(fn), targets)
        case.event('write', 'refused' if isinstance(r, Raised) else 'accepted')
        case.sig(o.a.clsname, how, isinstance(r, Raised))
        if isinstance(r, Raised):
            after = snap(out)
            if not case.check({p: v if v == 'dir' else v[0] for p, v in before.items()} == {p: v if v == 'dir' else v[0] for p, v in after.items()}, 'failed-write-' + o.a.clsname, '{} {}: {} ({}): failed write ({!r}) left {} in the target'.format(
                    o.a.clsname, os.path.basename(o.a.fn), name, how, r, {os.path.basename(p): os.path.getsize(p) for p in targets if os.path.exists(p)})):
                break
        else:
            do(case, 'write ' + o.a.clsname, lambda: copy.deepcopy(f).write(fn), targets)
    case.desc = dict(object=o.a.clsname, file=o.a.fn)


WORKLOADS = [Workload('history', wl_history, 800, 20000), Workload('other', wl_other, 800, 16000), Workload('failing', wl_failing, 600, 12000)]
