"""C26: file objects of all formats follow one protocol, and their self-tests tell the truth."""
import os
import shutil
from ..core import Workload, Raised
from ..compare import same
from ..gen import anyfile
from .c20 import frames, snap

TECHNIQUE = 'runtime monitoring: files of every format are opened, re-opened, saved and self-tested through the common interface while a monitor follows the file names, the directory content and an independent comparison of the texts'
RULE = ("protocol: a file of any format (example or generated) is read by construction, by an object made empty and by an object which already holds it, saved under a new name, saved again without name, read again without name. selftest: a format defined by the monitor, whose writer and reader misbehave in a chosen way. "
        "real: the self-tests of the formats of the library, against the same steps done in another directory. Distinct by (format, kind, outcome of each step).")
ASSUME = ['Texts compared by the self-test contain no vertical bar (it stands for the line ends there).']


def pick(case, sub='d'):
    rnd = case.rnd
    if rnd.random() < 0.5:
        return anyfile.example(case, *rnd.choice(anyfile.examples(300000)), sub=sub)
    return anyfile.generated(case, stem=os.path.join(sub, 'g'))


def data(path):
    with open(path, 'rb') as f:
        return f.read()


def wl_protocol(case):
    rnd = case.rnd
    a = pick(case)
    C, tag = anyfile.cls(a.clsname), '{} {}'.format(a.clsname, a.kind)
    case.desc = dict(file=tag)
    e = case.attempt('new', C)
    if not case.check(not isinstance(e, Raised), 'empty-object', '{}: cannot be made without a file: {}'.format(tag, type(e).__name__ if not isinstance(e, Raised) else repr(e))):
        return
    case.check(not e.filename, 'empty-object', '{}: file name {!r} of an object made without one'.format(tag, e.filename))
    s0 = snap(case.dir)
    for n in rnd.sample(['read', 'write'], 2):
        r = case.attempt(n + '-nameless', getattr(e, n))
        case.check(isinstance(r, Raised), 'name-needed', '{}: {} without a file name does not complain'.format(tag, n))
    case.check(snap(case.dir) == s0, 'name-needed', '{}: files changed by {} without name'.format(tag, n))
    f = case.attempt('read', a.read)
    if isinstance(f, Raised):
        case.sig(tag, 'unread')
        return
    ref = frames(case.attempt('df', f.toDataFrame))
    case.check(f.filename == a.fn, 'file-name', '{}: {!r} instead of {!r} after reading'.format(tag, f.filename, a.fn))
    e = C()
    r = case.attempt('read-empty', lambda: e.read(a.fn, **a.kw))
    if case.check(not isinstance(r, Raised), 'late-read', '{}: an object made empty cannot read: {!r}'.format(tag, r)):
        m = same(ref, frames(case.attempt('df', e.toDataFrame)))
        case.check(m is None, 'late-read', '{}: an object made empty reads something else: {}'.format(tag, m))
        case.check(e.filename == a.fn, 'file-name', '{}: {!r} instead of {!r} after reading late'.format(tag, e.filename, a.fn))
    # saved under another name, then again without name
    out = case.path('out')
    os.makedirs(out, exist_ok=True)
    q = os.path.join(out, os.path.basename(a.fn))
    orig = data(a.fn)
    w = case.attempt('write', lambda: f.write(q))
    case.check(os.path.exists(a.fn) and data(a.fn) == orig, 'other-name', '{}: saving under another name changed the file that was read'.format(tag))
    if isinstance(w, Raised):
        case.sig(tag, 'unwritten')
        return
    case.check(f.filename == q, 'file-name', '{}: {!r} instead of {!r} after writing'.format(tag, f.filename, q))
    if not case.check(os.path.exists(q), 'other-name', '{}: no file written'.format(tag)):
        return
    first = len(data(q))
    os.remove(q)
    w = case.attempt('write-again', f.write)
    if case.check(not isinstance(w, Raised) and os.path.exists(q), 'last-name', '{}: saving again without name: {!r}, file {}'.format(tag, w, os.path.exists(q))):
        case.check(abs(len(data(q)) - first) <= 0.1 * first + 64, 'last-name', '{}: {} bytes the second time instead of {}'.format(tag, len(data(q)), first))
        case.check(data(a.fn) == orig, 'other-name', '{}: saving again without name changed the file that was read'.format(tag))
        g = case.attempt('read-new', lambda: C(q, **a.kw))
        if not isinstance(g, Raised):
            if rnd.random() < 0.5:
                # the file read without name is the one named last: not the original
                os.remove(a.fn)
            r = case.attempt('read-nameless', lambda: f.read(**a.kw))
            if case.check(not isinstance(r, Raised), 'last-name', '{}: reading again the file that was written: {!r}'.format(tag, r)):
                new = frames(case.attempt('df', g.toDataFrame))
                m = same(new, frames(case.attempt('df', f.toDataFrame)))
                case.check(m is None, 'last-name', '{}: reading again the file that was written: {}'.format(tag, m))
    case.sig(tag, 'written', a.fn == q)


def wl_relative(case):
    """names relative to the working directory, with and without folder"""
    rnd = case.rnd
    a = pick(case)
    C, tag = anyfile.cls(a.clsname), '{} {}'.format(a.clsname, a.kind)
    f = case.attempt('read', a.read)
    if isinstance(f, Raised):
        case.sig(tag, 'unread')
        return
    ref = frames(case.attempt('df', f.toDataFrame))
    out = case.path('out')
    os.makedirs(out)
    q = os.path.join(out, os.path.basename(a.fn))
    w = case.attempt('write', lambda: f.write(q))
    g = None if isinstance(w, Raised) else case.attempt('reread', lambda: C(q, **a.kw))
    old = os.getcwd()
    how = rnd.choice(['bare', 'folder', 'dot', 'up'])
    d = os.path.dirname(a.fn)
    try:
        if how == 'folder':
            os.chdir(os.path.dirname(d))
            rel, wrel = [os.path.join(os.path.basename(d), x + os.path.basename(a.fn)) for x in ('', 'w')]
        else:
            os.chdir(d)
            pre = {'bare': '', 'dot': '.' + os.sep, 'up': os.path.join('..', os.path.basename(d), '')}[how]
            rel, wrel = pre + os.path.basename(a.fn), pre + 'w' + os.path.basename(a.fn)
        before = set(snap(case.dir))
        r = case.attempt('read-relative', lambda: C(rel, **a.kw))
        if case.check(not isinstance(r, Raised), 'relative-read', '{} {}: {!r}'.format(tag, rel, r)):
            case.check(r.filename == rel, 'file-name', '{}: {!r} instead of {!r}'.format(tag, r.filename, rel))
            m = same(ref, frames(case.attempt('df', r.toDataFrame)))
            case.check(m is None, 'relative-read', '{}: {} reads something else: {}'.format(tag, rel, m))
            w2 = case.attempt('write-relative', lambda: r.write(wrel))
            case.check(isinstance(w2, Raised) == isinstance(w, Raised), 'relative-write', '{}: writing {} gives {!r}, writing with the full name {!r}'.format(tag, wrel, w2, w))
            if not isinstance(w2, Raised):
                case.check(r.filename == wrel, 'file-name', '{}: {!r} instead of {!r} after writing'.format(tag, r.filename, wrel))
                if case.check(os.path.exists(wrel), 'relative-write', '{}: {} not written'.format(tag, wrel)) and not isinstance(g, Raised):
                    h = case.attempt('reread-relative', lambda: C(wrel, **a.kw))
                    if case.check(not isinstance(h, Raised), 'relative-write', '{}: {!r}'.format(tag, h)):
                        m = same(frames(case.attempt('df', g.toDataFrame)), frames(case.attempt('df', h.toDataFrame)))
                        case.check(m is None, 'relative-write', '{}: {} differs from the file written with the full name: {}'.format(tag, wrel, m))
                new = {os.path.dirname(x) for x in set(snap(case.dir)) - before}
                case.check(all(os.path.realpath(x).startswith(os.path.realpath(d)) for x in new), 'relative-write', '{}: files written in {}'.format(tag, new))
    finally:
        os.chdir(old)
    case.desc = dict(file=tag, how=how)
    case.sig(tag, how, isinstance(w, Raised))


# --- self-tests
def tokens(text):
    return [l.split() for l in text.splitlines()]


NAMES = ['a.dat', 'b.txt', 'model.v2.dat', 'x.y/noext', 'x.y/n.TXT', 'noext', 'sub dir/a b.out', '.hidden', 'c_TMP.dat', 'A..dat']
HOW = ['same', 'same', 'blanks', 'tabs', 'noeol', 'extra', 'blankline', 'change', 'order', 'join', 'fail', 'unreadable', 'second', 'drop', 'case', 'empty']


def text_of(rnd):
    L = []
    for _ in range(rnd.choice([1, 2, 3, 8, 30])):
        L.append(rnd.choice(['', ' ', '\t']) + ('first ' if not L else '') + rnd.choice([' ', '  ', '\t', ' \t ']).join(rnd.choice(['aa', 'bb', '1.0', '-2', 'x_y', '"q"', '!', '#c']) for _ in range(rnd.choice([0, 1, 2, 5]))) + rnd.choice(['', ' ']))
    return L


def mangle(rnd, how, L):
    """the text that is written, for the lines that were read"""
    L = list(L)
    i = rnd.randrange(len(L))
    full = [k for k, l in enumerate(L) if l.split()]
    if how == 'blanks':
        L = [rnd.choice(['', '  ']) + '   '.join(l.split()) + rnd.choice(['', ' ']) for l in L]
    elif how == 'tabs':
        L = ['\t'.join(l.split()) for l in L]
    elif how == 'extra':
        L.insert(i, 'new line')
    elif how == 'blankline':
        L.insert(i, '')
    elif how == 'change' and full:
        k = rnd.choice(full)
        L[k] = L[k].rstrip() + '0'
    elif how == 'case' and full:
        k = rnd.choice(full)
        L[k] = L[k].swapcase()
    elif how == 'order':
        L.reverse()
    elif how == 'join' and full:
        k = rnd.choice(full)
        L[k] = ''.join(L[k].split())
    elif how == 'drop':
        del L[i]
    return '\n'.join(L) + ('' if how == 'noeol' else '\n')


def wl_selftest(case):
    from weio.file import File, WrongFormatError
    rnd = case.rnd
    name, how = rnd.choice(NAMES), rnd.choice(HOW)
    L = text_of(rnd)
    p = case.path(name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w', newline='') as f:
        f.write(rnd.choice(['\n', '\n', '\r\n']).join(L) + '\n')
    orig = data(p)
    texts = [mangle(rnd, how, L) for _ in range(1)] * 2
    if how == 'empty':
        texts = ['', '']
    if how == 'second':
        texts = ['\n'.join(L) + '\n', '\n'.join(L) + '\nmore\n']
    done = []

    class Plan(File):
        def _read(self):
            if how == 'unreadable' and os.path.basename(self.filename) != os.path.basename(p):
                raise WrongFormatError('unreadable')
            with open(self.filename) as f:
                self['lines'] = f.read()

        def _write(self):
            if how == 'fail':
                raise ValueError('cannot be written')
            with open(self.filename, 'w') as f:
                f.write(texts[min(len(done), 1)])
            done.append(self.filename)

    root, ext = os.path.splitext(p)
    tmp = root + '_TMP' + ext
    dele = rnd.random() < 0.5
    others = {os.path.join(case.dir, 'bystander.dat'), os.path.join(os.path.dirname(p), 'TMP' + ext)}
    for o in others:
        with open(o, 'w') as f:
            f.write('bystander')
    before = set(snap(case.dir))
    f = case.call('read', Plan, p)
    op = rnd.choice(['write_read', 'ascii', 'ascii', 'ascii-writes'])
    case.desc = dict(name=name, how=how, op=op, delete=dele)
    bad = how in ('fail', 'unreadable', 'empty')
    if op == 'write_read':
        r = case.attempt('test_write_read', lambda: f.test_write_read(bDelete=dele))
        if case.check(isinstance(r, Raised) == bad, 'verdict', '{} {}: {!r}'.format(op, how, r)) and not bad:
            case.check(r == tmp, 'copy-name', '{!r} instead of {!r}'.format(r, tmp))
            case.check(os.path.exists(tmp) == (not dele), 'copies', '{}: deletion {}, copy {}'.format(op, dele, os.path.exists(tmp)))
    else:
        wo = op == 'ascii-writes'
        r = case.attempt('test_ascii', lambda: f.test_ascii(bCompareWritesOnly=wo, bDelete=dele))
        differ = bad or (tokens(texts[0]) != tokens(texts[1]) if wo else tokens(texts[0]) != [l.split() for l in L])
        case.check(isinstance(r, Raised) == differ, 'verdict', '{} {}: {!r}'.format(op, how, r))
        if not differ:
            case.check(os.path.exists(tmp) == (not dele), 'copies', '{}: deletion {}, copy {}'.format(op, dele, os.path.exists(tmp)))
    if not (bad and how == 'fail') and done:
        case.check(done[0] == tmp, 'copy-name', 'copy written to {!r} instead of {!r}'.format(done[0], tmp))
    case.check(os.path.exists(p) and data(p) == orig, 'original', '{} {}: the original was changed or removed'.format(op, how))
    after = set(snap(case.dir))
    case.check(before <= after, 'original', '{}: removed {}'.format(op, sorted(before - after)))
    case.check(all(os.path.basename(x).startswith(os.path.basename(root) + '_TMP') for x in after - before), 'copies', '{}: created {}'.format(op, sorted(after - before)))
    if dele and not isinstance(r, Raised):
        case.check(after == before, 'copies', '{}: copies left {}'.format(op, sorted(after - before)))
    case.sig(name, how, op, dele, isinstance(r, Raised), min(len(L), 3))


TEXT = ('CSVFile', 'FASTInputFile', 'TurbSimTSFile', 'FASTWndFile', 'TecplotFile', 'HAWC2HTCFile', 'HAWC2AEFile', 'HAWC2PCFile', 'HAWC2StFile', 'ROSCOPerformanceFile', 'FLEXProfileFile')


def wl_real(case):
    rnd = case.rnd
    a = pick(case)
    C, tag = anyfile.cls(a.clsname), '{} {}'.format(a.clsname, a.kind)
    if a.clsname == 'FASTOutputFile' and a.fn.endswith('.out'):
        text = True
    else:
        text = a.clsname in TEXT
    # the same steps, elsewhere
    d2 = case.path('d2')
    shutil.copytree(os.path.dirname(a.fn), d2)
    p2 = os.path.join(d2, os.path.basename(a.fn))
    root, ext = os.path.splitext(p2)
    g = case.attempt('read', lambda: C(p2, **a.kw))
    if isinstance(g, Raised):
        case.sig(tag, 'unread')
        return
    w = case.attempt('write', lambda: g.write(root + '_TMP' + ext))
    r = w if isinstance(w, Raised) else case.attempt('reread', lambda: g.read(root + '_TMP' + ext))
    ok = not isinstance(r, Raised)
    f = case.attempt('read', a.read)
    if isinstance(f, Raised):
        return
    orig, s0 = data(a.fn), snap(case.dir)
    tmp = os.path.splitext(a.fn)[0] + '_TMP' + ext
    dele = rnd.random() < 0.5
    if text and rnd.random() < 0.6 and b'|' not in orig:
        try:
            wo = rnd.random() < 0.4
            ta = orig.decode()
            if ok and wo:
                ta = data(root + '_TMP' + ext).decode()
                case.attempt('write2', lambda: g.write(root + '_TMP2' + ext))
                tb = data(root + '_TMP2' + ext).decode()
            elif ok:
                tb = data(root + '_TMP' + ext).decode()
        except (UnicodeDecodeError, OSError):
            case.sig(tag, 'not plain text')
            return
        equal = ok and tokens(ta) == tokens(tb)
        q = case.attempt('test_ascii', lambda: f.test_ascii(bCompareWritesOnly=wo, bDelete=dele))
        case.check(isinstance(q, Raised) == (not equal), 'verdict', '{}: test_ascii({}) gives {!r}, texts equal: {} (steps done separately: {!r})'.format(tag, wo, q, equal, r))
        what = 'ascii' + str(equal)
    else:
        q = case.attempt('test_write_read', lambda: f.test_write_read(bDelete=dele))
        case.check(isinstance(q, Raised) == (not ok), 'verdict', '{}: test_write_read gives {!r}, steps done separately {!r}'.format(tag, q, r))
        what = 'write_read' + str(ok)
    if not isinstance(q, Raised):
        case.check(os.path.exists(tmp) == (not dele), 'copies', '{}: {} deletion {}, copy {}'.format(tag, what, dele, os.path.exists(tmp)))
    case.check(os.path.exists(a.fn) and data(a.fn) == orig, 'original', '{}: {} changed or removed the file'.format(tag, what))
    s1 = snap(case.dir)
    for p in s0:
        if not case.check(s1.get(p) == s0[p], 'original', '{}: {} changed or removed {}'.format(tag, what, os.path.basename(p))):
            break
    case.check(all('_TMP' in os.path.basename(p) for p in set(s1) - set(s0)), 'copies', '{}: created {}'.format(tag, sorted(set(s1) - set(s0))))
    case.sig(tag, what, dele)
    case.desc = dict(file=tag, test=what, delete=dele)


WORKLOADS = [Workload('protocol', wl_protocol, 900, 9000), Workload('selftest', wl_selftest, 1500, 15000), Workload('real', wl_real, 500, 5000), Workload('relative', wl_relative, 500, 5000)]
