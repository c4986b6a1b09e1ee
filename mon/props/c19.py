"""C19: unusable files (missing, empty, cut short, damaged headers, foreign) are refused or give a part of the truth, never invented data."""
import contextlib
import os
import resource
import numpy as np
import pandas as pd
from ..core import Workload, Raised
from ..gen import anyfile, fastout, wind, hawc2

TECHNIQUE = 'runtime monitoring with fault injection: files of every format are removed, emptied, cut at random bytes/lines, given wrong header counts or replaced by foreign content; a monitor compares what the reader still returns with the undamaged content and watches the kind of error'
RULE = 'A case is one file of one format (example or generated) with one or several damages (kinds: missing, empty, cut at a byte or line, header counts changed, foreign content); distinct by (format, damage, outcome).'
ASSUME = ['Formats without any record of their length (FLEX version 3 channels, tables in text) may be cut at a record boundary without notice: the remaining records have to be right.',
          'In a text file cut inside a line the last record may be shortened; all earlier ones have to be right.', 'Any exception except naming errors of the code itself (NameError, UnboundLocalError) counts as a refusal.']


def frames(case, f):
    """{name: (columns, values)} of whatever the object converts to; None when the conversion is refused"""
    r = case.attempt('toDataFrame', f.toDataFrame)
    if isinstance(r, Raised):
        internal(case, r, 'conversion')
        return None
    if r is None:
        return {}
    d = {'': r} if isinstance(r, pd.DataFrame) else r
    return {k: ([str(c) for c in v.columns], v.values) for k, v in d.items() if isinstance(v, pd.DataFrame)}


def internal(case, r, what):
    case.check(not isinstance(r.exc, NameError), 'internal-error', '{}: {!r}'.format(what, r))


def same1(x, y):
    if x == y or (x != x and y != y) or str(x).strip() == str(y).strip():
        return True
    try:
        return abs(float(x) - float(y)) <= 1e-11 * abs(float(y))
    except (TypeError, ValueError):
        return False


def eq(a, b):
    """elementwise equality, nan equal to nan"""
    if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
        a, b = a.astype(float), b.astype(float)
        return (a == b) | (np.abs(a - b) <= 1e-11 * np.abs(b)) | (np.isnan(a) & np.isnan(b))
    return np.array([[same1(x, y) for x, y in zip(r, s)] for r, s in zip(a, b)], bool).reshape(a.shape)


def part_of(case, a, got, full, what, inline):
    """every frame of the damaged file is a leading part of the frame of the whole file"""
    for k, (c, v) in got.items():
        if k not in full:
            continue
        C, V = full[k]
        nr, nc = min(len(v), len(V)), min(len(c), len(C))
        ok = len(v) <= len(V) and len(c) <= len(C) and c[:nc] == C[:nc]
        if inline and a.clsname == 'CSVFile':
            continue  # the separator is guessed from the lines, one of them is cut
        if not case.check(ok or (inline and len(v) <= 1), 'not-a-part', '{}: {} has {} x {} values {}, whole file {} x {} {}'.format(what, k, v.shape[0], v.shape[1], c[:3], V.shape[0], V.shape[1], C[:3])):
            continue
        m = nr - 1 if inline else nr
        if m > 0 and nc > 0 and ok:
            e = eq(v[:m, :nc], V[:m, :nc])
            if inline and v.shape[0] == 1:
                e = e[:, :-1]
            case.check(bool(np.all(e)), 'invented', lambda: '{}: {} value {} of {} where the whole file has {}'.format(what, k, v[:m, :nc][~e][0], tuple(np.argwhere(~e)[0]), V[:m, :nc][~e][0]))


def damage(case, a, n):
    rnd = case.rnd
    f = case.attempt('read', a.read)
    if isinstance(f, Raised):
        case.check(not a.kind.startswith('example'), 'example', '{} cannot be read: {!r}'.format(a.kind, f))
        return
    full = frames(case, f)
    raw = open(a.payload, 'rb').read()
    text = b'\0' not in raw and a.clsname not in ('FLEXOutFile', 'MannBoxFile', 'TurbSimFile') and not a.fn.endswith(('.outb', '.xlsx', '.parquet')) and a.kind not in ('hawc2', 'bladed')
    if a.kind in ('hawc2', 'bladed') or a.clsname in ('BladedFile', 'HAWC2DatFile'):
        text = all(b in b'0123456789+-.eE \t\r\nNaInfd' for b in raw)
    utf16 = raw[:2] in (b'\xff\xfe', b'\xfe\xff')
    v3 = a.clsname == 'FLEXOutFile' and getattr(f, 'Version', 3) == 3
    ends = [i + 1 for i, b in enumerate(raw) if b == 10] if text else []
    for _ in range(n):
        inline = utf16
        if text:
            if ends and rnd.random() < 0.7:
                cut = rnd.choice(ends[-5:] if rnd.random() < 0.3 else ends)
            else:
                cut = rnd.randrange(1, len(raw)) if len(raw) > 1 else 1
                inline = True
        else:
            cut = len(raw) - rnd.choice([1, 2, 3, 4, 8, rnd.randint(1, max(1, len(raw) - 1)), rnd.randint(1, max(1, len(raw) // 4))])
            cut = max(cut, 1)
        if cut >= len(raw):
            continue
        with open(a.payload, 'wb') as fid:
            fid.write(raw[:cut])
        r = case.attempt('read damaged', limited(a.read))
        what = '{} ({} bytes) cut at byte {}'.format(a.kind, len(raw), cut)
        if isinstance(r, Raised):
            internal(case, r, what)
            case.sig(a.clsname, a.kind, 'cut', type(r.exc).__name__)
            continue
        got = frames(case, r)
        case.sig(a.clsname, a.kind, 'cut', 'accepted')
        if v3:
            # channel after channel, and the length is not recorded: only a loss of whole records can go unnoticed
            left = (2 * f.nt * f.nSensors - (len(raw) - cut)) // 2
            case.check(left < 0 or left % f.nSensors == 0, 'cut-accepted', '{}: accepted, although {} values cannot belong to {} channels'.format(what, left, f.nSensors))
        if got is None or full is None or v3 or (inline and a.clsname == 'FASTSummaryFile'):  # (frames of summary files are derived)
            continue
        part_of(case, a, got, full, what, inline)
        if not text and sized(a):
            case.fail('cut-accepted', '{}: accepted, {} bytes missing from data of declared size'.format(what, len(raw) - cut))
    with open(a.payload, 'wb') as fid:
        fid.write(raw)
    case.desc = dict(kind=a.kind, cls=a.clsname, size=len(raw), text=bool(text))


def sized(a):
    """binary formats whose headers tell the amount of data"""
    return a.clsname in ('TurbSimFile', 'MannBoxFile', 'HAWC2DatFile', 'BladedFile') or (a.clsname == 'FASTOutputFile' and a.fn.endswith('.outb'))


def wl_cut_example(case):
    name, c = case.item
    if c == 'BladedFile' and '.%' in name or name.endswith('.$PJ') or name.endswith('.sel') or c == 'RAAWMatFile':
        case.desc = dict(kind='header', skipped=True)
        return
    damage(case, anyfile.example(case, name, c), 12)


def wl_cut_generated(case):
    damage(case, anyfile.generated(case), 8)


# ------------------------------------------------------------------------------------------------ missing and empty
def wl_absent(case):
    import weio
    rnd = case.rnd
    c = case.item
    C = anyfile.cls(c)
    exts = [e.replace('*', '1') for e in C.defaultExtensions()]
    ex = [(n, k) for n, k in anyfile.examples() if k == c and not n.endswith('.$PJ')]
    for i in range(8):
        ext = rnd.choice(exts)
        ext = rnd.choice([ext, ext.upper(), ext])
        stem = rnd.choice(['a', 'with space', 'dot.ted', 'b_u8000', 'é', 'c_3x3x3'])
        how = rnd.choice(['missing', 'dir', 'folder', 'empty', 'empty'])
        fn = case.path(os.path.join('nodir' if how == 'dir' else 'd{}'.format(i), stem + ext))
        if how != 'dir':
            os.makedirs(os.path.dirname(fn), exist_ok=True)
        if how == 'folder':
            os.makedirs(fn, exist_ok=True)
        if how == 'empty':
            open(fn, 'wb').close()
        calls = [('constructor', lambda: C(filename=fn)), ('constructor-positional', lambda: C(fn)), ('read with the format', lambda: weio.read(fn, [f for f in weio.fileFormats() if f.constructor is C][0]))]
        if ex and rnd.random() < 0.5:
            a = anyfile.example(case, *rnd.choice(ex), sub='ex')
            f = case.attempt('read', a.read)
            if not isinstance(f, Raised):
                calls.append(('read on a used object', lambda: f.read(fn)))
        ext_l = os.path.splitext(fn)[1].lower()
        known = any(ext_l in [e.lower() for e in f.extensions] for f in weio.fileFormats())
        if known:
            calls.append(('weio.read', lambda: weio.read(fn)))
        for nm, call in calls:
            r = case.attempt(nm, call)
            case.sig(c, how, nm, ext_l, type(getattr(r, 'exc', r)).__name__)
            what = '{} {} of {} file {}'.format(c, nm, how, os.path.basename(fn))
            if not case.check(isinstance(r, Raised), 'accepted', what + ': no error'):
                continue
            if how == 'empty':
                case.check(isinstance(r.exc, weio.EmptyFileError), 'empty-error', '{}: {!r}'.format(what, r))
            else:
                case.check(isinstance(r.exc, FileNotFoundError), 'missing-error', '{}: {!r}'.format(what, r))
        case.check(os.path.exists(fn) == (how in ('folder', 'empty')), 'created', '{}: reading a {} file left something'.format(c, how))
    r = case.attempt('read()', lambda: C().read())
    case.check(isinstance(r, Raised) and not isinstance(r.exc, NameError), 'no-name', '{}().read() without a file name: {!r}'.format(c, r))
    case.desc = dict(cls=c)


# ------------------------------------------------------------------------------------------------ header counts
def wl_counts(case):
    """headers that announce more data than there is"""
    rnd = case.rnd
    k = rnd.choice(['outb', 'bts', 'mann', 'hawc2'])
    if k == 'outb':
        b, t = fastout.gen_binary(case)
        b = bytearray(b)
        ID = int(np.frombuffer(bytes(b[:2]), '<i2')[0])
        off = 2 + (2 if ID == 4 else 0)
        which = 1
        v = np.frombuffer(bytes(b[off + 4 * which:off + 4 * which + 4]), '<i4')[0] + rnd.choice([1, 1, 2, 10, 1000])
        b[off + 4 * which:off + 4 * which + 4] = np.array([v], '<i4').tobytes()
        a = anyfile.Any(k, 'FASTOutputFile', case.write('a.outb', bytes(b)))
    elif k == 'bts':
        b, t = wind.gen_bts(case, ymin=2, zmin=2, tmin=2)
        b = bytearray(b)
        which = rnd.choice([0, 1, 2, 3])
        off = 2 + 4 * which
        v = np.frombuffer(bytes(b[off:off + 4]), '<i4')[0] + rnd.choice([1, 2, 10, 100])
        b[off:off + 4] = np.array([v], '<i4').tobytes()
        a = anyfile.Any(k, 'TurbSimFile', case.write('a.bts', bytes(b)))
    elif k == 'mann':
        b, f, N = wind.gen_mann(case)
        N = list(N)
        N[rnd.randrange(3)] += rnd.choice([1, 2, 30])
        a = anyfile.Any(k, 'MannBoxFile', case.write('a.u', b), kw=dict(N=tuple(N)))
    else:
        h = hawc2.gen(case)
        h.nsc += rnd.choice([1, 2, 50])
        hawc2.write(case, h, 'a')
        a = anyfile.Any(k, 'HAWC2DatFile', case.path('a.dat'))
    r = case.attempt('read', limited(a.read))
    case.sig(k, type(getattr(r, 'exc', r)).__name__)
    case.desc = dict(kind=k)
    if k == 'hawc2' and not isinstance(r, Raised):
        g = frames(case, r)
        case.check(g is None or len(g[''][1]) < h.nsc, 'invented-rows', 'the .sel file announces {} scans, {} are stored, {} are returned'.format(h.nsc, h.q.shape[0] if h.q is not None else '?', len(g[''][1]) if g else 0))
        return
    if case.check(isinstance(r, Raised), 'counts-accepted', '{}: header announces more data than stored, accepted'.format(k)):
        internal(case, r, k)


# ------------------------------------------------------------------------------------------------ foreign content
def junk(rnd):
    k = rnd.choice(['bytes', 'zeros', 'text', 'numbers', 'lines', 'one', 'utf16', 'ff', 'example'])
    if k == 'bytes':
        return k, bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 2, 3, 7, 50, 400])))
    if k == 'zeros':
        return k, b'\0' * rnd.choice([1, 2, 3, 4, 50, 2000])
    if k == 'ff':
        return k, b'\xff' * rnd.choice([1, 2, 4, 33, 500])
    if k == 'text':
        return k, '\n'.join(' '.join(rnd.choice(['the', 'x', '1', '#', '---', 'begin', 'exit;', '=', ',', ';', '"', "'", '%', 'nan', 'True', ':', '-', '1e999', '[', '!']) for _ in range(rnd.randint(0, 8))) for _ in range(rnd.randint(1, 30))).encode()
    if k == 'numbers':
        return k, '\n'.join(' '.join(rnd.choice(['0', '1', '2.5', '-3', '1e5', '100000', '-1', 'nan']) for _ in range(rnd.randint(1, 6))) for _ in range(rnd.randint(1, 30))).encode()
    if k == 'lines':
        return k, rnd.choice([b'\n', b'\r\n', b' \n', b'\t\n', b'#\n', b'!\n']) * rnd.choice([1, 2, 5, 40])
    if k == 'one':
        return k, rnd.choice([b'\n', b' ', b'#', b'1', b'a', b'\xef\xbb\xbf', b'-', b'!', b'%', b'\x1a'])
    if k == 'utf16':
        return k, 'some text\nin another encoding 1 2 3\n'.encode('utf-16')
    return k, None


class OverLimit(Exception):
    """the reader asked for more memory than the limit set for damaged files: a refusal"""


def limited(fn):
    def g():
        with memory_limit():
            try:
                return fn()
            except MemoryError as e:
                raise OverLimit(str(e)) from None
    return g


@contextlib.contextmanager
def memory_limit():
    """damaged headers may ask for any amount of memory: refuse it instead of exhausting the machine"""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def wl_foreign(case):
    import weio
    rnd = case.rnd
    c = case.item if case.item is not None else rnd.choice(list(anyfile.MOD))
    C = anyfile.cls(c)
    for i in range(12):
        k, b = junk(rnd)
        if b is None:
            n, o = rnd.choice(anyfile.examples(200000))
            b = open(os.path.join(anyfile.EXAMPLES, n), 'rb').read()
            k = 'example ' + n
        if not b:
            continue
        ext = rnd.choice(C.defaultExtensions()).replace('*', '2')
        fn = case.write('j{}{}'.format(i, ext), b)
        r = case.attempt('foreign', limited(lambda: C(fn)))
        case.sig(c, k, type(getattr(r, 'exc', r)).__name__)
        if isinstance(r, Raised):
            internal(case, r, '{} of {} {!r}'.format(c, k, b[:60]))
        with open(fn, 'rb') as fid:
            case.check(fid.read() == b, 'changed', '{}: reading changed the file'.format(c))
    case.desc = dict(cls=c)


WORKLOADS = [Workload('absent', wl_absent, 1, 18, fixed=lambda: list(anyfile.MOD)),
             Workload('cut-example', wl_cut_example, 1, 24, fixed=anyfile.examples),
             Workload('cut-generated', wl_cut_generated, 1000, 24000),
             Workload('counts', wl_counts, 600, 12000),
             Workload('foreign', wl_foreign, 600, 12000)]
