"""C01: automatic detection picks the first accepting format in priority order."""
import fnmatch
import os
import shutil
import sys
import numpy as np
from ..core import Workload, Raised, NoAnswer, EXAMPLES, REPO
from ..compare import freeze, same
from ..gen import fastout, csvtab, fastin, wind, anyfile
from ..gen.util import names as mknames

TECHNIQUE = ('runtime monitoring: recorded constructor traces of instrumented user formats and brute-force reference detection (every registered reader tried directly) '
             'checked against weio.detectFormat/read over random registries, contents, extensions and histories')
RULE = ('A case is a registry (library formats plus 0-6 user modules with random extensions, priorities, verdicts) and a sequence of detections/readings on example, generated, renamed and hostile files; '
        'every detection is compared with a brute-force search over the registered readers and with the recorded order of constructor calls; distinct by (extension, formats tried, outcome).')
ASSUME = ['User formats with the same priority may be registered in any order relative to each other (directory order).',
          'Formats given the same priority as library formats come after them (order of registration).']

# priorities of the library formats (documented order: generic tables first, then per-software groups)
PRIO = dict(CSVFile=0, ExcelFile=0, TecplotFile=10, BladedFile=10, FASTInputFile=20, FASTOutputFile=20, FASTWndFile=20, FASTLinearizationFile=20,
            FASTSummaryFile=20, TurbSimTSFile=20, TurbSimFile=20, HAWC2DatFile=30, HAWC2HTCFile=30, HAWC2StFile=30, HAWC2PCFile=30, HAWC2AEFile=30,
            HAWCStab2PwrFile=30, HAWCStab2IndFile=30, HAWCStab2CmbFile=30, MannBoxFile=30, FLEXBladeFile=40, FLEXProfileFile=40, FLEXOutFile=40,
            FLEXWaveKinFile=40, FLEXDocFile=40, BModesOutFile=50, ROSCOPerformanceFile=50, NetCDFFile=60, VTKFile=60, TDMSFile=60, ParquetFile=60,
            CactusFile=70, RAAWMatFile=70)
ORDER = list(PRIO)
# what is registered for which extension (the table shown to users in the README / format list)
EXT = {'.csv': 'CSVFile', '.xlsx': 'ExcelFile', '.outb': 'FASTOutputFile', '.fst': 'FASTInputFile', '.wnd': 'FASTWndFile', '.lin': 'FASTLinearizationFile', '.bts': 'TurbSimFile',
       '.htc': 'HAWC2HTCFile', '.sel': 'HAWC2DatFile', '.pwr': 'HAWCStab2PwrFile', '.ind': 'HAWCStab2IndFile', '.res': 'FLEXOutFile', '.int': 'FLEXOutFile', '.vtk': 'VTKFile',
       '.parquet': 'ParquetFile', '.bld': 'FLEXBladeFile', '.bla': 'FLEXBladeFile', '.pro': 'FLEXProfileFile', '.wko': 'FLEXWaveKinFile'}

USER = '''
from weio.file import File, WrongFormatError, BrokenFormatError, EmptyFileError
class Sub{name}Error(WrongFormatError):
    pass
class {name}File(File):
    @staticmethod
    def defaultExtensions():
        return {ext!r}
    @staticmethod
    def formatName():
        return 'User format {name}'
{prio}
    def _read(self, **kwargs):
        import builtins
        builtins._weio_mon_log.append('{name}File')
        with open(self.filename, encoding='latin-1') as f:
            s = f.read()
        v = s.split('##{name}=')[1].split()[0] if '##{name}=' in s else {default!r}
        if v == 'wrong':
            raise WrongFormatError('{name} says wrong')
        if v == 'wrongsub':
            raise Sub{name}Error('{name} says wrong')
        if v == 'broken':
            raise BrokenFormatError('{name} says broken')
        if v == 'value':
            raise ValueError('{name} says value')
        if v == 'mem':
            raise MemoryError('{name} says mem')
        if v == 'key':
            raise KeyError('{name} says key')
        self['content'] = s
        self['kw'] = dict(kwargs)
    def _toDataFrame(self):
        import pandas as pd
        return pd.DataFrame(dict(a=[len(self['content'])]))
'''
PR = '    @staticmethod\n    def priority():\n        return {}\n'
VERDICTS = ['ok', 'wrong', 'wrong', 'wrongsub', 'broken', 'value', 'mem', 'key']
COUNT = [0]


def fresh():
    """import the library anew, with an empty cache of formats"""
    for m in [m for m in sys.modules if m == 'weio' or m.startswith('weio.')]:
        del sys.modules[m]
    import weio
    if not os.path.realpath(weio.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise NoAnswer('weio imported from ' + weio.__file__)
    import builtins
    builtins._weio_mon_log = []
    return weio


def log():
    import builtins
    L = list(builtins._weio_mon_log)
    del builtins._weio_mon_log[:]
    return L


def state(x):
    return ('state', type(x).__name__, freeze(dict(x)) if isinstance(x, dict) else None, freeze(getattr(x, '__dict__', {})))


def matches(ext, patterns):
    return any(fnmatch.fnmatchcase(ext, p.lower()) for p in patterns if p.startswith('.'))


def run(fn, *a, **k):
    """outcome of a call, MemoryError included"""
    try:
        return fn(*a, **k)
    except Exception as e:
        return Raised(e)


def show(r):
    return repr(r) if isinstance(r, Raised) else type(r[-1] if isinstance(r, tuple) else r).__name__


def reference(weio, formats, fn, **kw):
    """brute force: (format, object or Raised, list of names tried)"""
    ext = os.path.splitext(os.path.basename(fn))[1].lower()
    tried = []
    for f in formats:
        if not matches(ext, f.extensions):
            continue
        tried.append(f.constructor.__name__)
        r = run(f.constructor, filename=fn, **kw)
        if isinstance(r, Raised):
            if isinstance(r.exc, weio.WrongFormatError):
                continue
            return None, r, tried
        return f, r, tried
    return None, None, tried


def observe(case, weio, formats, fn, users=(), tag='', **kw):
    """one detection + one reading, judged"""
    log()
    rf, robj, tried = reference(weio, formats, fn, **kw)
    log()
    got = run(weio.detectFormat, fn, **kw)
    calls = log()
    case.event('detectFormat', 'ok' if not isinstance(got, Raised) else type(got.exc).__name__)
    base = os.path.basename(fn)
    ext = os.path.splitext(base)[1].lower()
    case.sig(ext, tuple(tried), type(robj).__name__ if not isinstance(robj, Raised) else type(robj.exc).__name__, len(kw))
    what = '{} {}(tried {})'.format(tag, base, tried)
    if rf is not None:
        if not case.check(not isinstance(got, Raised), 'detected', '{}: expected {}, got {}'.format(what, rf.name, show(got))):
            return
        f, F = got
        case.check(f.constructor is rf.constructor, 'first-accepting', '{}: expected {}, detected {}'.format(what, rf.constructor.__name__, f.constructor.__name__))
        case.check(isinstance(F, f.constructor), 'object', '{}: detection returns a {}'.format(what, type(F).__name__))
        d = same(state(robj), state(F))
        case.check(d is None, 'same-content', '{}: object of the detection differs from {}(filename): {}'.format(what, rf.constructor.__name__, d))
    elif robj is not None:
        case.check(isinstance(got, Raised) and type(got.exc) is type(robj.exc) and str(got.exc) == str(robj.exc), 'failure-reported',
                   '{}: reader failed with {!r}, detection gave {}'.format(what, robj, show(got)))
    else:
        case.check(isinstance(got, Raised) and isinstance(got.exc, weio.FormatNotDetectedError), 'not-detected', '{}: expected not-detected error, got {}'.format(what, show(got)))
    exp = [t for t in tried if t in users]
    calls = [c for i, c in enumerate(calls) if i == 0 or c != calls[i - 1]]
    case.check(calls == exp, 'trial-order', '{}: user readers tried {} expected {}'.format(what, calls, exp))
    # reading
    r = run(weio.read, fn, **kw)
    case.event('read', 'ok' if not isinstance(r, Raised) else type(r.exc).__name__)
    log()
    if rf is not None:
        if case.check(not isinstance(r, Raised), 'read', '{}: read gave {}'.format(what, show(r))):
            d = same(state(robj), state(r))
            case.check(d is None, 'read-content', '{}: read differs from {}(filename): {}'.format(what, rf.constructor.__name__, d))
        if kw or case.rnd.random() < 0.3:
            r = run(weio.read, fn, rf, **kw)
            if case.check(not isinstance(r, Raised), 'read-format', '{}: read with given format gave {}'.format(what, show(r))):
                d = same(state(robj), state(r))
                case.check(d is None, 'read-format-content', '{}: read with given format {}: {}'.format(what, rf.constructor.__name__, d))
    elif robj is not None:
        case.check(isinstance(r, Raised) and type(r.exc) is type(robj.exc), 'read-failure', '{}: reader failed with {!r}, read gave {}'.format(what, robj, show(r)))
    else:
        case.check(isinstance(r, Raised) and isinstance(r.exc, weio.FormatNotDetectedError), 'read-not-detected', '{}: expected not-detected error, read gave {}'.format(what, show(r)))


def judge_list(case, formats, users):
    """users: name -> priority"""
    nm = [f.constructor.__name__ for f in formats]
    for n in ORDER:
        case.check(nm.count(n) == 1, 'library-registered', '{} registered {} times'.format(n, nm.count(n)))
    for n in users:
        case.check(nm.count(n) == 1, 'user-registered', '{} registered {} times'.format(n, nm.count(n)))
    key = {n: (PRIO[n], 0, i) for i, n in enumerate(ORDER)}
    key.update({n: (p, 1, 0) for n, p in users.items()})
    seq = [key[n] for n in nm if n in key]
    case.check(seq == sorted(seq), 'priority-order', lambda: 'formats are in the order {}'.format([(n, key[n][0]) for n in nm if n in key]))
    for f in formats:
        n = f.constructor.__name__
        if n in users or n in PRIO:
            case.check(f.name == f.constructor.formatName() and list(f.extensions) == list(f.constructor.defaultExtensions()), 'format-attributes', '{}: {} {}'.format(n, f.name, f.extensions))
            if n in PRIO:
                for e, cls in EXT.items():
                    if cls == n:
                        case.check(matches(e, f.extensions), 'library-extension', '{} does not list {}'.format(n, e))


def pool():
    L = []
    for f in sorted(os.listdir(EXAMPLES)):
        p = os.path.join(EXAMPLES, f)
        if os.path.isfile(p) and '_TMP' not in f:
            L.append(f)
    return L


def copyex(case, name, new=None):
    """copy an example (and its companions) to the scratch directory, possibly with another name"""
    stem, ext = os.path.splitext(name)
    new = new or name
    nstem, next_ = os.path.splitext(new)
    shutil.copy(os.path.join(EXAMPLES, name), case.path(new))
    for f in os.listdir(EXAMPLES):
        s, e = os.path.splitext(f)
        if s == stem and f != name and not os.path.exists(case.path(nstem + e)):
            shutil.copy(os.path.join(EXAMPLES, f), case.path(nstem + e))
    return case.path(new)


def swapcase_ext(rnd, name):
    s, e = os.path.splitext(name)
    return s + ''.join(c.upper() if rnd.random() < 0.5 else c.lower() for c in e)


def generated(case, i):
    """(name, content) of a generated file"""
    rnd = case.rnd
    k = rnd.choice(['csv', 'csv', 'out', 'outb', 'in', 'bts', 'junk', 'text', 'vtk', 'any', 'any', 'any'])
    if k == 'any':
        a = anyfile.generated(case, stem=os.path.join('any{}'.format(i), 'g'))
        ext = os.path.splitext(a.fn)[1]
        with open(a.fn, 'rb') as fid:
            return ('h{}'.format(i) + ext) if not a.fn.endswith('.yaml') else 'h{}.SD.sum.yaml'.format(i), fid.read()
    if k == 'csv':
        T = csvtab.gen_table(case)
        return 'g{}.csv'.format(i), csvtab.render(case, T).encode()
    if k == 'out':
        return 'g{}.out'.format(i), b'\nPredictions were generated on today\n\nDescription\n\n Time  A\n (s)  (m)\n' + b''.join(b'%d %d\n' % (j, 2 * j) for j in range(rnd.randint(1, 9)))
    if k == 'outb':
        D = fastout.gen(case) if hasattr(fastout, 'gen') else None
        return 'g{}.outb'.format(i), bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 300)))
    if k == 'in':
        d = fastin.make(rnd, rnd.choice(['generic', 'tower', 'edblade', 'adblade', 'polar']))
        return 'g{}.{}'.format(i, rnd.choice(['dat', 'fst', 'txt'])), d.text().encode()
    if k == 'bts':
        return 'g{}.bts'.format(i), bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 300)))
    if k == 'junk':
        return 'g{}.{}'.format(i, rnd.choice(['dat', 'txt', 'out', 'sum', 'xyz', 'u', 'res', 'pro', '$PJ', '%12', 'nc', 'mat'])), bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 300)))
    if k == 'vtk':
        return 'g{}.vtk'.format(i), b'# vtk DataFile Version 3.0\nx\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 1 float\n0 0 0\n'
    return 'g{}.{}'.format(i, rnd.choice(['dat', 'txt', 'out', 'pwr', 'ind', 'htc', 'in', 'bogus', ''])).rstrip('.'), ('\n'.join(' '.join(rnd.choice(csvtab.WORDS) for _ in range(rnd.randint(1, 7))) for _ in range(rnd.randint(1, 12)))).encode()


# ---------------------------------------------------------------------------------------------- workloads
def wl_examples(case):
    """every example file, original and upper/mixed-case extension, with the library's registry"""
    weio = fresh()
    formats = list(case.call('fileFormats', weio.fileFormats))
    name = case.item
    fn = copyex(case, name)
    if case.index % 7 == 0:
        judge_list(case, formats, {})
    observe(case, weio, formats, fn)
    s, e = os.path.splitext(name)
    # companions of multi-file formats are found by name: only rename files that stand alone
    alone = not any(os.path.splitext(f)[0] == s and f != name for f in os.listdir(EXAMPLES))
    if alone:
        for new in (s + e.upper(), swapcase_ext(case.rnd, 'Case_' + name), 'dir.with.dots_' + s + '.v2' + e):
            fn2 = case.path(new)
            shutil.copy(fn, fn2)
            observe(case, weio, formats, fn2, tag='renamed')
            if not new.startswith(s + '.'):
                continue
            rf, _, _ = reference(weio, formats, fn)
            got = run(weio.detectFormat, fn2)
            case.check((rf is None) == isinstance(got, Raised) and (rf is None or got[0].constructor is rf.constructor), 'letter-case', '{} and {} detected differently'.format(name, new))
    observe(case, weio, formats, fn, tag='again')
    case.desc = dict(file=name)


def wl_history(case):
    """random sequences of detections and readings, with failures in between, on one registry"""
    rnd = case.rnd
    weio = fresh()
    formats = None
    small = [f for f in pool() if os.path.getsize(os.path.join(EXAMPLES, f)) < 60000]
    files = []
    for i in range(rnd.randint(3, 8)):
        if rnd.random() < 0.5:
            files.append(copyex(case, rnd.choice(small)))
        elif rnd.random() < 0.4:
            f = rnd.choice(small)
            e = rnd.choice(['.dat', '.txt', '.out', '.csv', '.00X', '.00x', '.bin', '.sum', '.xyz', '.DAT', '.Out', '.$99', '.%88', '.', ''])
            files.append(copyex(case, f, 'r{}'.format(i) + e))
        else:
            n, c = generated(case, i)
            files.append(case.write(n, c))
    if rnd.random() < 0.5:
        # first call is a detection: the registry is built on the fly
        run(weio.detectFormat, rnd.choice(files))
    formats = list(case.call('fileFormats', weio.fileFormats))
    judge_list(case, formats, {})
    for i in range(rnd.randint(4, 10)):
        fn = rnd.choice(files)
        if rnd.random() < 0.1:
            os.chdir(case.dir)
            fn = os.path.basename(fn)
        observe(case, weio, formats, fn, tag='step {}'.format(i))
        if rnd.random() < 0.2:
            f2 = list(weio.fileFormats())
            case.check([f.constructor for f in f2] == [f.constructor for f in formats], 'registry-stable', 'the list of formats changed')
    case.desc = dict(files=[os.path.basename(f) for f in files])


def make_users(case, folder, nmax=6, bad=False, exts=None):
    rnd = case.rnd
    os.makedirs(folder, exist_ok=True)
    users, info, nbad = {}, [], 0
    COUNT[0] += 1
    for i in range(rnd.randint(0 if bad else 1, nmax)):
        name = 'U{}x{}{}'.format(os.getpid(), COUNT[0], chr(97 + i)) + rnd.choice(['', '', 'Terrain', 'Err'])
        pool_ = exts or ['.xyz', '.xyz', '.abc', '.ab*', '.q1', '.dat', '.csv', '.txt', '.out', '.XyZ', '.vtk']
        ext = sorted(set(rnd.choice(pool_) for _ in range(rnd.choice([1, 1, 2, 3]))))
        k = rnd.random()
        if k < 0.25:
            pr, p = '', 2
        elif k < 0.3:
            pr, p = PR.format('1/0'), 2
        else:
            p = rnd.choice([-5, 0, 1, 2, 3, 10, 15, 20, 25, 30, 70, 71, 1000, 0.5])
            pr = PR.format(p)
        default = rnd.choice(VERDICTS) if rnd.random() < 0.4 else rnd.choice(['ok', 'wrong'])
        with open(os.path.join(folder, name.lower() + '_file.py'), 'w') as f:
            f.write(USER.format(name=name, ext=ext, prio=pr, default=default))
        users[name + 'File'] = p
        info.append((name, ext, p, default))
    if bad:
        for i in range(rnd.randint(1, 3)):
            k = rnd.choice(['syntax', 'noclass', 'import', 'noext'])
            txt = {'syntax': 'def f(:\n', 'noclass': 'x = 3\nclass Other:\n    pass\n', 'import': 'import a_module_that_is_not_there\n',
                   'noext': 'class Bad{}File:\n    @staticmethod\n    def formatName():\n        return "x"\n'.format(i)}[k]
            with open(os.path.join(folder, 'bad{}_{}_{}.py'.format(COUNT[0], i, k)), 'w') as f:
                f.write(txt)
            nbad += 1
    if rnd.random() < 0.3:
        open(os.path.join(folder, '__init__.py'), 'w').close()
    return users, info, nbad


def user_files(case, info, n):
    rnd = case.rnd
    files = []
    exts = sorted({e for _, ex, _, _ in info for e in ex}) or ['.xyz']
    for i in range(n):
        e = rnd.choice(exts)
        e = e.replace('*', rnd.choice(['', 'x', '12', 'cd']))
        if rnd.random() < 0.15:
            e = rnd.choice(['.nothing', '', '.xy', '.xyzz', '.ab', '.b'])
        mark = ''
        for name, _, _, _ in info:
            if rnd.random() < 0.7:
                mark += '##{}={} '.format(name, rnd.choice(VERDICTS) if rnd.random() < 0.5 else rnd.choice(['ok', 'wrong', 'wrong']))
        body = rnd.choice(['a,b\n1,2\n3,4\n', 'some text\nmore text\n', '1 2 3\n4 5 6\n', '# vtk DataFile Version 3.0\n'])
        fn = case.write('f{}{}'.format(i, swapcase_ext(rnd, 'x' + e)[1:]), body + mark + '\n')
        files.append((fn, e))
    return files


def wl_user(case):
    """user-defined formats with random extensions, priorities, verdicts, found in the user's data folder or in a given folder"""
    rnd = case.rnd
    weio = fresh()
    default = rnd.random() < 0.5
    old = os.environ.get('HOME')
    home = case.path('home')
    os.makedirs(home)
    os.environ['HOME'] = home
    try:
        folder = os.path.join(home, '.local', 'share', 'weio') if default else case.path('userformats')
        private = rnd.random() < 0.4
        users, info, _ = make_users(case, folder, exts=['.xyz', '.abc', '.ab*', '.q1'] if private else None)
        files = user_files(case, info, rnd.randint(2, 6))
        if default and rnd.random() < 0.5:
            run(weio.detectFormat, files[0][0])
        formats = case.call('fileFormats', weio.fileFormats, **({} if default else dict(userpath=folder)))
        formats = list(formats)
        judge_list(case, formats, users)
        for k in range(2):
            for fn, e in files:
                kw = dict(alpha=rnd.random()) if private and rnd.random() < 0.4 else {}
                observe(case, weio, formats, fn, users=users, tag='pass {}'.format(k), **kw)
        case.desc = dict(users=info, files=[os.path.basename(f) for f, _ in files])
    finally:
        os.environ['HOME'] = old


def wl_baduser(case):
    """folders with faulty user modules: reported or collected, never disturbing the others"""
    rnd = case.rnd
    weio = fresh()
    folder = case.path('userformats')
    users, info, nbad = make_users(case, folder, nmax=4, bad=True)
    first = rnd.random() < 0.5
    if first:
        r = run(weio.fileFormats, userpath=folder)
        case.event('fileFormats', 'ok' if not isinstance(r, Raised) else type(r.exc).__name__)
        case.check(isinstance(r, Raised) and isinstance(r.exc, weio.UserFormatImportError), 'bad-module-reported', 'faulty user module gave {!r:.300}'.format(r))
    r = case.call('fileFormats', weio.fileFormats, userpath=folder, ignoreErrors=True)
    if not case.check(isinstance(r, tuple) and len(r) == 2, 'ignore-errors', 'fileFormats(ignoreErrors=True) returned {}'.format(type(r).__name__)):
        return
    formats, errors = list(r[0]), list(r[1])
    case.check(len(errors) == nbad, 'errors-collected', '{} faulty modules, {} errors'.format(nbad, len(errors)))
    judge_list(case, formats, users)
    r2 = case.call('fileFormats', weio.fileFormats, userpath=folder, ignoreErrors=True)
    if case.check(isinstance(r2, tuple) and len(r2) == 2, 'ignore-errors', 'second fileFormats(ignoreErrors=True) returned {}'.format(type(r2).__name__)):
        case.check([f.constructor for f in r2[0]] == [f.constructor for f in formats], 'registry-stable', 'the list of formats changed')
    r3 = case.call('fileFormats', weio.fileFormats)
    case.check([f.constructor for f in r3] == [f.constructor for f in formats], 'registry-stable', 'the list of formats changed')
    for fn, e in user_files(case, info, rnd.randint(1, 4)):
        observe(case, weio, formats, fn, users=users, tag='bad')
    case.sig('bad', nbad, len(users))
    case.desc = dict(users=info, bad=nbad)


WORKLOADS = [Workload('examples', wl_examples, 1, 9, fixed=pool),
             Workload('history', wl_history, 360, 7500),
             Workload('user', wl_user, 480, 12000),
             Workload('baduser', wl_baduser, 180, 3000)]
