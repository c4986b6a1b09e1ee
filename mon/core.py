"""
Runner shared by all checks.

A property module (mon/props/cNN.py) exposes

    WORKLOADS = [Workload(name, fn, quick=<cases>, thorough=<cases>), ...]
    RULE      = text: how cases are made and what makes one non-trivial
    ASSUME    = [...]

`fn(case)` drives the real library (imported from /repo) with inputs drawn from `case.rng`, inside the private
scratch directory `case.dir`, and submits what it observed to oracles through `case.check(...)`.  Every call of the
library goes through `case.call(...)`, which records an event (operation, outcome) in the case's trace.

Verdict: exit 0 all oracles satisfied; exit 1 + VIOLATION line when an oracle was contradicted; any other exit code
means "no answer" (a workload observed nothing, a worker died, the machine ran out of resources).
"""
import argparse, collections, contextlib, hashlib, importlib, io, json, os, pickle, random, shutil, signal
import sys, tempfile, time, traceback, errno, multiprocessing, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WEIO_REPO', '/repo')
EXAMPLES = os.path.join(REPO, 'weio', 'tests', 'example_files')
CPU_LIMIT = 60         # seconds of CPU for one case
MEM_LIMIT = 3e9        # bytes of memory for one case


class Workload:
    def __init__(self, name, fn, quick=10, thorough=100, fixed=None):
        """`fixed`: callable returning a list of items; case i handles item i and every item is always run."""
        self.name, self.fn, self.quick, self.thorough, self.fixed = name, fn, quick, thorough, fixed

    def count(self, tier):
        n = self.thorough if tier == 'thorough' else self.quick
        if self.fixed is not None:
            n = len(self.fixed()) * max(1, n)
        return n


class Stop(Exception):
    """abandon the case (enough violations)"""


class NoAnswer(Exception):
    """environment trouble: neither verdict"""


class CaseTimeout(BaseException):
    pass


class Raised:
    """outcome of a library call that raised"""
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'Raised({}: {})'.format(type(self.exc).__name__, str(self.exc)[:200])


class Case:
    MAXV = 3

    def __init__(self, prop, wl, index, seed, tier, root):
        self.prop, self.workload, self.index, self.seed, self.tier = prop, wl.name, index, seed, tier
        key = '{}/{}/{}/{}'.format(prop, wl.name, index, seed)
        h = int.from_bytes(hashlib.sha256(key.encode()).digest()[:8], 'big')
        self.rnd = random.Random(h)
        import numpy as np
        self.rng = np.random.default_rng(h)
        self.item = None
        if wl.fixed is not None:
            items = wl.fixed()
            self.item = items[index % len(items)]
        self.dir = os.path.join(root, 'c_{}_{}'.format(wl.name, index))
        os.makedirs(self.dir)
        self.nchecks = 0
        self.clauses = collections.Counter()
        self.events = collections.Counter()
        self.trace = []
        self.violations = []
        self.sigs = set()
        self.desc = None
        self.note = {}

    # --- scratch files
    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, content, **kw):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(content, bytes):
            with open(p, 'wb') as f:
                f.write(content)
        else:
            kw = dict(dict(encoding='utf-8', errors='surrogateescape'), **kw)     # (characters such as \udcb0 denote single latin bytes)
            with open(p, 'w', newline='', **kw) as f:
                f.write(content)
        return p

    # --- observing
    def sig(self, *parts):
        self.sigs.add(repr(parts))

    def event(self, name, outcome='ok'):
        self.events[name + ':' + outcome] += 1
        if len(self.trace) < 60:
            self.trace.append((name, outcome))

    def call(self, name, fn, *a, **k):
        """Run a library operation that must succeed; an exception is a violation (clause '<name>-raises')."""
        r = self.attempt(name, fn, *a, **k)
        if isinstance(r, Raised):
            tb = ''.join(traceback.format_exception(type(r.exc), r.exc, r.exc.__traceback__)[-3:])
            self.fail(name + '-raises', '{} raised {!r}'.format(name, r), tb=tb)
            raise Stop()
        return r

    def attempt(self, name, fn, *a, **k):
        """Run a library operation that may fail; returns its result or a Raised."""
        try:
            r = fn(*a, **k)
        except CaseTimeout:
            raise
        except (MemoryError,) as e:
            raise NoAnswer('MemoryError in ' + name)
        except OSError as e:
            if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EIO, errno.ENOMEM):
                raise NoAnswer('{} in {}'.format(e, name))
            self.event(name, type(e).__name__)
            return Raised(e)
        except Exception as e:
            self.event(name, type(e).__name__)
            return Raised(e)
        except SystemExit as e:
            self.event(name, 'SystemExit')
            return Raised(e)
        self.event(name)
        return r

    # --- deciding
    def check(self, cond, clause, msg='', **detail):
        self.nchecks += 1
        self.clauses[clause] += 1
        if not bool(cond):
            if callable(msg):
                msg = msg()
            self._violate(clause, msg, detail)
        return bool(cond)

    def fail(self, clause, msg, **detail):
        self.nchecks += 1
        self.clauses[clause] += 1
        self._violate(clause, msg, detail)

    def _violate(self, clause, msg, detail):
        self.violations.append(dict(clause=clause, msg=str(msg)[:2000],
                                    detail={k: str(v)[:3000] for k, v in detail.items()}))
        if len(self.violations) >= self.MAXV:
            raise Stop()


_case = dict(start=0.0, over=None)


def _alarm(sig, frame):
    """every second of CPU: the case is stopped once it used too much CPU or memory (again and again: the library may swallow the exception)"""
    if time.process_time() - _case['start'] > CPU_LIMIT:
        _case['over'] = 'case used more than {} s of CPU'.format(CPU_LIMIT)
    else:
        try:
            with open('/proc/self/statm') as f:
                if int(f.read().split()[1]) * 4096 > MEM_LIMIT:
                    _case['over'] = 'case used more than {:.1f} GB of memory'.format(MEM_LIMIT / 1e9)
        except OSError:
            pass
    if _case['over']:
        raise CaseTimeout()


def load_weio():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import weio
    f = os.path.realpath(weio.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise NoAnswer('weio imported from {} instead of {}'.format(f, REPO))
    return weio


def run_case(prop, wl, index, seed, tier, root):
    case = Case(prop, wl, index, seed, tier, root)
    cwd = os.getcwd()
    res = dict(workload=wl.name, index=index)
    signal.signal(signal.SIGPROF, _alarm)
    _case.update(start=time.process_time(), over=None)
    signal.setitimer(signal.ITIMER_PROF, 1, 1)
    sink = io.StringIO()
    try:
        os.chdir(case.dir)
        with warnings.catch_warnings(), contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            warnings.simplefilter('ignore')
            try:
                wl.fn(case)
            except Stop:
                pass
            except NoAnswer as e:
                res['noanswer'] = str(e)
            except CaseTimeout:
                pass
            except MemoryError:
                res['noanswer'] = 'MemoryError'
            except OSError as e:
                if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EIO, errno.ENOMEM):
                    res['noanswer'] = repr(e)
                else:
                    case.violations.append(dict(clause='observation', msg='observing the result raised ' + repr(e)[:300],
                                                detail=dict(tb=traceback.format_exc()[-3000:])))
            except Exception as e:
                # The oracle could not make sense of what the library returned (wrong type, missing attribute ...)
                case.violations.append(dict(clause='observation', msg='observing the result raised ' + repr(e)[:300],
                                            detail=dict(tb=traceback.format_exc()[-3000:])))
    except CaseTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if _case['over']:
            case.violations.append(dict(clause='terminates', msg=_case['over'], detail={}))
        os.chdir(cwd)
        shutil.rmtree(case.dir, ignore_errors=True)
    res.update(nchecks=case.nchecks, clauses=case.clauses, events=case.events, violations=case.violations,
               sigs=[hashlib.sha1((wl.name + s).encode()).digest()[:8] for s in case.sigs],
               sample=dict(workload=wl.name, index=index, case=case.desc, checks=case.nchecks,
                           trace=['{}:{}'.format(*t) for t in case.trace[:12]], signature=sorted(case.sigs)[:3]),
               note=case.note)
    return res


def _worker(args):
    prop, modname, tasks, seed, tier, root, outfile, deadline, wid = args
    results = []
    try:
        os.environ['HOME'] = root
        os.environ['XDG_DATA_HOME'] = os.path.join(root, '.local', 'share')
        load_weio()
        mod = importlib.import_module(modname)
        wls = {w.name: w for w in mod.WORKLOADS}
        skipped = 0
        for name, i in tasks:
            if time.time() > deadline:
                skipped += 1
                continue
            results.append(run_case(prop, wls[name], i, seed, tier, root))
            nv = sum(len(r['violations']) for r in results)
            if nv > 40 or sum(v['clause'] == 'terminates' for r in results for v in r['violations']) > 1:
                break
        out = dict(results=results, skipped=skipped)
    except NoAnswer as e:
        out = dict(results=results, error=str(e))
    except Exception as e:
        # the library (or a property module) cannot even be imported
        out = dict(results=results, error='worker: ' + traceback.format_exc()[-3000:])
    with open(outfile, 'wb') as f:
        pickle.dump(out, f)


def load_known(prop):
    """known_findings.txt lines:  known: property=C05 key=<workload>/<clause>[/substring of message] :: text"""
    known = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known:'):
                head, _, text = line[6:].partition('::')
                d = dict(t.split('=', 1) for t in head.split() if '=' in t)
                if d.get('property') == prop:
                    known.append(dict(key=d['key'], text=text.strip(), hits=0))
    return known


def match_known(known, wl, v):
    for k in known:
        parts = k['key'].split('|')
        if parts[0] not in ('*', wl):
            continue
        if parts[1] != v['clause']:
            continue
        if len(parts) > 2 and v['detail'].get('mech') != parts[2]:
            continue
        return k
    return None


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--n', type=int)
    ap.add_argument('--index', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    t0 = time.time()
    budget = a.budget or (600 if tier == 'quick' else 800)
    modname = 'mon.props.' + prop.lower()
    root = tempfile.mkdtemp(prefix='weio_mon_{}_'.format(prop))
    try:
        return _main(a, prop, tier, t0, budget, modname, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _main(a, prop, tier, t0, budget, modname, root):
    os.environ['HOME'] = root
    os.environ['XDG_DATA_HOME'] = os.path.join(root, '.local', 'share')
    import_error = None
    tasks = []
    try:
        load_weio()
    except NoAnswer:
        raise
    except Exception:
        import_error = traceback.format_exc()[-2000:]
    mod = importlib.import_module(modname)
    seed = a.seed
    if a.replay:
        rp = json.load(open(a.replay))
        seed, tier = rp['seed'], rp['tier']
        tasks = [(rp['workload'], rp['index'])]
        a.jobs = 1
    else:
        for w in mod.WORKLOADS:
            if a.only and w.name not in a.only.split(','):
                continue
            n = a.n if (a.n is not None and w.fixed is None) else w.count(tier)
            if a.index is not None:
                tasks.append((w.name, a.index))
            else:
                tasks += [(w.name, i) for i in range(n)]
    # deterministic spreading of the cases over the workers
    order = list(range(len(tasks)))
    random.Random(12345).shuffle(order)
    tasks = [tasks[i] for i in order]
    jobs = max(1, min(a.jobs, len(tasks)))
    deadline = t0 + budget
    ctx = multiprocessing.get_context('fork')
    procs, outs = [], []
    sys.stdout.flush()
    for j in range(jobs):
        of = os.path.join(root, 'out_{}.pkl'.format(j))
        wr = os.path.join(root, 'w{}'.format(j))
        os.makedirs(wr)
        p = ctx.Process(target=_worker, args=((prop, modname, tasks[j::jobs], seed, tier, wr, of, deadline, j),))
        p.start()
        procs.append(p)
        outs.append(of)
    for p in procs:
        p.join()
    results, errors, skipped = [], [], 0
    for p, of in zip(procs, outs):
        if not os.path.exists(of):
            errors.append('worker ended with code {} and no result'.format(p.exitcode))
            continue
        d = pickle.load(open(of, 'rb'))
        results += d['results']
        skipped += d.get('skipped', 0)
        if d.get('error'):
            errors.append(d['error'])
    results.sort(key=lambda r: (r['workload'], r['index']))

    # --- aggregate
    clauses, events, sigs = collections.Counter(), collections.Counter(), set()
    perwl = collections.defaultdict(lambda: dict(cases=0, checks=0))
    noans = []
    for r in results:
        clauses.update(r['clauses'])
        events.update(r['events'])
        if r['nchecks']:
            sigs.update(r['sigs'])
        perwl[r['workload']]['cases'] += 1
        perwl[r['workload']]['checks'] += r['nchecks']
        if r.get('noanswer'):
            noans.append((r['workload'], r['index'], r['noanswer']))
    known = load_known(prop)
    viols = []
    for r in results:
        for v in r['violations']:
            k = match_known(known, r['workload'], v)
            if k is not None:
                k['hits'] += 1
                k.setdefault('first', (r['workload'], r['index'], v['msg'][:160]))
            else:
                viols.append((r, v))
    wall = time.time() - t0
    samples, seen = [], set()
    for r in results:
        if r['workload'] not in seen and r['nchecks'] and not r['violations']:
            seen.add(r['workload'])
            samples.append(r['sample'])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples[:12],
                            oracle_checks=int(sum(clauses.values())), checks_per_clause=dict(sorted(clauses.items())),
                            library_events=dict(sorted(events.items())), workloads={k: dict(v) for k, v in sorted(perwl.items())},
                            cases_skipped_for_time=skipped, known_finding_hits={k['key']: k['hits'] for k in known}),
              assumptions=getattr(mod, 'ASSUME', []), wall_s=round(wall, 2), violations=len(viols))
    if not (a.replay or a.only or a.n is not None or a.index is not None):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for k in known:
        if k['hits']:
            print('KNOWN-FINDING: property={} {} [{} occurrences, e.g. {}]'.format(prop, k['text'], k['hits'], k['first']))
    print('{} {} seed={}: {} cases, {} oracle checks, {} distinct signatures, {:.1f} s{}'.format(
        prop, tier, seed, len(results), sum(clauses.values()), len(sigs), wall, ', {} skipped for time'.format(skipped) if skipped else ''))
    if a.v:
        for k, v in sorted(perwl.items()):
            print('   ', k, v)
        print('   ', dict(events))
    if viols:
        bykey = collections.OrderedDict()
        for r, v in viols:
            bykey.setdefault((r['workload'], v['clause']), []).append((r, v))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        first = None
        for (wl, cl), lst in bykey.items():
            r, v = lst[0]
            fn = os.path.join(rdir, ''.join(c if c.isalnum() or c in '_-.' else '_' for c in '{}_{}_{}'.format(prop, wl, cl))[:120] + '_{}.json'.format(r['index']))
            with open(fn, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, workload=wl, index=r['index'], clause=cl, msg=v['msg'],
                               detail=v['detail'], sample=r['sample'],
                               how='./run.sh {} {} --replay {}'.format(prop, tier, fn)), f, indent=1, default=str)
            print('  violated clause {}/{} ({} times), case {}: {}'.format(wl, cl, len(lst), r['index'], v['msg'][:600]))
            if a.v or a.replay:
                print('   ', json.dumps(v['detail'], indent=1)[:4000].replace('\\n', '\n'))
            print('VIOLATION property={} replay={}'.format(prop, fn))
        return 1
    if import_error or any('worker: ' in e for e in errors):
        # the library cannot be imported / driven at all: the build check catches import errors, report no answer
        print('NO ANSWER:', import_error or errors)
        return 3
    if errors or noans:
        print('NO ANSWER:', errors[:3], noans[:3])
        return 3
    if not a.replay:
        for w, n in perwl.items():
            if n['checks'] == 0:
                print('NO ANSWER: workload {} observed nothing'.format(w))
                return 3
        if skipped and len(results) < 0.5 * len(tasks):
            print('NO ANSWER: only {} of {} cases fitted the time budget'.format(len(results), len(tasks)))
            return 3
    return 0
