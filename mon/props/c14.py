"""C14: HAWC2 control files keep their structure and edits when saved."""
import os
import re
import numpy as np
from ..core import Workload, Raised
from ..compare import arr_close
from ..gen import htc as H
from ..gen.util import names as mknames, logint

TECHNIQUE = 'runtime monitoring: random control-file trees rendered in random style are read, edited and saved by the library; the live object and every saved file are compared with a reference tree after each operation'
RULE = ('A case is a random tree of sections/commands/sensors (nested, repeated, commented, with included files) followed by a history of assignments, additions, deletions, saves and re-reads; '
        'distinct by (tree shape, operations).')
ASSUME = ['Commands do not start with begin/end/exit and are not named like Python attributes of the tree objects; integers have at most 15 digits.',
          'When saved, bodies come first within their parent section, and sensors after the other commands of an output section (required by HAWC2).',
          'Referenced structural files lie next to the control file.']


def walk(sec):
    """tree of a library object"""
    out = []
    for c in sec.contents.values():
        if type(c).__name__ == 'HTCLine' or hasattr_contents(c) is None:
            if c.name_ == '':
                continue
            out.append(('line', c.name_, list(c.values)))
        else:
            out.append(tree(c))
    if hasattr_sensors(sec):
        for s in sec.sensors:
            if s.type == '' and s.sensor == '':
                continue
            out.append(('sensor', s.type, s.sensor, list(s.values)))
    return out


def hasattr_contents(c):
    return c.__dict__.get('contents')


def hasattr_sensors(c):
    return 'sensors' in c.__dict__


def tree(c):
    extra = (c.type, c.time) if c.name_ == 'output_at_time' else None
    return ('sec', c.name_, extra, walk(c))


def ordered(t, saved):
    """expected order of a list of trees: as in the file, or as saved; sensors after the rest in either case"""
    sens = [x for x in t if x[0] == 'sensor']
    rest = [x for x in t if x[0] != 'sensor']
    if saved:
        rest = [x for x in rest if x[1] == 'main_body'] + [x for x in rest if x[1] != 'main_body']
    out = []
    for x in rest + sens:
        if x[0] == 'sec':
            x = (x[0], x[1], x[2], ordered(x[3], saved))
        out.append(x)
    return out


def eqval(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return float(a) == float(b)


def diff(a, b, path=''):
    """first difference between two lists of trees"""
    na, nb = [(x[0], x[1], x[2] if x[0] != 'line' else None) for x in a], [(x[0], x[1], x[2] if x[0] != 'line' else None) for x in b]
    if na != nb:
        k = next((i for i in range(min(len(na), len(nb))) if na[i] != nb[i]), min(len(na), len(nb)))
        return '{}: entry {}: {} expected {} ({} entries, expected {})'.format(path or 'top', k, na[k:k + 2], nb[k:k + 2], len(na), len(nb))
    for x, y in zip(a, b):
        if x[0] == 'sec':
            d = diff(x[3], y[3], path + '/' + x[1])
            if d:
                return d
        elif len(x[-1]) != len(y[-1]) or not all(eqval(u, v) for u, v in zip(x[-1], y[-1])):
            return '{}/{}: values {} expected {}'.format(path, x[1], x[-1], y[-1])
    return None


def make(case, st=False):
    rnd = case.rnd
    g = H.Gen(case)
    g.style_free = rnd.random() < 0.4
    items = []
    for _ in range(rnd.randint(0, 4)):
        items.append(g.section(rnd.randint(0, 3)))
    if rnd.random() < 0.8 or st:
        s = H.Sec('new_htc_structure')
        nb = rnd.randint(1, 4)
        for i in range(nb):
            if rnd.random() < 0.3:
                s.items.append(g.section(1))
            s.items.append(g.body(i, st if st and rnd.random() < 0.7 else None))
        if rnd.random() < 0.5:
            s.items.append(g.section(1))
        items.insert(rnd.randint(0, len(items)), s)
    if rnd.random() < 0.3:
        items.insert(rnd.randint(0, len(items)), g.line())
    for _ in range(rnd.choice([0, 1, 1, 2])):
        items.append(g.output())
    for _ in range(rnd.choice([0, 0, 1, 2])):
        items.append(g.output(at=True))
    return g, items


def totext(case, g, items):
    rnd = case.rnd
    L = g.render(items)
    for _ in range(rnd.choice([0, 0, 1, 3])):
        L.insert(0, ';' + g.comment(0.7))
    if rnd.random() < 0.8:
        L += ['exit;'] + rnd.choice([[], ['', 'text after exit', 'begin not_closed;']])
    e = rnd.choice(['\n', '\n', '\r\n'])
    return (e.join(L) or '; no content') + rnd.choice([e, '', e])


def include(case, g, items):
    """move the rendering of some top-level items to an included file; returns the text of the main file"""
    rnd = case.rnd
    k = rnd.randrange(len(items))
    inc = g.render(items[k:k + 1]) + rnd.choice([[], ['exit;', 'ignored 1;'], ['EXIT ;', 'ignored 1;'], ['  Exit', '', 'begin ignored_section;'], ['exit ; the end', 'ignored;']])
    name = rnd.choice(['inc.htc', './sub/inc.htc', 'Inc_File.htc', '.\\sub\\inc2.htc'])
    real = name.replace('\\', '/')
    case.write(real, '\n'.join(inc) + '\n')
    L = g.render(items[:k]) + [rnd.choice(['continue_in_file ', '  Continue_in_file  ']) + name + rnd.choice([';', ' ; comment'])] + g.render(items[k + 1:]) + ['exit;']
    return '\n'.join(L) + '\n'


def judge(case, f, items, saved, tag, comments=None):
    exp = ordered([x.tree() for x in items], saved)
    got = ordered(walk(f.data), saved)
    d = diff(got, exp)
    case.check(d is None, tag + 'tree', d)


def lines_of(items, out=None):
    out = [] if out is None else out
    for x in items:
        if x.kind == 'sec':
            lines_of(x.items, out)
        else:
            out.append(x)
    return out


def liblines(sec, out=None):
    out = [] if out is None else out
    for c in sec.contents.values():
        if hasattr_contents(c) is None:
            if c.name_ != '':
                out.append(c)
        else:
            liblines(c, out)
    if hasattr_sensors(sec):
        out += [s for s in sec.sensors if s.type != '']
    return out


def judge_comments(case, f, items, text, tag):
    """each comment of the file is still in the saved text; comments written on the line of a command are attached to it"""
    exp = {}
    for x in lines_of(items):
        if x.comment:
            exp[x.comment.split()[0]] = (x.name if x.kind == 'line' else x.type, ' '.join(x.comment.split()))
    got = {}
    for c in liblines(f.data):
        if c.comments.strip():
            got.setdefault(c.comments.split()[0].strip(';'), (c.name_ if c.name_ else c.type, ' '.join(c.comments.split('\n')[0].split())))
    bad = [k for k in exp if got.get(k) != exp[k]]
    case.check(not bad, tag + 'line-comments', lambda: 'comment {} of {}: found {}'.format(bad[0], exp[bad[0]], got.get(bad[0])))


def judge_text(case, text, tokens, tag):
    bad = [t for t in tokens if t not in text]
    case.check(not bad, tag + 'comments-kept', lambda: 'comments {} are lost'.format(bad[:5]))


# ------------------------------------------------------------------------------------------------------- edits
def all_sections(items, lib, out):
    """pairs (reference section, library section) reached through unique names"""
    for x in items:
        if x.kind != 'sec':
            continue
        same = [y for y in items if y.kind == 'sec' and y.name.lower() == x.name.lower()]
        c = [v for v in lib.contents.values() if hasattr_contents(v) is not None and v.name_ == ('output_at_time' if x.extra else x.name.lower())]
        if x.extra:
            same = [y for y in items if y.kind == 'sec' and y.extra]
        k = [i for i, y in enumerate(same) if y is x][0]
        if k < len(c):
            out.append((x, c[k]))
            all_sections(x.items, c[k], out)
    return out


RESERVED = set(dir(dict)) | {'time', 'type', 'values', 'name_', 'parent', 'lines', 'contents', 'sensors', 'section_name', 'location', 'compare', 'delete', 'keys', 'get', 'copy', 'begin_comments', 'end_comments'}


def edit(case, g, f, items):
    rnd = case.rnd
    secs = [p for p in all_sections(items, f.data, [])]
    if not secs:
        return 'none'
    x, c = rnd.choice(secs)
    plain = x.name.lower() != 'output' and not x.extra
    # only lines whose name is unique in the section can be addressed without suffix
    uniq = [l for l in x.items if l.kind == 'line' and sum(1 for y in x.items if y.kind != 'sensor' and y.name.lower() == l.name.lower()) == 1 and l.name not in RESERVED]
    op = rnd.choice(['assign', 'assign', 'assign', 'element', 'new', 'addline', 'addsection', 'delline', 'delsection', 'path', 'sensor', 'delsensor', 'dup', 'comment'])
    if op == 'assign' and uniq:
        l = rnd.choice(uniq)
        vs = [g.value() for _ in range(rnd.choice([1, 1, 2, 4]))]
        how = rnd.choice(['list', 'tuple', 'str', 'scalar'])
        if how == 'scalar':
            vs = [g.value(('int', 'float'))]
            v = vs[0][1]
        elif how == 'str':
            v = ' '.join(t for t, _ in vs)
        else:
            v = (list if how == 'list' else tuple)([b for _, b in vs])
        case.call('assign', setattr, c, l.name, v)
        l.values, l.text = [b for _, b in vs], [t for t, _ in vs]
        got = c[l.name].values
        case.check(len(got) == len(l.values) and all(eqval(a, b) for a, b in zip(got, l.values)), 'assigned', '{} reads {} after assigning {!r}'.format(l.name, got, v))
    elif op == 'element' and [l for l in uniq if l.values]:
        l = rnd.choice([l for l in uniq if l.values])
        i = rnd.randrange(len(l.values))
        v = g.value(('int', 'float'))[1]
        c[l.name][i] = v
        l.values[i] = v
        case.check(eqval(getattr(c, l.name)[i], v), 'assigned', '{}[{}] reads {} after assigning {}'.format(l.name, i, getattr(c, l.name)[i], v))
    elif op == 'new' and plain:
        n = 'new_' + mknames(rnd, 1, 5)[0]
        if n in c.contents:
            return 'none'
        vs = [g.value(('int', 'float'))[1] for _ in range(rnd.choice([1, 2, 3, 150]))]
        given = list(vs)
        setattr(c, n, given)
        given[0] = 'changed afterwards'
        if rnd.random() < 0.3:      # numbered names denote further lines of the same name
            l = H.Line(n, vs)
            l.text = [str(v) for v in vs]
            x.items.append(l)
            vs = [g.value(('int', 'float'))[1] for _ in range(rnd.choice([1, 2]))]
            setattr(c, n + '__2', vs)
        l = H.Line(n, vs)
        l.text = [str(v) for v in vs]
        x.items.append(l)
    elif op == 'addline' and plain:
        n = rnd.choice(H.COMMANDS)
        vs = [g.value(('int', 'float', 'str'))[1] for _ in range(rnd.randint(0, 3))]
        com = g.comment(0.5)
        given = list(vs)
        case.call('add_line', c.add_line, n, given, com)
        given.append('changed afterwards')
        l = H.Line(n, vs, com)
        l.text = [str(v) for v in vs]
        x.items.append(l)
    elif op in ('addsection', 'dup') and plain:
        n = rnd.choice(H.SECTIONS).lower()
        exists = [y for y in x.items if y.kind != 'sensor' and y.name.lower() == n]
        if op == 'addsection' and exists:
            return 'none'
        mem = {} if rnd.random() < 0.5 else {'speed': 3.5, 'n2': [1, 2, 3]}
        s = case.call('add_section', c.add_section, n, mem, allow_duplicate=(op == 'dup'))
        new = H.Sec(n)
        for k, v in mem.items():
            l = H.Line(k, v if isinstance(v, list) else [v])
            l.text = [str(y) for y in l.values]
            new.items.append(l)
        s.add_line('inside', [1, 2.5], '')
        l = H.Line('inside', [1, 2.5])
        l.text = ['1', '2.5']
        new.items.append(l)
        x.items.append(new)
    elif op == 'delline' and uniq:
        l = rnd.choice(uniq)
        if l.name == 'name' or (l.name in ('nsec', 'filename', 'set')):
            return 'none'
        if rnd.random() < 0.5:
            c[l.name].delete()
        else:
            delattr(c, l.name)
        case.check(l.name not in c, 'deleted', '{} still there after deletion'.format(l.name))
        x.items.remove(l)
        g.lossy = True     # comment lines below it are attached to it
        if l.comment:
            # its comment goes with it
            tok = l.comment.split()[0]
            if tok in g.comments:
                g.comments.remove(tok)
    elif op == 'delsection':
        if x.name in ('new_htc_structure',) or x.name in ('main_body', 'timoschenko_input', 'c2_def'):
            return 'none'
        par = find_parent(items, x)
        c.delete()
        (par if isinstance(par, list) else par.items).remove(x)
        for tok in section_tokens(x):
            if tok in g.comments:
                g.comments.remove(tok)
        g.lossy = True
    elif op == 'path' and uniq and not g.lossy:
        l = rnd.choice(uniq)
        par = find_parent(items, x)
        if not isinstance(par, list) or sum(1 for y in items if y.kind == 'sec' and y.name.lower() == x.name.lower()) != 1 or '.' in l.name or '/' in l.name:
            return 'none'
        n = 'output_at_time' if x.extra else x.name.lower()
        if x.extra and sum(1 for y in items if y.kind == 'sec' and y.extra) != 1:
            return 'none'
        sep = rnd.choice(['.', '/'])
        got = case.call('lookup', f.data.__getitem__, n + sep + l.name)
        case.check(len(got.values) == len(l.values) and all(eqval(a, b) for a, b in zip(got.values, l.values)), 'lookup', '{}{}{} reads {} expected {}'.format(n, sep, l.name, got.values, l.values))
        case.check(f.data.get(n + sep + 'not_there_at_all', 'dflt') == 'dflt', 'lookup-absent', 'absent entry found')
    elif op == 'sensor' and not plain:
        vs = [g.value(('int', 'float', 'str'))[1] for _ in range(rnd.randint(0, 3))]
        nr = rnd.choice([None, 0])
        case.call('add_sensor', c.add_sensor, 'mbdy', 'forcevec', vs, '', nr)
        s = H.Sensor('mbdy', 'forcevec', vs)
        s.text = [str(v) for v in vs]
        sens = [y for y in x.items if y.kind == 'sensor']
        if nr == 0 and sens and g.style_free is False:
            x.items.insert(x.items.index(sens[0]), s)
        elif nr == 0 and sens:
            # free comment lines may be stored as nameless sensors in front
            x.items.insert(x.items.index(sens[0]), s)
        else:
            x.items.append(s)
    elif op == 'delsensor' and not plain:
        sens = [y for y in x.items if y.kind == 'sensor']
        lib = [s for s in c.sensors if s.type != '']
        if not sens or g.style_free:
            return 'none'
        k = rnd.randrange(len(sens))
        if sens[k].comment or lib[k].comments.strip():
            return 'none'
        case.call('delete', lib[k].delete)
        x.items = [y for y in x.items if y is not sens[k]]
    elif op == 'comment' and uniq:
        l = rnd.choice(uniq)
        old = c[l.name].comments
        if ';' in old or '\n' in old:
            return 'none'
        new = g.comment(1.0)
        c[l.name].comments = new
        if l.comment and l.comment.split()[0] in g.comments:
            g.comments.remove(l.comment.split()[0])
        l.comment = new
    else:
        return 'none'
    return op


def find_parent(items, x):
    if any(y is x for y in items):
        return items
    for y in items:
        if y.kind == 'sec':
            r = find_parent(y.items, x)
            if r is not None:
                return y if r is y.items else r
    return None


def section_tokens(x):
    out = [t.split()[0] for t in (x.bc, x.ec) if t]
    for y in x.items:
        if y.kind == 'sec':
            out += section_tokens(y)
        elif y.comment:
            out.append(y.comment.split()[0])
    return out


def count(items):
    return sum(1 + (count(x.items) if x.kind == 'sec' else 0) for x in items)


# ------------------------------------------------------------------------------------------------------- workloads
def run_cycle(case, inc=False):
    from weio.hawc2_htc_file import HAWC2HTCFile
    rnd = case.rnd
    g, items = make(case)
    g.lossy = False
    if inc:
        if not items:
            items = [g.section(2)]
        text = include(case, g, items)
    else:
        text = totext(case, g, items)
    enc = rnd.choice(['ascii', 'cp1252', 'utf-8-sig']) if not inc else 'ascii'
    if enc == 'cp1252':
        cut = [l.partition(';') for l in text.split('\n')]     # (in comments only)
        text = '\n'.join(a + b + c.replace('[m]', 'm\xb2').replace('deg', '\xb0') for a, b, c in cut)
        for l in lines_of(items):
            l.comment = l.comment.replace('[m]', 'm\xb2').replace('deg', '\xb0')
    fn = case.write('m.htc', text.encode(enc))
    f = case.call('HAWC2HTCFile', HAWC2HTCFile, fn)
    judge(case, f, items, False, 'read-')
    judge_comments(case, f, items, text, 'read-')
    n0 = count(items)
    ops = []
    for i in range(rnd.randint(1, 7)):
        op = rnd.choice(['edit', 'edit', 'edit', 'save'])
        if op == 'edit':
            op = edit(case, g, f, items)
            judge(case, f, items, False, 'edit-{}-'.format(op))
        else:
            fn = case.path('s{}.htc'.format(i))
            case.call('write', f.write, fn)
            judge(case, f, items, False, 'after-write-')
            with open(fn, encoding='cp1252') as fid:
                out = fid.read()
            if not g.lossy:
                judge_text(case, out, g.comments, 'saved-')
            f = case.call('HAWC2HTCFile', HAWC2HTCFile, fn)
            # the saved order is the order of the file from now on
            reorder(items)
            judge(case, f, items, False, 'reread-')
            judge_comments(case, f, items, out, 'reread-')
            g.style_free = False
            fn2 = case.path('t{}.htc'.format(i))
            case.call('write', f.write, fn2)
            with open(fn2, encoding='cp1252') as fid:
                out2 = fid.read()
            norm = lambda s: [re.sub(r'(?<!\S)-0(?!\S)', '0', ' '.join(l.replace(';', ' ; ').split()).replace('.0 ', ' ')) for l in s.split('\n') if l.strip()]
            case.check(norm(out) == norm(out2), 'stable-text', lambda: 'second save differs: {}'.format([(a, b) for a, b in zip(norm(out), norm(out2)) if a != b][:2]))
        ops.append(op)
    case.sig(n0, tuple(ops), inc)
    case.desc = dict(entries=n0, ops=ops, included=inc)


def reorder(items):
    bodies = [x for x in items if x.kind == 'sec' and x.name == 'main_body']
    sens = [x for x in items if x.kind == 'sensor']
    rest = [x for x in items if x not in bodies and x not in sens]
    items[:] = bodies + rest + sens
    for x in items:
        if x.kind == 'sec':
            reorder(x.items)


def wl_cycle(case):
    run_cycle(case)


def wl_include(case):
    run_cycle(case, inc=True)


def wl_bodies(case):
    """bodies: access by name, half-chord positions (c2_def), structural tables, data frames"""
    from weio.hawc2_htc_file import HAWC2HTCFile
    from .c13 import gen_st, COL19, COL30
    rnd = case.rnd
    nc, sets, txt = gen_st(case)
    case.write('body.st', txt)
    m = rnd.choice(list(sets))
    k = rnd.choice(list(sets[m]))
    sel = (m, k)
    if 1 in sets and 1 in sets[1] and rnd.random() < 0.3:
        sel = None
    g, items = make(case, st=('./body.st', sel))
    g.style_free = False
    fn = case.write('m.htc', totext(case, g, items))
    f = case.call('HAWC2HTCFile', HAWC2HTCFile, fn)
    struct = [x for x in items if x.kind == 'sec' and x.name == 'new_htc_structure'][0]
    bodies = [x for x in struct.items if x.kind == 'sec' and x.name == 'main_body']
    names = [[l for l in b.items if l.kind == 'line' and l.name == 'name'][0].values[0] for b in bodies]
    case.check(list(f.bodyNames) == names, 'body-names', '{} expected {}'.format(f.bodyNames, names))
    st = sets[sel[0]][sel[1]] if sel else sets[1][1]

    def frames(f, tag):
        d = case.call('toDataFrame', f.toDataFrame)
        exp = {}
        for b, n in zip(bodies, names):
            if hasattr(b, 'c2'):
                v = np.array([l.values for l in b.c2.items if l.name == 'sec'], float).reshape(-1, 5)
                exp[n + '_c2'] = (v[:, [3, 1, 2, 4]], ['z_[m]', 'x_[m]', 'y_[m]', 'twist_[deg]'])
                if any(y.kind == 'sec' and y.name == 'timoschenko_input' for y in b.items):
                    exp[n + '_st'] = (st, COL19 if nc == 19 else COL30)
        if case.check(sorted(d) == sorted(exp), tag + 'frames', 'frames {} expected {}'.format(sorted(d), sorted(exp))):
            for n in exp:
                case.check(list(d[n].columns) == exp[n][1], tag + 'frame-columns', '{}: {}'.format(n, list(d[n].columns)))
                mm = arr_close(d[n].values, exp[n][0], rtol=1e-12)
                case.check(mm is None, tag + 'frame-values', '{}: {}'.format(n, mm))
    frames(f, '')
    for b, n in zip(bodies, names):
        bd = case.call('bodyByName', f.bodyByName, n)
        case.check(bd.name[0] == n, 'body', 'bodyByName({}) gives {}'.format(n, bd.name[0]))
        q = case.call('main_body()', lambda: f.data.new_htc_structure.main_body(name=n))
        case.check(q is bd, 'body', 'main_body(name={}) is another body'.format(n))
        q = case.call('get_subsection_by_name', f.data.new_htc_structure.get_subsection_by_name, n)
        case.check(q is bd, 'body', 'get_subsection_by_name({}) is another body'.format(n))
        if hasattr(b, 'c2'):
            v = np.array([l.values for l in b.c2.items if l.name == 'sec'], float).reshape(-1, 5)
            got = case.call('bodyC2', f.bodyC2, bd)
            mm = arr_close(got, v, rtol=1e-12)
            case.check(mm is None, 'c2', '{}: {}'.format(n, mm))
            if rnd.random() < 0.25:     # more sections than there are: done, or refused with nothing changed
                w = np.column_stack([np.arange(1, len(v) + 3), case.rng.normal(size=(len(v) + 2, 4))])
                r = case.attempt('setBodyC2', f.setBodyC2, bd, w)
                if not isinstance(r, Raised):
                    mm = arr_close(f.bodyC2(bd), w, rtol=1e-12)
                    case.check(mm is None and bd.c2_def.nsec[0] == len(w), 'c2-set', '{}: {}'.format(n, mm))
                    return
                else:
                    mm = arr_close(f.bodyC2(bd), v, rtol=1e-12)
                    case.check(mm is None and bd.c2_def.nsec[0] == len(v), 'c2-refused', 'after the refused change: nsec {} for {} sections, {}'.format(bd.c2_def.nsec[0], len(v), mm))
            if rnd.random() < 0.6:
                nn = rnd.randint(1, len(v))
                w = np.column_stack([np.arange(1, nn + 1), case.rng.normal(size=(nn, 4)).round(rnd.choice([0, 3, 15]))])
                case.call('setBodyC2', f.setBodyC2, bd, w)
                mm = arr_close(f.bodyC2(bd), w, rtol=1e-12)
                case.check(mm is None, 'c2-set', '{}: {}'.format(n, mm))
                keep = [l for l in b.c2.items if l.name != 'sec']
                keep[0].values = [nn]
                old = [l for l in b.c2.items if l.name == 'sec'][:nn]
                for l, r in zip(old, w):
                    l.values = list(r)
                b.c2.items[:] = keep + old
    r = case.attempt('bodyByName', f.bodyByName, 'no such body')
    case.check(isinstance(r, Raised), 'absent-body', 'absent body found')
    r = case.attempt('get_subsection_by_name', f.data.new_htc_structure.get_subsection_by_name, 'no such body')
    case.check(isinstance(r, Raised) and isinstance(r.exc, ValueError), 'absent-body', 'get_subsection_by_name of an absent body gives {!r:.100}'.format(r))
    bd = f.bodyByName(names[0])
    r = case.attempt('parameter', lambda: bd.name[1])
    case.check(isinstance(r, Raised) and isinstance(r.exc, IndexError), 'absent-parameter', 'a parameter beyond the last gives {!r:.100}'.format(r))
    again = case.call('add_section', f.data.new_htc_structure.add_section, 'main_body')
    case.check(again is f.data.new_htc_structure['main_body'], 'existing-section', 'add_section of an existing section gives another one')
    case.call('write', f.write, case.path('w.htc'))
    f2 = case.call('HAWC2HTCFile', HAWC2HTCFile, case.path('w.htc'))
    reorder(items)
    judge(case, f2, items, False, 'reread-')
    frames(f2, 'reread-')
    case.sig('bodies', len(bodies), nc, sel is None)
    case.desc = dict(bodies=names, st=sel)


def wl_select(case):
    """selection of repeated sections and lines by their values, nested paths, copies"""
    from weio.hawc2_htc_file import HAWC2HTCFile
    rnd = case.rnd
    g = H.Gen(case)
    g.style_free = False
    n = rnd.choice([1, 2, 5, 12])
    root = H.Sec('aero_extra')
    ids = rnd.sample(range(1, 50), n)

    def ln(name, vs, com=''):
        l = H.Line(name, vs, com)
        l.text = [str(v) for v in vs]
        return l
    for i in ids:
        s = H.Sec('actions')
        s.items.append(ln('name', ['act{}'.format(i)], g.comment()))
        s.items.append(ln('index', [i, rnd.randint(0, 3)]))
        sub = H.Sec('init')
        sub.items.append(ln('constant', [i * 10] + [rnd.choice([0.5, 2]) for _ in range(rnd.choice([0, 11, 12]))], g.comment()))
        deep = H.Sec('deep')
        deep.items.append(ln('constant', [-i]))
        sub.items.append(deep)
        sub.bc, sub.ec, s.ec = g.comment(), g.comment(), g.comment()
        s.items.append(sub)
        root.items.append(s)
    for i in ids:
        root.items.append(ln('row', [i, 'w{}'.format(i)] + [float(i) / 4] * 10 + [1000 + i, 7]))
    f = case.call('HAWC2HTCFile', HAWC2HTCFile, case.write('m.htc', '\n'.join(g.render([root]) + ['exit;']) + '\n'))
    top = f.data['aero_extra']
    secs = [c for c in top.contents.values() if c.name_ == 'actions']
    rows = [c for c in top.contents.values() if c.name_ == 'row']
    if not case.check(len(secs) == n and len(rows) == n, 'found', '{} sections, {} lines expected {}'.format(len(secs), len(rows), n)):
        return
    k = rnd.randrange(n)
    got = case.call('section()', lambda: top.actions(name='act{}'.format(ids[k])))
    case.check(got is secs[k], 'select-section', 'section with name act{} is {!r:.80}'.format(ids[k], str(got)))
    got = case.call('get_section', top.get_section, ids[k], 'index')
    case.check(got is secs[k], 'select-section', 'section with index {} is {!r:.80}'.format(ids[k], str(got)))
    for kw in (dict(v0=ids[k]), dict(v1='w{}'.format(ids[k])), dict(v12=1000 + ids[k]), dict(v12=1000 + ids[k], v0=ids[k], v13=7)):
        got = case.call('line()', lambda: top.row(**kw))
        case.check(got is rows[k], 'select-line', 'line with {} is {!r:.80}'.format(kw, str(got)))
    for what, fn in (('absent line', lambda: top.row(v0=777)), ('absent section', lambda: top.actions(name='nope'))) + ((('ambiguous line', lambda: top.row(v13=7)), ) if n > 1 else ()):
        r = case.attempt('select', fn)
        case.check(isinstance(r, Raised), 'select-refused', '{}: {!r:.80}'.format(what, r))
    # paths of any depth
    tail = '' if k == 0 else '__{}'.format(k + 1)
    for sep in './':
        q = sep.join(['aero_extra', 'actions' + tail, 'init', 'constant'])
        got = case.call('path', f.data.__getitem__, q)
        case.check(got[0] == ids[k] * 10, 'path', '{} gives {!r:.80}'.format(q, str(got)))
        q = sep.join(['aero_extra', 'actions' + tail, 'init', 'deep', 'constant'])
        got = case.call('path', f.data.get, q)
        case.check(got is not None and got[0] == -ids[k], 'path', '{} gives {!r:.80}'.format(q, str(got)))
    got = getattr(top, 'actions' + (tail or '__1')) if rnd.random() < 0.5 else top['actions' + tail]
    case.check(got is secs[k], 'path', 'actions{} is another section'.format(tail))
    loc = case.call('location', secs[k].location)
    case.check(loc == 'm.htc/aero_extra/actions' + tail, 'location', loc)
    # ambiguous names
    if n > 1:
        two = rnd.sample(range(n), 2)
        secs[two[0]].name = 'same'
        secs[two[1]].name = 'same'
        r = case.attempt('get_section', top.get_section, 'same')
        case.check(isinstance(r, Raised) and isinstance(r.exc, ValueError), 'select-refused', 'ambiguous section: {!r:.80}'.format(r))
    # copies
    src = rnd.choice([secs[k], top])
    before = str(src)
    cp = case.call('copy', src.copy)
    case.check(' '.join(str(cp).split()) == ' '.join(before.split()), 'copy', lambda: 'copy reads {!r} for {!r}'.format(str(cp)[:200], before[:200]))
    q = cp if src is secs[k] else cp['actions' + tail]
    q['init']['constant'][0] = 'changed'
    q['init'].deep.constant = 5, 6
    q['init'].constant.comments = 'changed'
    q['index'].values.append(99)
    del q.name
    q['init'].add_line('extra', [1])
    case.check(str(src) == before, 'copy-independent', lambda: 'changing a copy changed the original: {!r}'.format([(a, b) for a, b in zip(str(src).split('\n'), before.split('\n')) if a != b][:2]))
    now = str(cp)
    src_q = secs[k]
    src_q['init']['constant'][0] = -5
    src_q['init'].deep.constant = 8
    src_q['index'].values.append(11)
    case.check(str(cp) == now, 'copy-independent', 'changing the original changed the copy')
    case.sig('select', n, k)
    case.desc = dict(sections=n)


def wl_refused(case):
    """content that cannot be saved leaves the file on disk as it was"""
    from weio.hawc2_htc_file import HAWC2HTCFile
    rnd = case.rnd
    g, items = make(case)
    if not items:
        items = [g.section(2)]
    fn = case.write('m.htc', totext(case, g, items))
    f = case.call('HAWC2HTCFile', HAWC2HTCFile, fn)
    secs = [c for c in f.data.contents.values() if hasattr_contents(c) is not None]
    if not secs:
        return
    raw = open(fn, 'rb').read()
    s = rnd.choice(secs)
    s.add_line('unicode_line', ['\u4e2d\u6587'] if rnd.random() < 0.5 else [1], rnd.choice(['\u03b1\u03b2', '\u4e2d']))
    r = case.attempt('write', f.write, fn) if rnd.random() < 0.5 else case.attempt('write', f.write)
    if isinstance(r, Raised):
        case.check(open(fn, 'rb').read() == raw, 'refused-write', 'the refused write left {} of {} bytes'.format(os.path.getsize(fn), len(raw)))
        f2 = case.call('HAWC2HTCFile', HAWC2HTCFile, fn)
        judge(case, f2, items, False, 'refused-')
    case.sig('refused', isinstance(r, Raised))
    case.desc = dict(refused=isinstance(r, Raised))


WORKLOADS = [Workload('select', wl_select, 300, 4000), Workload('refused', wl_refused, 100, 1000), Workload('cycle', wl_cycle, 1500, 16000), Workload('include', wl_include, 400, 5000), Workload('bodies', wl_bodies, 500, 6000)]
