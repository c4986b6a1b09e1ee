"""C24: graphs of structures hold the joints, members and properties of the file, and stay consistent when they are changed."""
import copy
import json
import os
import numpy as np
from ..core import Workload, Raised
from ..gen import fastin

TECHNIQUE = 'runtime monitoring: generated SubDyn and HydroDyn files are converted to graphs, and random histories of changes and queries on graphs run next to an independent model of joints and members'
RULE = 'A case is one generated structure with a history of divisions, sorting, additions and queries; distinct by (kind, sizes, operations).'
ASSUME = ['Elements have two nodes; elements with different properties at both ends are not divided (refused by the library); one concentrated mass per joint.',
          'HydroDyn filled members are refused by the library; arrays stored at nodes are not compared after a division.']


def num(rnd, s=100):
    return rnd.choice([0.0, round(rnd.uniform(-s, s), 3), round(rnd.uniform(-s, s), 1), float(rnd.randint(-50, 50)), float('{:.6e}'.format(rnd.uniform(0, 1) * 10 ** rnd.randint(-3, 9)))])


def ids(rnd, n):
    return list(range(1, n + 1)) if rnd.random() < 0.4 else rnd.sample(range(1, 10 * n + 20), n)


def tab(rnd, rows, fmt=None):
    return ['   ' + '   '.join(str(v) if isinstance(v, (int, str)) else repr(float(v)) for v in r) for r in rows]


def close(a, b, rtol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * 0 + rtol * np.maximum(np.abs(a), np.abs(b)) + 1e-14))


def props_equal(got, exp):
    return sorted(got) == sorted(exp) and all(abs(float(got[k]) - float(exp[k])) <= 1e-13 * abs(float(exp[k])) for k in exp)


class N:
    def __init__(s, ID, p, data):
        s.ID, s.p, s.data = ID, np.array(p, dtype=float), data


class E:
    def __init__(s, ID, a, b, data, propset=None, prop=None):
        s.ID, s.n, s.data, s.propset, s.prop = ID, (a, b), data, propset, prop


class Model:
    """joints and members in order, with their data"""

    def __init__(s):
        s.nodes, s.elems = [], []

    def node(s, ID):
        return [n for n in s.nodes if n.ID == ID][0]


def check_graph(case, G, M, what=''):
    """everything a user can ask of the graph agrees with the model"""
    ok = [n.ID for n in G.Nodes] == [n.ID for n in M.nodes] and close(np.array([[n.x, n.y, n.z] for n in G.Nodes]).reshape(-1, 3), np.array([n.p for n in M.nodes]).reshape(-1, 3))
    if not case.check(ok, what + 'nodes', lambda: 'nodes {} instead of {}'.format([(n.ID, n.x, n.y, n.z) for n in G.Nodes][:5], [(n.ID, n.p.tolist()) for n in M.nodes][:5])):
        return False
    ok = [(e.ID, tuple(int(i) for i in e.nodeIDs)) for e in G.Elements] == [(e.ID, e.n) for e in M.elems]
    if not case.check(ok, what + 'elements', lambda: 'elements {} instead of {}'.format([(e.ID, tuple(e.nodeIDs)) for e in G.Elements][:8], [(e.ID, e.n) for e in M.elems][:8])):
        return False
    for n, m in zip(G.Nodes, M.nodes):
        for k, v in m.data.items():
            if not case.check(k in n.data and (n.data[k] == v if isinstance(v, (str, tuple)) else close(n.data[k], v, 1e-11)), what + 'node-data', '{} of node {}: {} instead of {}'.format(k, m.ID, n.data.get(k), v)):
                return False
    byid = {n.ID: n for n in G.Nodes}
    for e, m in zip(G.Elements, M.elems):
        case.check(len(e.nodes) == 2 and all(byid.get(i) is q for i, q in zip(m.n, e.nodes)), what + 'element-nodes', 'nodes of element {}'.format(m.ID))
        for k, v in m.data.items():
            case.check(k in e.data and (e.data[k] == v if isinstance(v, (str, bool)) else close(e.data[k], v)), what + 'element-data', '{} of element {}: {} instead of {}'.format(k, m.ID, e.data.get(k), v))
        L = np.linalg.norm(M.node(m.n[0]).p - M.node(m.n[1]).p)
        case.check(abs(e.length - L) <= 1e-9 * (1 + L), what + 'length', 'length {} of element {} instead of {}'.format(e.length, m.ID, L))
        if m.prop is not None:
            case.check(e.propset == m.propset and len(e.nodeProps) == 2 and all(props_equal(p.data, q) for p, q in zip(e.nodeProps, m.prop)), what + 'element-properties',
                       lambda: 'properties of element {}: {} instead of {}'.format(m.ID, [p.data for p in e.nodeProps], m.prop))
    return True


def queries(case, G, M, what=''):
    rnd = case.rnd
    ix = {n.ID: i for i, n in enumerate(M.nodes)}
    P = np.array([n.p for n in M.nodes]).reshape(-1, 3)
    con = [[ix[e.n[0]], ix[e.n[1]]] for e in M.elems]
    Q = ['connectivity', 'elems', 'elemids', 'nodeids', 'points', 'extent', 'lines', 'frame', 'json', 'print', 'get']
    for q in rnd.sample(Q, rnd.randint(2, len(Q))):
        if q == 'connectivity':
            r = case.call(q, lambda: G.connectivity)
            case.check([list(map(int, c)) for c in r] == con, what + q, lambda: '{} instead of {}'.format(r[:6], con[:6]))
        elif q == 'elems':
            r = case.call(q, lambda: G.nodeIDs2Elements)
            case.check({k: [e.ID for e in v] for k, v in r.items()} == {n.ID: [e.ID for e in M.elems if n.ID in e.n] for n in M.nodes}, what + 'elements-of-nodes', 'elements connected to the nodes')
        elif q == 'elemids':
            r = case.call(q, lambda: G.nodeIDs2ElementIDs)
            case.check({k: list(v) for k, v in r.items()} == {n.ID: [e.ID for e in M.elems if n.ID in e.n] for n in M.nodes}, what + 'element-ids-of-nodes', 'IDs of elements connected to the nodes')
        elif q == 'nodeids':
            r = case.call(q, lambda: G.elementIDs2NodeIDs)
            case.check({k: tuple(v) for k, v in r.items()} == {e.ID: e.n for e in M.elems}, what + 'node-ids-of-elements', 'IDs of nodes of the elements')
        elif q == 'points':
            case.check(close(case.call(q, lambda: G.points), P), what + q, 'points')
        elif q == 'extent':
            a, b, d = case.call(q, lambda: G.extent)
            case.check(close(a, P.min(0)) and close(b, P.max(0)) and close(d, P.max(0) - P.min(0)) and close(G.maxDimension, (P.max(0) - P.min(0)).max()), what + q, 'extent {}'.format((a, b, d)))
        elif q == 'lines':
            case.check(close(case.call(q, G.toLines), P[np.array(con, dtype=int).reshape(-1, 2)]), what + q, 'lines')
        elif q == 'frame':
            by = rnd.choice([None, 'x', 'y', 'z', 'ID'])
            df = case.call(q, G.nodalDataFrame, by)
            ok = sorted(df['ID'].tolist()) == sorted(ix) and (by is None or df[by].is_monotonic_increasing) and list(df.index) == list(range(len(df))) and (by is not None or df['ID'].tolist() == [n.ID for n in M.nodes])
            ok = ok and close(df[['x', 'y', 'z']].values, P[[ix[i] for i in df['ID']]])
            case.check(ok, what + q, 'frame sorted by {}'.format(by))
            for k in set(k for n in M.nodes for k, v in n.data.items() if isinstance(v, float)):
                if not all(k in n.data for n in M.nodes):
                    continue
                e = [n.data[k] for n in (M.nodes[ix[i]] for i in df['ID'])]
                case.check(close(df[k].values, e, 1e-11), what + q, 'column {} of the frame'.format(k))
        elif q == 'json':
            fn = case.path('g.json') if rnd.random() < 0.5 else None
            d = case.call(q, G.toJSON, fn)
            ok = close(d['Nodes'], P) and [list(map(int, c)) for c in d['Connectivity']] == con and abs(d['groundLevel'] - P[:, 2].min()) < 1e-12 and len(d['ElemProps']) == len(M.elems)
            case.check(ok, what + q, 'nodes or connectivity of the dictionary')
            for p, e in zip(d['ElemProps'], M.elems):
                case.check(p['shape'] == 'cylinder' and p['type'] == e.data.get('Type', 1) and abs(p['Diam'] - e.data.get('D', 1)) <= 1e-12 * abs(p['Diam']), what + q, 'properties {} of element {}'.format(p, e.ID))
            case.check([(m['name'], m['omega']) for m in d['Modes']] == [(a, f * 2 * np.pi) for a, f, _ in getattr(M, 'modes', [])] and all(close(m['Displ'], D) for m, (_, _, D) in zip(d['Modes'], getattr(M, 'modes', []))), what + 'json-modes', 'modes')
            if fn:
                with open(fn, encoding='utf-8') as f:
                    case.check(json.load(f) == json.loads(json.dumps(d)), what + 'json-file', 'the file is not the dictionary')
        elif q == 'print':
            s = case.call(q, repr, G)
            case.check(s.count('<Node') == len(M.nodes) and s.count('<Elem') == len(M.elems), what + q, 'text of the graph')
        elif q == 'get':
            n, e = rnd.choice(M.nodes), (rnd.choice(M.elems) if M.elems else None)
            case.check(G.getNode(n.ID).ID == n.ID and (e is None or G.getElement(e.ID).ID == e.ID), what + q, 'node or element by ID')
            bad = max(ix) + 1000
            case.check(isinstance(case.attempt('no node', G.getNode, bad), Raised) and isinstance(case.attempt('no element', G.getElement, 10**9), Raised), what + q, 'a node or element that does not exist')
        case.event('query ' + q)


def lerp(a, b, f):
    return a * (1 - f) + b * f


def divide(case, G, M, mayfail=()):
    rnd = case.rnd
    n = rnd.choice([1, 2, 2, 3, 5, 6, 7, 11])
    kw = {}
    meth = rnd.choice(['append', 'append', 'insert'])
    if meth != 'append' or rnd.random() < 0.3:
        kw['method'] = meth
    keys = [k for k in ('Type', 'kind') if all(k in e.data for e in M.elems)]
    skip = lambda e: False
    if keys and rnd.random() < 0.5:
        k = rnd.choice(keys)
        vals = sorted(set(e.data[k] for e in M.elems))
        ex = rnd.sample(vals, rnd.randint(0, len(vals)))
        kw.update(excludeDataKey=k, excludeDataList=ex)
        skip = lambda e: e.data[k] in ex
    drop = []
    if rnd.random() < 0.4:
        drop = rnd.sample(['Type', 'w', 'q', 'IBC', 'RBC', 'addedMassMatrix'], rnd.randint(1, 3))
        kw['keysNotToCopy'] = drop
    if any(e.prop is not None and not skip(e) and e.propIDs[0] != e.propIDs[1] for e in M.elems) and n > 1:
        r = case.attempt('divideElements', G.divideElements, n, **kw)
        case.check(isinstance(r, Raised), 'refused', 'elements with different properties at both ends are divided')
        check_graph(case, G, M, 'refused-')
        return False
    if rnd.random() < 0.15:
        r = case.attempt('divideElements', G.divideElements, *rnd.choice([(0,), (-1,), (n, '', [], 'prepend')]))
        case.check(isinstance(r, Raised), 'refused', 'a division in no piece, or by an unknown method')
        check_graph(case, G, M, 'refused-')
    # --- model
    new, out = [], []
    nid, eid = max(q.ID for q in M.nodes), max(e.ID for e in M.elems)
    for e in M.elems:
        out.append(e)
        if skip(e):
            continue
        a, b = M.node(e.n[0]), M.node(e.n[1])
        chain = [a.ID]
        for i in range(1, n):
            f = i / float(n)
            data = {k: lerp(v, b.data[k], f) for k, v in a.data.items() if isinstance(v, float) and k in b.data and k not in drop}
            nid += 1
            q = N(nid, lerp(a.p, b.p, f), data)
            M.nodes.append(q)
            chain.append(nid)
        chain.append(b.ID)
        e.n = (chain[0], chain[1])
        for i in range(1, n):
            eid += 1
            w = E(eid, chain[i], chain[i + 1], dict(e.data), e.propset, e.prop)
            w.propIDs = getattr(e, 'propIDs', None)
            new.append(w)
            if meth == 'insert':
                out.append(w)
    M.elems = out + (new if meth == 'append' else [])
    n0 = {q.ID: set(q.data) for q in G.Nodes}
    r = case.call('divideElements', G.divideElements, n, **kw)
    case.check(r is G, 'returned', 'divideElements returns something else than the graph')
    case.check(not [q for q in G.Nodes if q.ID not in n0 and set(q.data) & set(drop)], 'keys-not-to-copy', 'data {} are in new nodes'.format(drop))
    case.event('divide', str(n))
    return True


def history(case, G, M, k):
    rnd = case.rnd
    ops = []
    for _ in range(k):
        op = rnd.choice(['divide', 'sort', 'query', 'query', 'query', 'node', 'element', 'update', 'data', 'data', 'nodedata', 'reconnect', 'motions'])
        ops.append(op)
        if op == 'divide' and len(M.elems) and len(M.elems) < 200:
            if not divide(case, G, M):
                continue
        elif op == 'sort':
            key = rnd.choice(['x', 'y', 'z', 'ID'] + (['w'] if all('w' in n.data for n in M.nodes) else []))
            r = case.call('sortNodesBy', G.sortNodesBy, key)
            val = lambda n: n.ID if key == 'ID' else n.data['w'] if key == 'w' else n.p['xyz'.index(key)]
            order = [n.ID for n in G.Nodes]
            case.check(sorted(order) == sorted(n.ID for n in M.nodes), 'sort', 'sorting lost nodes')
            M.nodes = [M.node(i) for i in order]
            V = [val(n) for n in M.nodes]
            case.check(all(b >= a for a, b in zip(V, V[1:])), 'sort', 'nodes are not sorted by {}: {}'.format(key, V[:6]))
        elif op == 'node':
            from weio.tools.graph import Node
            ID = max(n.ID for n in M.nodes) + rnd.randint(1, 3)
            p, data = [num(rnd) for _ in range(3)], {'w': num(rnd)}
            G.addNode(Node(ID, p[0], p[1], p[2], **data))
            M.nodes.append(N(ID, p, data))
        elif op == 'element' and len(M.nodes) > 1 and all(e.prop is None for e in M.elems):
            from weio.tools.graph import Element
            ID = max([e.ID for e in M.elems] + [0]) + rnd.randint(1, 3)
            a, b = rnd.sample([n.ID for n in M.nodes], 2)
            data = dict(kind=rnd.choice([e.data['kind'] for e in M.elems] or [1]), D=num(rnd))
            G.addElement(Element(ID, [a, b], **data))
            M.elems.append(E(ID, a, b, data))
        elif op == 'data' and M.elems:
            # data of one element
            i = rnd.randrange(len(M.elems))
            k, v = rnd.choice(['D', 'note']), num(rnd)
            G.Elements[i].data[k] = v
            M.elems[i].data[k] = v
        elif op == 'nodedata':
            q = rnd.choice(M.nodes)
            d = {k: num(rnd) for k in rnd.sample(['w', 'z9', 'q'], 2) if k != 'q' or 'q' in q.data}
            if 'w' in q.data or 'w' not in d:
                case.call('setNodalData', G.setNodalData, q.ID, **d)
                q.data.update(d)
            if G.NodePropertySets.get('S') and rnd.random() < 0.5:
                p = rnd.choice(G.NodePropertySets['S'])
                p0 = dict(p.data)
                case.call('setNodeNodalProp', G.setNodeNodalProp, G.getNode(q.ID), 'S', p.ID)
                q.data.update(p0)
                if M.elems:
                    e = rnd.choice(M.elems)
                    case.call('setElementNodalProp', G.setElementNodalProp, G.getElement(e.ID), 'S', [p.ID, p.ID])
                    for i in e.n:
                        M.node(i).data.update(p0)
        elif op == 'reconnect' and M.elems and len(M.nodes) > 2:
            i = rnd.randrange(len(M.elems))
            a, b = rnd.sample([q.ID for q in M.nodes], 2)
            G.Elements[i].nodeIDs = [a, b]
            M.elems[i].n = (a, b)
            case.call('updateConnectivity', G.updateConnectivity)
            G.connecticityHasChanged()
        elif op == 'motions':
            G.Motions.append(dict(disp=np.zeros((2, len(G.Nodes), 3)), time=np.zeros(2), name='m'))
            case.check(isinstance(case.attempt('sort with motions', G.sortNodesBy, 'x'), Raised), 'motions', 'graphs with motions cannot be sorted')
            case.check(isinstance(case.attempt('divide with motions', G.divideElements, 2), Raised) or not M.elems, 'motions', 'graphs with motions cannot be divided')
            G.Motions.pop()
        elif op == 'update':
            case.call('updateConnectivity', G.updateConnectivity)
        elif op == 'query':
            queries(case, G, M)
        if not check_graph(case, G, M):
            break
    return ops


SD_HEAD = """----------- SubDyn v1.01.x MultiMember Support Structure Input File ------------
Test structure
-------------------------- SIMULATION CONTROL  ---------------------------------
False            Echo        - Echo input data
"DEFAULT"        SDdeltaT    - Local Integration Step
             3   IntMethod   - Integration Method
-------------------- FEA and CRAIG-BAMPTON PARAMETERS --------------------------
             3   FEMMod      - FEM switch
             {}   NDiv        - Number of sub-elements per member
"""


def subdyn_text(rnd, J, R, I, M, mc, beam, cable, rigid, CM, old):
    L = [SD_HEAD.format(rnd.randint(1, 5)).rstrip('\n')]

    def sec(title, dim, n, head, rows, units=True):
        L.append('---- {} ----'.format(title))
        L.append('             {}   {}     - Number of rows (-)'.format(n, dim))
        L.append('   '.join(head))
        if units:
            L.append('   '.join('(-)' for _ in head))
        L.extend(tab(rnd, rows))
    sec('STRUCTURE JOINTS', 'NJoints', len(J), ['JointID', 'JointXss', 'JointYss', 'JointZss'] + (['JointType', 'JointDirX', 'JointDirY', 'JointDirZ', 'JointStiff'] if not old else []), J)
    sec('BASE REACTION JOINTS', 'NReact', len(R), ['RJointID', 'RctTDXss', 'RctTDYss', 'RctTDZss', 'RctRDXss', 'RctRDYss', 'RctRDZss', 'SSIfile'], R)
    sec('INTERFACE JOINTS', 'NInterf', len(I), ['IJointID', 'ItfTDXss', 'ItfTDYss', 'ItfTDZss', 'ItfRDXss', 'ItfRDYss', 'ItfRDZss'], I)
    sec('MEMBERS', 'NMembers', len(M), ['MemberID', 'MJointID1', 'MJointID2', 'MPropSetID1', 'MPropSetID2'] + ['MType', 'COSMID'][:mc - 5], M)
    sec('CIRCULAR BEAM CROSS-SECTION PROPERTIES', 'NPropSets', len(beam), ['PropSetID', 'YoungE', 'ShearG', 'MatDens', 'XsecD', 'XsecT'], beam)
    sec('ARBITRARY BEAM CROSS-SECTION PROPERTIES', 'NXPropSets', 0, ['PropSetID', 'YoungE', 'ShearG', 'MatDens', 'XsecA', 'XsecAsx', 'XsecAsy', 'XsecJxx', 'XsecJyy', 'XsecJ0'], [])
    if cable is not None:
        sec('CABLE PROPERTIES', 'NCablePropSets', len(cable), ['PropSetID', 'EA', 'MatDens', 'T0'] + (['CtrlChannel'] if len(cable) == 0 or len(cable[0]) == 5 else []), cable)
        sec('RIGID LINK PROPERTIES', 'NRigidPropSets', len(rigid), ['PropSetID', 'MatDens'], rigid)
    sec('MEMBER COSINE MATRICES COSM(i,j)', 'NCOSMs', 0, ['COSMID'] + ['COSM{}{}'.format(i, j) for i in '123' for j in '123'], [])
    sec('JOINT ADDITIONAL CONCENTRATED MASSES', 'NCmass', len(CM), ['CMJointID', 'JMass', 'JMXX', 'JMYY', 'JMZZ', 'JMXY', 'JMXZ', 'JMYZ', 'MCGX', 'MCGY', 'MCGZ'], CM)
    L += ['---------------------------- OUTPUT: SUMMARY & OUTFILE ------------------------------', 'True             SSSum       - Output a Summary File', '"A11"            OutSFmt     - Output format', 'END of input file']
    return '\n'.join(L) + '\n'


def skew(r):
    return np.array([[0, -r[2], r[1]], [r[2], 0, -r[0]], [-r[1], r[0], 0]])


def positions(rnd, n):
    P = []
    while len(P) < n:
        p = [num(rnd), num(rnd), num(rnd)]
        if p not in P:
            P.append(p)
    return P


def wl_subdyn(case):
    from weio.fast_input_file import FASTInputFile
    rnd = case.rnd
    n = rnd.choice([2, 3, 5, 12])
    m = rnd.choice([1, 2, 4, 15])
    JID = ids(rnd, n)
    P = positions(rnd, n)
    old = rnd.random() < 0.3
    J = [[i] + p + ([] if old else [rnd.choice([1, 1, 1, 2, 3, 4]), 0.0, 0.0, 1.0, 0.0]) for i, p in zip(JID, P)]
    mc = rnd.choice([5, 6, 7])
    newtypes = mc > 5
    sets = {1: 'Beam', 2: 'Cable', 3: 'Rigid'}
    beam = [[i, num(rnd, 1e11), num(rnd, 1e10), num(rnd, 8000), num(rnd, 9), num(rnd, 1)] for i in ids(rnd, rnd.randint(1, 4))]
    withc = newtypes or rnd.random() < 0.3
    chan = rnd.random() < 0.5
    cable = [[i, num(rnd), num(rnd), num(rnd)] + ([rnd.randint(0, 3)] if chan else []) for i in ids(rnd, rnd.randint(1, 3))] if withc else None
    rigid = [[i, num(rnd)] for i in ids(rnd, rnd.randint(1, 3))] if withc else None
    kb, kc, kr = ['E', 'G', 'rho', 'D', 't'], ['EA', 'rho', 'T0', 'Chan'], ['rho']
    PR = {1: {b[0]: dict(zip(kb, b[1:])) for b in beam}, 2: {b[0]: dict(zip(kc, list(b[1:]) + [-1])) for b in cable or []}, 3: {b[0]: dict(zip(kr, b[1:])) for b in rigid or []}}
    rows, elems = [], []
    for i in ids(rnd, m):
        a, b = rnd.sample(JID, 2)
        t = rnd.choice([1, 1, 2, 3]) if newtypes else 1
        p1 = rnd.choice(sorted(PR[t]))
        p2 = p1 if rnd.random() < 0.9 else rnd.choice(sorted(PR[t]))
        rows.append([i, a, b, p1, p2] + [t, -1][:mc - 5])
        e = E(i, a, b, dict(Type=sets[t], object='cylinder'), sets[t], [PR[t][p1], PR[t][p2]])
        e.propIDs = (p1, p2)
        elems.append(e)
    # note: a row of the boundary conditions may name a soil file
    R = [[i] + [rnd.randint(0, 1) for _ in range(6)] + ['"{}"'.format(rnd.choice(['', 'soil.txt', '../x/Soil1.dat']))] for i in rnd.sample(JID, rnd.randint(0, min(n, 3)))]
    I = [[i] + [rnd.randint(0, 1) for _ in range(6)] for i in rnd.sample(JID, rnd.randint(0, min(n, 2)))]
    CM = [[i] + [num(rnd, 1000) for _ in range(10)] for i in rnd.sample(JID, rnd.randint(0, min(n, 2)))]
    fn = case.write('sd.dat', subdyn_text(rnd, J, R, I, rows, mc, beam, cable, rigid, CM, old))
    f = case.call('read', FASTInputFile, fn)
    G = case.call('toGraph', f.toGraph)
    M = Model()
    for j in J:
        M.nodes.append(N(j[0], j[1:4], dict(Type=float(1 if old else j[4]))))
    M.elems = elems
    check_graph(case, G, M, 'file-')
    # --- property sets
    want = {'Beam': PR[1]}
    if withc:
        want.update(Cable=PR[2], Rigid=PR[3])
    case.check(sorted(G.NodePropertySets) == sorted(want) and all([p.ID for p in G.NodePropertySets[k]] == list(want[k]) and all(props_equal(p.data, want[k][p.ID]) for p in G.NodePropertySets[k]) for k in want),
               'property-sets', lambda: 'property sets {} instead of {}'.format({k: [(p.ID, p.data) for p in v] for k, v in G.NodePropertySets.items()}, want))
    # --- boundary conditions and masses
    for key, rowsbc in (('RBC', R), ('IBC', I)):
        for q in G.Nodes:
            row = [r for r in rowsbc if r[0] == q.ID]
            got = q.data.get(key)
            ok = (got is None) if not row else (got is not None and list(got)[:6] == row[0][1:7] and all(not isinstance(v, str) for v in list(got)[:6]) and len(got) == len(row[0]) - 1 and (key == 'IBC' or str(got[6]).strip('"') == row[0][7].strip('"')))
            case.check(ok, 'boundary-conditions', '{} of node {}: {} instead of {}'.format(key, q.ID, got, row))
    for q in G.Nodes:
        row = [r for r in CM if r[0] == q.ID]
        got = q.data.get('addedMassMatrix')
        if not row:
            case.check(got is None, 'mass', 'node {} has a mass'.format(q.ID))
            continue
        _, mm, jxx, jyy, jzz, jxy, jxz, jyz, x, y, z = row[0]
        S = skew((x, y, z))
        X = np.zeros((6, 6))
        X[:3, :3] = mm * np.eye(3)
        X[:3, 3:], X[3:, :3] = -mm * S, mm * S
        X[3:, 3:] = np.array([[jxx, jxy, jxz], [jxy, jyy, jyz], [jxz, jyz, jzz]]) - mm * S @ S
        case.check(got is not None and np.shape(got) == (6, 6) and np.allclose(got, X, rtol=1e-12, atol=1e-9 * np.abs(X).max()), 'mass', lambda: 'mass matrix of node {}: {} instead of {}'.format(q.ID, got, X))
    ops = history(case, G, M, rnd.randint(1, 6))
    case.sig('subdyn', n, m, mc, old, tuple(ops))
    case.desc = dict(joints=n, members=m, ops=ops)


SC12 = ['Cd', 'CdMG', 'Ca', 'CaMG', 'Cp', 'CpMG', 'AxCd', 'AxCdMG', 'AxCa', 'AxCaMG', 'AxCp', 'AxCpMG']
SC10 = [k for k in SC12 if k not in ('AxCd', 'AxCdMG')]


def wl_hydrodyn(case):
    from weio.fast_input_file import FASTInputFile
    rnd = case.rnd
    n, m = rnd.choice([2, 3, 6]), rnd.choice([1, 3, 8])
    SC = rnd.choice([SC10, SC12])
    L = ['------- HydroDyn v2.03.* Input File --------', 'Test', 'False            Echo           - Echo', '---- WAVES ----', '          1025   WtrDens        - Water density (kg/m^3)', '           200   WtrDpth        - Water depth (meters)']

    def sec(title, dim, N_, head, rows):
        L.append('---- {} ----'.format(title))
        if dim:
            L.append('             {}   {}     - Number of rows (-)'.format(N_, dim))
        L.append('   '.join(head))
        L.append('   '.join('(-)' for _ in head))
        L.extend(tab(rnd, rows))
    AX = [[i, num(rnd), num(rnd), num(rnd)] for i in ids(rnd, rnd.randint(1, 3))]
    JID = ids(rnd, n)
    J = [[i] + p + [rnd.choice(AX)[0], 0] for i, p in zip(JID, positions(rnd, n))]
    PS = [[i, num(rnd), num(rnd)] for i in ids(rnd, rnd.randint(1, 3))]
    S = [[num(rnd) for _ in SC]]
    D = [[num(rnd) for _ in range(len(SC) + 1)] for _ in range(rnd.choice([0, 1, 3]))]
    MID = ids(rnd, m)
    MC = [[float(rnd.choice(MID))] + [num(rnd) for _ in range(2 * len(SC))] for _ in range(rnd.choice([0, 0, 2]))]
    mem, elems = [], []
    for i in MID:
        a, b = rnd.sample(JID, 2)
        p1 = rnd.choice(PS)
        p2 = p1 if rnd.random() < 0.8 else rnd.choice(PS)
        mod = rnd.choice([1] + ([2] if D else []) + ([3] if MC else []))
        pot = rnd.choice(['TRUE', 'False', 'True', 'FALSE'])
        ds = round(rnd.uniform(0.1, 5), 2)
        mem.append([i, a, b, p1[0], p2[0], ds, mod, pot])
        e = E(i, a, b, dict(object='cylinder', CoefMod=['SimpleCoefs', 'DepthCoefs', 'MemberCoefs'][mod - 1], DivSize=ds, Pot=pot.lower() == 'true'), 'Section', [dict(D=p[1], t=p[2]) for p in (p1, p2)])
        e.propIDs, e.mod = (p1[0], p2[0]), mod
        elems.append(e)
    MG = [[num(rnd), num(rnd), num(rnd)] for _ in range(rnd.choice([0, 2]))]
    sec('AXIAL COEFFICIENTS', 'NAxCoef', len(AX), ['AxCoefID', 'AxCd', 'AxCa', 'AxCp'], AX)
    sec('MEMBER JOINTS', 'NJoints', n, ['JointID', 'Jointxi', 'Jointyi', 'Jointzi', 'JointAxID', 'JointOvrlp'], J)
    sec('MEMBER CROSS-SECTION PROPERTIES', 'NPropSets', len(PS), ['PropSetID', 'PropD', 'PropThck'], PS)
    sec('SIMPLE HYDRODYNAMIC COEFFICIENTS (model 1)', '', 1, ['Simpl' + k for k in SC], S)
    sec('DEPTH-BASED HYDRODYNAMIC COEFFICIENTS (model 2)', 'NCoefDpth', len(D), ['Dpth'] + ['Dpth' + k for k in SC], D)
    sec('MEMBER-BASED HYDRODYNAMIC COEFFICIENTS (model 3)', 'NCoefMembers', len(MC), ['MemberID'] + ['Member' + k + q for k in SC for q in '12'], MC)
    sec('MEMBERS', 'NMembers', m, ['MemberID', 'MJointID1', 'MJointID2', 'MPropSetID1', 'MPropSetID2', 'MDivSize', 'MCoefMod', 'PropPot'], mem)
    sec('FILLED MEMBERS', 'NFillGroups', 0, ['FillNumM', 'FillMList', 'FillFSLoc', 'FillDens'], [])
    sec('MARINE GROWTH', 'NMGDepths', len(MG), ['MGDpth', 'MGThck', 'MGDens'], MG)
    L += ['---- OUTPUT ----', 'False            HDSum          - Output a summary file [flag]', 'END of output']
    f = case.call('read', FASTInputFile, case.write('hd.dat', '\n'.join(L) + '\n'))
    G = case.call('toGraph', f.toGraph)
    M = Model()
    A = {a[0]: dict(zip(['JAxCd', 'JAxCa', 'JAxCp'], a[1:])) for a in AX}
    simple = dict(zip(SC, S[0]))
    for j in J:
        d = {k: float(v) for k, v in A[j[4]].items()}
        if any(e.mod == 1 and j[0] in e.n for e in elems):
            d.update({k: float(v) for k, v in simple.items()})     # coefficients are stored at the nodes
        M.nodes.append(N(j[0], j[1:4], d))
    M.elems = elems
    check_graph(case, G, M, 'file-')

    def pset(name, got, want):
        got = {k: [(p.ID, p.data) for p in v] for k, v in got.items()}
        case.check(sorted(got) == sorted(want) and all([i for i, _ in got[k]] == [i for i, _ in want[k]] and all(props_equal(a, b) for (_, a), (_, b) in zip(got[k], want[k])) for k in want),
                   'property-sets', lambda: '{} properties {} instead of {}'.format(name, got, want))
    pset('node', G.NodePropertySets, dict(Section=[(p[0], dict(D=p[1], t=p[2])) for p in PS], AxCoefs=list(A.items()), SimpleCoefs=[(1, simple)]))
    want = dict(DepthCoefs=[(i + 1, dict(zip(['Dpth'] + SC, r))) for i, r in enumerate(D)], MemberCoefs=[(i + 1, dict(zip(['MemberID'] + [k + q for k in SC for q in '12'], r))) for i, r in enumerate(MC)],
                MG=[(i + 1, dict(zip(['MGDpth', 'MGThck', 'MGDens'], r))) for i, r in enumerate(MG)])
    got = {k: v for k, v in G.MiscPropertySets.items() if len(v) or k in want and want[k]}
    pset('other', got, {k: v for k, v in want.items() if v})
    ops = history(case, G, M, rnd.randint(1, 5))
    case.sig('hydrodyn', n, m, len(SC), tuple(ops))
    case.desc = dict(joints=n, members=m, ops=ops)


def wl_model(case):
    """graphs made by the user"""
    from weio.tools.graph import GraphModel, Node, Element, NodeProperty, ElemProperty, Property
    rnd = case.rnd
    n, m = rnd.choice([2, 3, 6, 20]), rnd.choice([0, 1, 4, 20])
    NID, M = ids(rnd, n), Model()
    G = GraphModel()
    hasp = rnd.random() < 0.5
    PR = {i: dict(D=num(rnd), t=num(rnd)) for i in ids(rnd, 3)}
    if hasp:
        G.addNodePropertySet('S')
        for i, p in PR.items():
            G.addNodeProperty('S', NodeProperty(i, **p) if rnd.random() < 0.5 else NodeProperty(i, dict(p)))
    G.addElementPropertySet('EP')
    G.addElementProperty('EP', ElemProperty(7, a=1.5))
    G.addMiscPropertySet('MP')
    G.addMiscProperty('MP', Property(3, b=2.5))
    for bad, fn in (('node', lambda: G.addNodeProperty('S' if hasp else 'EP', Property(99, D=1.0))), ('element', lambda: G.addElementProperty('EP', Property(99, a=1.0))),
                    ('element', lambda: G.addElementProperty('EP', NodeProperty(99, a=1.0))), ('other', lambda: G.addMiscProperty('MP', dict(b=1))),
                    ('missing', lambda: G.getElementProperty('EP', 99)), ('missing', lambda: G.getMiscProperty('MP', 99)), ('missing', lambda: G.getNodeProperty('S', 10**6))):
        case.check(isinstance(case.attempt('bad property', fn), Raised), 'property-refused', bad)
    case.check([p.ID for p in G.ElemPropertySets['EP']] == [7] and [p.ID for p in G.MiscPropertySets['MP']] == [3] and len(G.NodePropertySets.get('S', [])) == (3 if hasp else 0), 'property-sets', 'properties which were refused are there')
    case.check(G.getElementProperty('EP', 7)['a'] == 1.5 and G.getMiscProperty('MP', 3)['b'] == 2.5, 'property-sets', 'properties by ID')
    flat = rnd.random() < 0.2
    for i, p in zip(NID, positions(rnd, n)):
        d = dict(w=num(rnd))
        if rnd.random() < 0.5:
            d['q'] = num(rnd)
        if flat:
            p[2] = 0
        G.addNode(Node(i, p[0], p[1], **d) if flat else Node(i, *p, **d))
        M.nodes.append(N(i, p, dict(d)))
    kinds = rnd.choice([[1, 2, 3, 12], ['Beam', 'Bea', 'Beam2', 'CableBeam']])
    for i in ids(rnd, m):
        a, b = rnd.sample(NID, 2)
        d = dict(kind=kinds[rnd.randint(0, 3)])
        if rnd.random() < 0.7:
            d['D'] = num(rnd)
        if hasp:
            k = rnd.choice(sorted(PR))
            P = rnd.choice([[k, k], np.array([k, k])])
            G.addElement(Element(i, [a, b], propset='S', propIDs=P, **d))
            e = E(i, a, b, dict(d), 'S', [PR[k], PR[k]])
            e.propIDs = (k, k)
        else:
            G.addElement(Element(i, [a, b], **d))
            e = E(i, a, b, dict(d))
        M.elems.append(e)
        if rnd.random() < 0.2:
            queries(case, G, M, 'building-')
    check_graph(case, G, M)
    ops = history(case, G, M, rnd.randint(2, 9))
    if rnd.random() < 0.4:
        M.modes = []
        for k in range(rnd.randint(1, 3)):
            D = np.array([[num(rnd) for _ in range(3)] for _ in M.nodes])
            fr = rnd.choice([0.5 + k, 1, 1.0, 0, 0.01])
            G.addMode(displ=D.copy(), name=None if rnd.random() < 0.5 else 'B{}'.format(k), freq=fr)
            M.modes.append((G.Modes[-1]['name'], fr, D))
        case.check(len(set(q[0] for q in M.modes)) == len(M.modes), 'modes', 'names of modes')
        check_graph(case, G, M)
        queries(case, G, M)
        case.check(isinstance(case.attempt('divide with modes', G.divideElements, 2), Raised) or not M.elems, 'modes', 'graphs with modes cannot be divided')
        case.check(isinstance(case.attempt('sort with modes', G.sortNodesBy, 'x'), Raised), 'modes', 'graphs with modes cannot be sorted')
        check_graph(case, G, M, 'refused-')
        ops.append('modes')
    case.sig('model', n, m, hasp, tuple(ops))
    case.desc = dict(nodes=n, elements=m, ops=ops)


WORKLOADS = [Workload('subdyn', wl_subdyn, 1000, 12000), Workload('hydrodyn', wl_hydrodyn, 800, 10000), Workload('model', wl_model, 2000, 25000)]
