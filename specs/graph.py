"""Graph: edges, all-pairs shortest paths (Floyd-Warshall), path reconstruction, caches; Graph2D: index <-> node bijection."""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from f2cv import models as M

TY = 'f2c::types::'
G = TY + 'Graph::'
I64 = LONG
ROW = T('vec', None, (LONG,))
MAT = T('vec', None, (ROW,))
EROW = T('map', None, (SIZE, LONG))
EDGES = T('map', None, (SIZE, EROW))


def row(m, i):
    return at(m, i)


def el(m, i, j):
    return at(at(m, i), j).z


def erow(e, i):
    return unpack(EROW, e.val[i])


def node(e, i):
    return e.dom[i]


def edge(e, i, j):
    return And(e.dom[i], erow(e, i).dom[j])


def w(e, i, j):
    return erow(e, i).val[j]


def q2(lo, hi, f, pats=None):
    i, j = qi('i'), qi('j')
    kw = {'patterns': [p for p in pats(i, j)]} if pats else {}
    return z3.ForAll([i, j], Implies(And(lo <= i, i < hi, lo <= j, j < hi), f(i, j)), **kw)


def sel(m, i, j):
    """the select terms of m[i][j] as trigger"""
    return unpack(ROW, m.arr[i]).arr[j]


def square(m, n):
    return And(m.n == n, fa(m, lambda i, r: r.n == n))


def closed(e, n, INF):
    """indices below n, costs in [0, INF), every end of an edge is a node"""
    i, j = qi('i'), qi('j')
    return And(z3.ForAll([i], Implies(node(e, i), And(0 <= i, i < n)), patterns=[e.dom[i]]),
               z3.ForAll([i, j], Implies(edge(e, i, j), And(node(e, j), 0 <= w(e, i, j), w(e, i, j) < INF)), patterns=[erow(e, i).dom[j]]))


def closed_any(e):
    """costs not negative, every end of an edge is a node"""
    i, j = qi('i'), qi('j')
    return z3.ForAll([i, j], Implies(edge(e, i, j), And(node(e, j), 0 <= w(e, i, j))), patterns=[erow(e, i).dom[j]])


def bounds(d, n, INF):
    return q2(0, n, lambda i, j: And(0 <= el(d, i, j), el(d, i, j) <= INF), lambda i, j: [sel(d, i, j)])


def diag(e, d, n, INF):
    """0 from a node to itself; nothing reaches or leaves an index without a node"""
    i, j = qi('i'), qi('j')
    return And(z3.ForAll([i], Implies(And(0 <= i, i < n, node(e, i)), el(d, i, i) == 0), patterns=[d.arr[i]]),
               z3.ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n, Or(Not(node(e, i)), Not(node(e, j)))), el(d, i, j) == INF), patterns=[sel(d, i, j)]))


def below_edges(e, d, n):
    """never dearer than the direct edge"""
    i, j = qi('i'), qi('j')
    return z3.ForAll([i, j], Implies(And(edge(e, i, j)), el(d, i, j) <= w(e, i, j)), patterns=[erow(e, i).dom[j], sel(d, i, j)])


def triangle(d, n, upto):
    i, j, m = qi('i'), qi('j'), qi('m')
    return z3.ForAll([i, j, m], Implies(And(0 <= i, i < n, 0 <= j, j < n, 0 <= m, m < upto), el(d, i, j) <= el(d, i, m) + el(d, m, j)),
                     patterns=[z3.MultiPattern(sel(d, i, m), sel(d, m, j))])


def nexts(e, d, nx, n, INF):
    """next holds the first node after i on a cheapest way to j, -1 exactly when there is none"""
    def f(i, j):
        h = el(nx, i, j)
        return Implies(i != j, If(el(d, i, j) == INF, h == -1, And(0 <= h, h < n, edge(e, i, h), el(d, i, j) >= w(e, i, h) + el(d, h, j))))
    return q2(0, n, f, lambda i, j: [sel(nx, i, j), sel(d, i, j)])


def next_graph(e, nx, n):
    """next alone: -1 or the index of a node from which the way to j goes on"""
    def f(i, j):
        h = el(nx, i, j)
        return Implies(And(i != j, h != -1), And(0 <= h, h < n, edge(e, i, h), Or(h == j, el(nx, h, j) != -1)))
    return q2(0, n, f, lambda i, j: [sel(nx, i, j)])


def matrices(L):
    return [l for l, v in L.places(lambda x: isinstance(x, Vec) and x.t == MAT)]


def lex(st, cs):
    return [f(st) for f in cs]


def live_counters(L):
    """own counters, then those of the enclosing loops (innermost first)"""
    own = [(n, f) for n, f, _ in L.counters()]
    out = []
    for o in reversed(L.outer):
        out.append([(n, f) for n, f, _ in o.counters()])
    return own, out


def args_of(C):
    """(dist, next, INF, edges) of initializeMatrices by position"""
    return C.locs[0], C.locs[1], C.arg(2).z, C.this().f['edges_']


def inv_init(L):
    """filling the matrices from the edges, visiting the two levels of the map in any order"""
    C = L.E.entry
    if C.con.name != G + 'initializeMatrices' or L.visit is None:
        return []
    dl, nl, INF, e = args_of(C)
    d0, n0 = C.arg(0), C.arg(1)
    N = d0.n
    out = []
    chain = [o for o in L.outer if o.visit is not None] + [L]

    def visited(L_, st, k):
        m, ix, pos = L_.visit
        return And(m.dom[k], pos[k] < L_.z(st, ix))

    def current(L_, st):
        m, ix, pos = L_.visit
        k = qi('k')
        return lambda k: And(m.dom[k], pos[k] == L_.z(st, ix))

    def done(st, i, j):
        if len(chain) == 1:
            return And(visited(chain[0], st, i), edge(e, i, j))
        o, m = chain[0], chain[-1]
        return Or(And(visited(o, st, i), edge(e, i, j)), And(current(o, st)(i), edge(e, i, j), visited(m, st, j)))

    def rowdone(st, i):
        return visited(chain[0], st, i)

    def shape(st):
        return And(square(L.at(st, dl), N), square(L.at(st, nl), N))
    out.append(('shape kept', shape))

    def vals(st):
        d = L.at(st, dl)
        return q2(0, N, lambda i, j: el(d, i, j) == If(And(i == j, rowdone(st, i)), 0, If(done(st, i, j), w(e, i, j), INF)), lambda i, j: [sel(d, i, j)])

    def vals2(st):
        d = L.at(st, dl)
        return q2(0, N, lambda i, j: Or(And(i == j, rowdone(st, i), el(d, i, j) == 0), And(Not(And(i == j, rowdone(st, i))), Or(And(done(st, i, j), el(d, i, j) == w(e, i, j)),
                                        And(Not(done(st, i, j)), el(d, i, j) == INF)))), lambda i, j: [sel(d, i, j)])
    out.append(('costs of the edges visited', vals2))

    def nvals(st):
        nx = L.at(st, nl)
        return q2(0, N, lambda i, j: el(nx, i, j) == If(done(st, i, j), j, -1), lambda i, j: [sel(nx, i, j)])
    out.append(('next of the edges visited', nvals))
    return out


def core(C, d, nx, upto=None):
    _, _, INF, e = args_of(C)
    N = C.arg(0).n
    return [('shape', And(square(d, N), square(nx, N))),
            ('bounds', bounds(d, N, INF)),
            ('diagonal', diag(e, d, N, INF)),
            ('edges', below_edges(e, d, N)),
            ('next', nexts(e, d, nx, N, INF))]


def relaxed(d0, i, j, k):
    a = el(d0, i, k) + el(d0, k, j)
    return If(el(d0, i, j) > a, a, el(d0, i, j))


def nexts_of(L):
    """the matrices a path may be read from, not written in this loop: an argument before a field"""
    C = L.E.entry
    if C.con.name == G + 'initializeMatrices':
        return [C.locs[1]]
    ms = [l for l in matrices(L) if not L.modified(l) and l.path[-1:] != (('f', 'distance_'),)]
    a = [l for l in ms if any(l.root == x.root for x in C.locs)]
    return a or ms


def inv_chain(L):
    """following next towards a target: the position is a node from which the way goes on, or the target"""
    C = L.E.entry
    if L.visit is not None or L.idx is not None:
        return []
    ms = matrices(L)
    if any(L.modified(l) for l in ms):
        return []
    nxs = nexts_of(L)
    own, outer = live_counters(L)
    own = [x for x in L.counters()]
    ts = [x for o in outer for x in o] or [(l.root[1], (lambda st, l=l: L.z(st, l))) for l in C.locs if isinstance(L.at(L.entry, l), Sc) and L.at(L.entry, l).t.kind == 'int']
    out = []
    cn_ = L.cond_names()
    if any(tn in cn_ for tn, _ in ts):
        ts = [x for x in ts if x[0] in cn_]
    for l in nxs:
        for cn, cf, *_ in own:
            if (cn_ and cn not in cn_) or cn + ' <= entry' in L.drop or cn + ' >= entry' in L.drop:
                continue
            for tn, tf in ts:
                def on(st, l=l, cf=cf, tf=tf):
                    nx, j, c = L.at(st, l), tf(st), cf(st)
                    return And(0 <= c, c < nx.n, Or(c == j, el(nx, c, j) != -1))
                out.append(('%s is on a way to %s' % (cn, tn), on))
    return out


def inv_fw(L):
    C = L.E.entry
    if C.con.name != G + 'initializeMatrices' or L.visit is not None:
        return []
    dl, nl, INF, e = args_of(C)
    N = C.arg(0).n
    out = []
    own, outer = live_counters(L)
    nm = [x for x in core(C, C.arg(0), C.arg(1))]
    if not L.modified(dl):
        return out
    out.append(('matrices stay square', lambda st: And(square(L.at(st, dl), N), square(L.at(st, nl), N))))
    if not outer and L.modified(nl):
        for i in range(1, len(nm)):
            out.append(('all pairs: ' + nm[i][0], lambda st, i=i: core(C, L.at(st, dl), L.at(st, nl))[i][1]))
        for cn, cf in own:
            out.append(('triangle below ' + cn, lambda st, cf=cf: triangle(L.at(st, dl), N, cf(st))))
    d0, n0 = L.at(L.entry, dl), L.at(L.entry, nl)
    if not L.modified(nl):     # a loop that only looks: no cost changes
        return out + [('no cost changes', lambda st: q2(0, N, lambda i, j: el(L.at(st, dl), i, j) == el(d0, i, j), lambda i, j: [sel(L.at(st, dl), i, j)]))]
    if len(outer) == 1:        # rows (or columns) one after the other, against the costs at the start of this round
        for cn, cf in own:
            for kn, kf in outer[0]:
                def rows(st, cf=cf, kf=kf):
                    d = L.at(st, dl)
                    return q2(0, N, lambda i, j: el(d, i, j) == If(i < cf(st), relaxed(d0, i, j, kf(st)), el(d0, i, j)), lambda i, j: [sel(d, i, j)])
                out.append(('rows below %s relaxed through %s' % (cn, kn), rows))

                def nrows(st, cf=cf, kf=kf):
                    nx = L.at(st, nl)
                    return q2(0, N, lambda i, j: el(nx, i, j) == If(And(i < cf(st), el(d0, i, j) > el(d0, i, kf(st)) + el(d0, kf(st), j)), el(n0, i, kf(st)), el(n0, i, j)), lambda i, j: [sel(nx, i, j)])
                out.append(('next of rows below %s' % cn, nrows))
    if len(outer) == 2:
        for cn, cf in own:
            for an, af in outer[0]:
                for kn, kf in outer[1]:
                    def cells(st, cf=cf, af=af, kf=kf):
                        d = L.at(st, dl)
                        return q2(0, N, lambda i, j: el(d, i, j) == If(And(i == af(st), j < cf(st)), relaxed(d0, i, j, kf(st)), el(d0, i, j)), lambda i, j: [sel(d, i, j)])
                    out.append(('cells of row %s below %s relaxed through %s' % (an, cn, kn), cells))

                    def ncells(st, cf=cf, af=af, kf=kf):
                        nx = L.at(st, nl)
                        return q2(0, N, lambda i, j: el(nx, i, j) == If(And(i == af(st), j < cf(st), el(d0, i, j) > el(d0, i, kf(st)) + el(d0, kf(st), j)), el(n0, i, kf(st)), el(n0, i, j)), lambda i, j: [sel(nx, i, j)])
                    out.append(('next of row %s below %s' % (an, cn), ncells))
    return out


def init_req(C):
    d, nx, INF, e = C.arg(0), C.arg(1), C.arg(2).z, C.this().f['edges_']
    N = d.n
    return [('INF is positive and twice it fits', And(0 < INF, INF <= 1 << 62)),
            ('square matrices of the same size', And(square(d, N), square(nx, N))),
            ('costs start at INF, next at -1', And(q2(0, N, lambda i, j: el(d, i, j) == INF, lambda i, j: [sel(d, i, j)]), q2(0, N, lambda i, j: el(nx, i, j) == -1, lambda i, j: [sel(nx, i, j)]))),
            ('edges join nodes with an index inside the matrices, costs in [0, INF)', closed(e, N, INF))]


def shortest(e, d, nx, n, INF):
    return [('square matrices', And(square(d, n), square(nx, n))),
            ('costs between 0 and INF', bounds(d, n, INF)),
            ('a node costs 0 from itself; nothing reaches an index without a node', diag(e, d, n, INF)),
            ('not dearer than a direct edge', below_edges(e, d, n)),
            ('not dearer than any way through a third node (by induction on its length, no walk is cheaper)', triangle(d, n, n)),
            ('realised: the first step of a cheapest path is an edge and the rest costs the difference', nexts(e, d, nx, n, INF))]


Contract(G + 'initializeMatrices', props=['C04'], requires=init_req, modifies=lambda C: [C.locs[0], C.locs[1]],
         invariants=[inv_init, inv_fw, inv_chain], budget=400,
         ensures=lambda C: shortest(C.this().f['edges_'], C.arg_post(0), C.arg_post(1), C.arg(0).n, C.arg(2).z))


# ------------------------------------------------------------------ edges
def clean(g):
    return And(g.f['next_'].n == 0, g.f['distance_'].n == 0, g.f['shortest_paths_'].n == 0)


def caches_kept(a, b):
    return And(*[b.f[k].z == a.f[k].z if hasattr(b.f[k], 'z') else pack(b.f[k]) == pack(a.f[k]) for k in ('next_', 'distance_', 'shortest_paths_')])


def derived(g):
    """paths are only stored next to the matrices they come from"""
    return Implies(And(g.f['next_'].n == 0, g.f['distance_'].n == 0), g.f['shortest_paths_'].n == 0)


def same_edges(a, b):
    return pack(a) == pack(b)


def edges_are(e2, e1, nodes, added, removed, cost=None):
    """e2 = e1 with the nodes and edges of `added`, without `removed` (functions of the indices)"""
    i, j = qi('i'), qi('j')
    return [('nodes', z3.ForAll([i], node(e2, i) == Or(node(e1, i), nodes(i)), patterns=[e2.dom[i]])),
            ('edges', z3.ForAll([i, j], edge(e2, i, j) == Or(added(i, j), And(edge(e1, i, j), Not(removed(i, j)))), patterns=[erow(e2, i).dom[j]])),
            ('costs', z3.ForAll([i, j], Implies(edge(e2, i, j), w(e2, i, j) == (If(added(i, j), cost, w(e1, i, j)) if cost is not None else w(e1, i, j))), patterns=[erow(e2, i).dom[j]]))]


no = lambda *a: z3.BoolVal(False)


def frame_of(C):
    return [C.obj]


Contract(G + 'addDirectedEdge', props=['C04'], ret=lambda C: C.obj, requires=lambda C: [('derived', derived(C.this()))],
         modifies=lambda C: [C.obj.fld(k) for k in ('edges_', 'next_', 'distance_', 'shortest_paths_')],
         ensures=lambda C: edges_are(C.this_post().f['edges_'], C.this().f['edges_'], lambda i: Or(i == C.arg(0).z, i == C.arg(1).z),
                                     lambda i, j: And(i == C.arg(0).z, j == C.arg(1).z), no, C.arg(2).z)
         + [('nothing computed from the old edges is kept', clean(C.this_post()))])

Contract(G + 'addEdge', props=['C04'], ret=lambda C: C.obj, requires=lambda C: [('derived', derived(C.this()))],
         modifies=lambda C: [C.obj.fld(k) for k in ('edges_', 'next_', 'distance_', 'shortest_paths_')],
         ensures=lambda C: edges_are(C.this_post().f['edges_'], C.this().f['edges_'], lambda i: Or(i == C.arg(0).z, i == C.arg(1).z),
                                     lambda i, j: Or(And(i == C.arg(0).z, j == C.arg(1).z), And(j == C.arg(0).z, i == C.arg(1).z)), no, C.arg(2).z)
         + [('nothing computed from the old edges is kept', clean(C.this_post()))])


def removed(C, f):
    a, b = C.this(), C.this_post()
    i, j = qi('i'), qi('j')
    there = z3.Exists([i, j], And(f(i, j), edge(a.f['edges_'], i, j)))
    return edges_are(b.f['edges_'], a.f['edges_'], no, no, f) + [('nothing computed from the old edges is kept', Or(clean(b), And(Not(there), caches_kept(a, b))))]


Contract(G + 'removeDirectedEdge', props=['C04'], ret=lambda C: C.obj, requires=lambda C: [('derived', derived(C.this()))], modifies=lambda C: [C.obj.fld(k) for k in ('edges_', 'next_', 'distance_', 'shortest_paths_')],
         ensures=lambda C: removed(C, lambda i, j: And(i == C.arg(0).z, j == C.arg(1).z)))
Contract(G + 'removeEdge', props=['C04'], ret=lambda C: C.obj, requires=lambda C: [('derived', derived(C.this()))], modifies=lambda C: [C.obj.fld(k) for k in ('edges_', 'next_', 'distance_', 'shortest_paths_')],
         ensures=lambda C: removed(C, lambda i, j: Or(And(i == C.arg(0).z, j == C.arg(1).z), And(j == C.arg(0).z, i == C.arg(1).z))))

Contract(G + 'numNodes', props=['C04'], ensures=lambda C: [('number of nodes', C.res.z == C.this().f['edges_'].n)])
Contract(G + 'getEdges', props=['C04'], ensures=lambda C: [('the edges', same_edges(C.res, C.this().f['edges_']))])


def inv_end(L):
    if L.visit is None:
        return []
    m, ix, pos = L.visit
    out = []
    for cn, cf, z0 in L.counters():
        if cn == 'idx#':
            continue
        k, k2 = qi('k'), qi('k')
        out.append((cn + ' above the indices visited', lambda st, cf=cf: z3.ForAll([k], Implies(And(m.dom[k], pos[k] < L.z(st, ix)), k < cf(st)), patterns=[m.dom[k]])))
        out.append((cn + ' is 0 or one more than a node', lambda st, cf=cf: Or(cf(st) == 0, m.dom[cf(st) - 1])))
    return out


Contract(G + 'indexEnd', props=['C04'], invariants=[inv_end],
         requires=lambda C: [('indices are sizes of possible vectors', z3.ForAll([qi('i')], z3.BoolVal(True)))],
         ensures=lambda C: [('above every index', z3.ForAll([z3.Int('ie_i')], Implies(node(C.this().f['edges_'], z3.Int('ie_i')), And(0 <= z3.Int('ie_i'), z3.Int('ie_i') < C.res.z)), patterns=[C.this().f['edges_'].dom[z3.Int('ie_i')]])),
                            ('tight', Or(C.res.z == 0, node(C.this().f['edges_'], C.res.z - 1)))])


def inv_targets(L):
    """collecting the ends of the edges of one node"""
    if L.visit is None:
        return []
    m, ix, pos = L.visit
    out = []
    for l, v in L.vecs(elem='int', mod=True):
        k, k2 = qi('k'), qi('k')
        out.append(('%s: one entry per key visited' % l.root[1], lambda st, l=l, v=v: L.at(st, l).n == v.n + L.z(st, ix)))
        out.append(('%s: entries are keys in the order of the visit' % l.root[1],
                    lambda st, l=l: fa(L.at(st, l), lambda i, x: And(m.dom[x.z], pos[x.z] == i))))
    return out


Contract(G + 'getEdgesFrom', props=['C04'], invariants=[inv_targets],
         ensures=lambda C: (lambda e, s, r: [
             ('none for an unknown node', Implies(Not(node(e, s)), r.n == 0)),
             ('one entry per edge', Implies(node(e, s), r.n == erow(e, s).n)),
             ('only ends of edges, each once', And(fa(r, lambda i, x: edge(e, s, x.z)),
                                                   fa(r, lambda i, x: fa(r, lambda j, y: Implies(i != j, x.z != y.z)))))])(C.this().f['edges_'], C.arg(0).z, C.res))

Contract(G + 'getCostFromEdge', props=['C04'],
         ensures=lambda C: [('cost of the edge, INF without edge', C.res.z == If(edge(C.this().f['edges_'], C.arg(0).z, C.arg(1).z), w(C.this().f['edges_'], C.arg(0).z, C.arg(1).z), C.arg(2).z))])

DEF_INF = z3.IntVal(10 ** 15)


def finite(e, INF):
    """what the shortest-path functions ask of the edges: ends are nodes, 0 <= cost < INF"""
    i, j = qi('i'), qi('j')
    return [('INF is positive and twice it fits', And(0 < INF, INF <= 1 << 62)),
            ('edges join nodes and cost [0, INF)', z3.ForAll([i, j], Implies(edge(e, i, j), And(node(e, j), 0 <= w(e, i, j), w(e, i, j) < INF)), patterns=[erow(e, i).dom[j]])),
            ('indices fit', z3.ForAll([i], Implies(node(e, i), And(0 <= i, i < (1 << 31))), patterns=[e.dom[i]]))]


def solved(g, INF):
    d, nx, e = g.f['distance_'], g.f['next_'], g.f['edges_']
    i = qi('i')
    return [('the matrices cover the nodes', z3.ForAll([i], Implies(node(e, i), And(0 <= i, i < d.n)), patterns=[e.dom[i]]))] + shortest(e, d, nx, d.n, INF)


Contract(G + 'shortestPathsAndCosts', props=['C04'], requires=lambda C: finite(C.this().f['edges_'], C.arg(0).z),
         modifies=lambda C: [C.obj.fld('distance_'), C.obj.fld('next_')],
         ensures=lambda C: solved(C.this_post(), C.arg(0).z))


def cached(g):
    return And(g.f['next_'].n != 0, g.f['distance_'].n != 0)


def consistent(g):
    """both matrices are there or none, stored paths only next to them"""
    return [('both matrices or none', (g.f['next_'].n == 0) == (g.f['distance_'].n == 0)), ('derived', derived(g))]


def refreshed(C, INF):
    """the matrices are the ones stored before, or the ones of the current edges"""
    a, b = C.this(), C.this_post()
    kept = And(pack(b.f['next_']) == pack(a.f['next_']), pack(b.f['distance_']) == pack(a.f['distance_']))
    return [('stored matrices are kept', Implies(cached(a), kept))] + [('without stored matrices, computed from the current edges: ' + n, Implies(Not(cached(a)), f)) for n, f in solved(b, INF)]


def below_inf(C, INF):
    return [(n, Implies(Not(cached(C.this())), f)) for n, f in finite(C.this().f['edges_'], INF)]


Contract(G + 'getCosts', props=['C04'], requires=lambda C: consistent(C.this()) + below_inf(C, DEF_INF),
         modifies=lambda C: [C.obj.fld('distance_'), C.obj.fld('next_')], ret=lambda C: C.obj.fld('distance_'),
         ensures=lambda C: refreshed(C, DEF_INF))


def goes_on(nx, n):
    """entries of next are indices from which the way goes on, or -1"""
    def f(i, j):
        h = el(nx, i, j)
        return Implies(And(i != j, h != -1), And(0 <= h, h < n, Or(h == j, el(nx, h, j) != -1)))
    return q2(0, n, f, lambda i, j: [sel(nx, i, j)])


def inv_path(L):
    """following next: the vector holds the indices passed, the last one is the current one"""
    if L.visit is not None:
        return []
    out = []
    ch = inv_chain(L)
    for l, v in L.vecs(elem='int', mod=True):
        for cn, cf, z0 in L.counters():
            out.append(('%s ends with %s' % (l.root[1], cn), lambda st, l=l, cf=cf: And(L.at(st, l).n >= 1, L.at(st, l).arr[L.at(st, l).n - 1] == cf(st))))
        out.append(('%s keeps its start' % l.root[1], lambda st, l=l, v=v: Implies(v.n >= 1, L.at(st, l).arr[0] == v.arr[0])))
        for nl in nexts_of(L):
            for t in targets_of(L):
                out.append(('%s follows next' % l.root[1], lambda st, l=l, nl=nl, t=t: follows(L.at(st, l), L.at(st, nl), t(st))))
    return out


def targets_of(L):
    C = L.E.entry
    own, outer = live_counters(L)
    ts = [x for o in outer for x in o] + [(l.root[1], (lambda st, l=l: L.z(st, l))) for l in C.locs if isinstance(L.at(L.entry, l), Sc) and L.at(L.entry, l).t.kind == 'int']
    cn_ = L.cond_names()
    if any(tn in cn_ for tn, _ in ts):
        ts = [x for x in ts if x[0] in cn_]
    return [f for _, f in ts]


def follows(p, nx, t):
    i = qi('i')
    return fai(0, p.n - 1, lambda i: And(p.arr[i] != t, 0 <= p.arr[i], p.arr[i] < nx.n, p.arr[i + 1] == el(nx, p.arr[i], t)), pats=lambda i: [p.arr[i]])


def is_path(p, f, t, nx):
    """p leads from f to t along next"""
    return And(p.n >= 2, p.arr[0] == f, p.arr[p.n - 1] == t, follows(p, nx, t))


def path_spec(p, f, t, nx):
    return [('a path when there is one, else nothing', If(And(f != t, el(nx, f, t) != -1), is_path(p, f, t, nx), p.n == 0))]


Contract(G + 'reconstructPath', props=['C04'], invariants=[inv_chain, inv_path],
         requires=lambda C: (lambda f, t, nx: [('indices inside', And(0 <= f, f < nx.n, 0 <= t, t < nx.n)), ('square', square(nx, nx.n)), ('next goes on', goes_on(nx, nx.n))])(C.arg(0).z, C.arg(1).z, C.arg(2)),
         ensures=lambda C: path_spec(C.res, C.arg(0).z, C.arg(1).z, C.arg(2)))


def stored_ok(g):
    return And(square(g.f['next_'], g.f['next_'].n), goes_on(g.f['next_'], g.f['next_'].n), square(g.f['distance_'], g.f['next_'].n))


def ends_known(C, a, b):
    g = C.this()
    e = g.f['edges_']
    return [('the ends are inside the matrices', And(Implies(cached(g), And(0 <= a, a < g.f['next_'].n, 0 <= b, b < g.f['next_'].n)),
                                                     Implies(Not(cached(g)), And(node(e, a), node(e, b))))),
            ('stored matrices have the shape the computation gave them', Implies(cached(g), stored_ok(g)))]


def some_nodes(C, *a):
    g = C.this()
    return [('a graph with a node has a size', And([Implies(node(g.f['edges_'], x), g.f['edges_'].n > 0) for x in a]))]


Contract(G + 'shortestPath', props=['C04'], requires=lambda C: consistent(C.this()) + below_inf(C, C.arg(2).z) + ends_known(C, C.arg(0).z, C.arg(1).z),

         modifies=lambda C: [C.obj.fld('distance_'), C.obj.fld('next_')],
         ensures=lambda C: refreshed(C, C.arg(2).z) + path_spec(C.res, C.arg(0).z, C.arg(1).z, C.this_post().f['next_']))

Contract(G + 'shortestPathCost', props=['C04'], requires=lambda C: consistent(C.this()) + below_inf(C, C.arg(2).z) + ends_known(C, C.arg(0).z, C.arg(1).z),

         modifies=lambda C: [C.obj.fld('distance_'), C.obj.fld('next_')],
         ensures=lambda C: refreshed(C, C.arg(2).z) + [('the cost in the matrix', C.res.z == el(C.this_post().f['distance_'], C.arg(0).z, C.arg(1).z))])


def inv_paths(L):
    """one stored path per pair of indices handled"""
    if L.visit is not None:
        return []
    out = []
    T3 = T('vec', None, (T('vec', None, (T('vec', None, (SIZE,)),)),))
    own, outer = live_counters(L)
    for l, v in L.places(lambda x: isinstance(x, Vec) and x.t.kind == 'vec' and x.t.e.kind == 'vec' and x.t.e.e.kind == 'vec'):
        if not L.modified(l):
            continue
        n = v.n
        out.append(('stored paths stay square', lambda st, l=l: And(L.at(st, l).n == n, fa(L.at(st, l), lambda i, r: r.n == n))))
        for nl in nexts_of(L):
            for cn, cf in own:
                if not outer:
                    out.append(('paths of rows below ' + cn, lambda st, l=l, cf=cf, nl=nl: pths(L.at(st, l), L.at(st, nl), n, lambda i, j: i < cf(st))))
                for an, af in (outer[0] if outer else []):
                    out.append(('paths of row %s below %s' % (an, cn), lambda st, l=l, cf=cf, af=af, nl=nl: pths(L.at(st, l), L.at(st, nl), n, lambda i, j: Or(i < af(st), And(i == af(st), j < cf(st))))))
    return out


def pths(ps, nx, n, done):
    def f(i, j):
        p = at(at(ps, i), j)
        return If(And(done(i, j), i != j, el(nx, i, j) != -1), is_path(p, i, j, nx), p.n == 0)
    def pt(i, j):
        return [unpack(ps.t.e, ps.arr[i]).arr[j]]
    return q2(0, n, f, pt)


Contract(G + 'getPaths', props=['C04'], budget=500, houdini_ms=2000, invariants=[inv_paths, inv_chain, inv_path], ret=lambda C: C.obj.fld('shortest_paths_'),
         requires=lambda C: consistent(C.this()) + below_inf(C, DEF_INF) + [('stored matrices have the shape the computation gave them', Implies(cached(C.this()), stored_ok(C.this())))],
         modifies=lambda C: [C.obj.fld('distance_'), C.obj.fld('next_'), C.obj.fld('shortest_paths_')],
         ensures=lambda C: refreshed(C, DEF_INF) + [
             ('stored paths are kept', Implies(C.this().f['shortest_paths_'].n != 0, pack(C.this_post().f['shortest_paths_']) == pack(C.this().f['shortest_paths_']))),
             ('one path per pair', Implies(C.this().f['shortest_paths_'].n == 0, And(C.this_post().f['shortest_paths_'].n == C.this_post().f['next_'].n,
                                           fa(C.this_post().f['shortest_paths_'], lambda i, r: r.n == C.this_post().f['next_'].n),
                                           pths(C.this_post().f['shortest_paths_'], C.this_post().f['next_'], C.this_post().f['next_'].n, lambda i, j: z3.BoolVal(True)))))])
