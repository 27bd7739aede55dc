"""Graph2D: the two indices are inverse to each other, and the graph of indices has exactly the edges of the points"""
import z3
from f2cv.contract import Contract
from f2cv.values import *
from f2cv.values import sort_of
from f2cv.sp import *
from specs import graph as g1
from specs.graph import node, edge, w

G2 = 'f2c::types::Graph2D::'
PT = T('rec', 'Point')


def n2i(g):
    return g.f['nodes_to_index_']


def i2n(g):
    return g.f['index_to_nodes_']


def qp():
    from f2cv import sp
    sp._n[0] += 1
    return z3.Const('p~%d' % sp._n[0], sort_of(PT))


def ix(g, p):
    return n2i(g).val[p]


def known(g, p):
    return n2i(g).dom[p]


def bij(g):
    p, i = qp(), qi('i')
    a, b = n2i(g), i2n(g)
    return [('every point has an index below the number of points', And(a.n == b.n, z3.ForAll([p], Implies(a.dom[p], And(0 <= a.val[p], a.val[p] < a.n, b.val[a.val[p]] == p)), patterns=[a.dom[p]]))),
            ('every index below the number of points has a point', z3.ForAll([i], And(b.dom[i] == And(0 <= i, i < a.n), Implies(b.dom[i], And(a.dom[b.val[i]], a.val[b.val[i]] == i))), patterns=[b.dom[i], b.val[i]]))]


def onnodes(g):
    i, j = qi('i'), qi('j')
    e = g.f['edges_']
    return [('the graph has exactly the indices as nodes', z3.ForAll([i], node(e, i) == And(0 <= i, i < n2i(g).n), patterns=[e.dom[i]])),
            ('edges join nodes', z3.ForAll([i, j], Implies(edge(e, i, j), node(e, j)), patterns=[g1.erow(e, i).dom[j]]))]


def inv(g):
    return bij(g) + onnodes(g) + [('derived', g1.derived(g))]


def z(v):
    return pack(v)


def keeps(C):
    a, b = C.this(), C.this_post()
    p = qp()
    return ('points keep their index', z3.ForAll([p], Implies(known(a, p), And(known(b, p), ix(b, p) == ix(a, p))), patterns=[n2i(a).dom[p], n2i(b).dom[p]]))


def added(C, ps, f, cost):
    """the points are known, no other point is new, and the edges f (pairs of points) have the cost"""
    a, b = C.this(), C.this_post()
    p = qp()
    i, j = qi('i'), qi('j')
    ea, eb = a.f['edges_'], b.f['edges_']
    hit = lambda i, j: Or([And(i == ix(b, s), j == ix(b, t)) for s, t in f])
    return [keeps(C), ('exactly these points are new', z3.ForAll([p], known(b, p) == Or([known(a, p)] + [p == x for x in ps]), patterns=[n2i(b).dom[p]])),
            ('exactly these edges are new', z3.ForAll([i, j], edge(eb, i, j) == Or(edge(ea, i, j), hit(i, j)), patterns=[g1.erow(eb, i).dom[j]])),
            ('costs', z3.ForAll([i, j], Implies(edge(eb, i, j), w(eb, i, j) == If(hit(i, j), cost, w(ea, i, j))), patterns=[g1.erow(eb, i).dom[j]])),
            ('nothing computed from the old edges is kept', g1.clean(b))]


Contract(G2 + 'addDirectedEdge', sig='Point &, int64_t)', props=['C05'], requires=lambda C: inv(C.this()), modifies=lambda C: [C.obj], ret=lambda C: C.obj,
         ensures=lambda C: inv(C.this_post()) + added(C, [z(C.arg(0)), z(C.arg(1))], [(z(C.arg(0)), z(C.arg(1)))], C.arg(2).z))
Contract(G2 + 'addEdge', sig='Point &, int64_t)', props=['C05'], requires=lambda C: inv(C.this()), modifies=lambda C: [C.obj], ret=lambda C: C.obj,
         ensures=lambda C: inv(C.this_post()) + added(C, [z(C.arg(0)), z(C.arg(1))], [(z(C.arg(0)), z(C.arg(1))), (z(C.arg(1)), z(C.arg(0)))], C.arg(2).z))
Contract(G2 + 'numNodes', props=['C05'], ensures=lambda C: [('number of points', C.res.z == n2i(C.this()).n)])
Contract(G2 + 'nodeToIndex', props=['C05'], throws=lambda C: [('out_of_range', Not(known(C.this(), z(C.arg(0)))))],
         ensures=lambda C: [('the index of the point', C.res.z == ix(C.this(), z(C.arg(0))))])
Contract(G2 + 'indexToNode', props=['C05'], throws=lambda C: [('out_of_range', Not(i2n(C.this()).dom[C.arg(0).z]))],
         ensures=lambda C: [('the point with the index', pack(C.res) == i2n(C.this()).val[C.arg(0).z])])


def gone(C, f):
    a, b = C.this(), C.this_post()
    i, j = qi('i'), qi('j')
    ea, eb = a.f['edges_'], b.f['edges_']
    hit = lambda i, j: Or([And(i == ix(a, s), j == ix(a, t)) for s, t in f])
    return [('indices unchanged', And(pack(n2i(a)) == pack(n2i(b)), pack(i2n(a)) == pack(i2n(b)))),
            ('exactly these edges are gone', z3.ForAll([i, j], edge(eb, i, j) == And(edge(ea, i, j), Not(hit(i, j))), patterns=[g1.erow(eb, i).dom[j]])),
            ('costs', z3.ForAll([i, j], Implies(edge(eb, i, j), w(eb, i, j) == w(ea, i, j)), patterns=[g1.erow(eb, i).dom[j]])),
            ('nothing computed from the old edges is kept', Or(g1.clean(b), And(g1.caches_kept(a, b), Not(Or([edge(ea, ix(a, s), ix(a, t)) for s, t in f])))))]


def unknown(C):
    return [('out_of_range', Not(And(known(C.this(), z(C.arg(0))), known(C.this(), z(C.arg(1))))))]


Contract(G2 + 'removeDirectedEdge', props=['C05'], requires=lambda C: inv(C.this()), throws=unknown, modifies=lambda C: [C.obj], ret=lambda C: C.obj,
         ensures=lambda C: inv(C.this_post()) + gone(C, [(z(C.arg(0)), z(C.arg(1)))]))
Contract(G2 + 'removeEdge', props=['C05'], requires=lambda C: inv(C.this()), throws=unknown, modifies=lambda C: [C.obj], ret=lambda C: C.obj,
         ensures=lambda C: inv(C.this_post()) + gone(C, [(z(C.arg(0)), z(C.arg(1))), (z(C.arg(1)), z(C.arg(0)))]))


def query_req(C, INF):
    a, b = ix(C.this(), z(C.arg(0))), ix(C.this(), z(C.arg(1)))
    g = C.this()
    k = And(known(g, z(C.arg(0))), known(g, z(C.arg(1))))
    return inv(g) + g1.consistent(g)[:1] + [(n, Implies(k, f)) for n, f in g1.below_inf(C, INF) + g1.ends_known(C, a, b)]


Contract(G2 + 'shortestPathCost', props=['C05'], requires=lambda C: query_req(C, C.arg(2).z), throws=unknown,
         modifies=lambda C: [C.obj.fld('distance_'), C.obj.fld('next_')],
         ensures=lambda C: g1.refreshed(C, C.arg(2).z) + [('the cost between the indices', C.res.z == g1.el(C.this_post().f['distance_'], ix(C.this(), z(C.arg(0))), ix(C.this(), z(C.arg(1)))))])


def dist(a, b):
    f = z3.Function('dist2d', *([z3.RealSort()] * 5))
    return f(a.f['x'].z, a.f['y'].z, b.f['x'].z, b.f['y'].z)


def straight(C):
    """scale times the distance, cut to an integer (both are not negative)"""
    return z3.ToInt(C.this().f['scale_'].z * dist(C.arg(0), C.arg(1)))


def fits(C):
    return [('the scaled distance fits', And(C.this().f['scale_'].z >= 0, C.this().f['scale_'].z * dist(C.arg(0), C.arg(1)) <= (1 << 62)))]


Contract(G2 + 'addDirectedEdge', sig='Point &, const Point &)', notsig='int64', props=['C05'], requires=lambda C: inv(C.this()) + fits(C), modifies=lambda C: [C.obj], ret=lambda C: C.obj,
         ensures=lambda C: inv(C.this_post()) + added(C, [z(C.arg(0)), z(C.arg(1))], [(z(C.arg(0)), z(C.arg(1)))], straight(C)))
Contract(G2 + 'addEdge', sig='Point &, const Point &)', notsig='int64', props=['C05'], requires=lambda C: inv(C.this()) + fits(C), modifies=lambda C: [C.obj], ret=lambda C: C.obj,
         ensures=lambda C: inv(C.this_post()) + added(C, [z(C.arg(0)), z(C.arg(1))], [(z(C.arg(0)), z(C.arg(1))), (z(C.arg(1)), z(C.arg(0)))], straight(C)))


def inv_points(L):
    """turning a path of indices into points, one for one"""
    out = []
    g = L.E.entry.this()
    b = i2n(g)
    ints = [l for l, v in L.vecs(elem='int', mod=False)]
    for l, v in L.vecs(elem='Point', mod=True):
        for cn, cf, z0 in L.counters():
            out.append(('%s has one point per index' % l.root[1], lambda st, l=l, v=v, cf=cf, z0=z0: L.at(st, l).n == v.n + cf(st) - z0))
        for il in ints:
            out.append(('%s: the points of the indices' % l.root[1], lambda st, l=l, il=il: fa(L.at(st, l), lambda i, x: pack(x) == b.val[L.at(st, il).arr[i]])))
    return out


def pt_path(C):
    """the result is, point for point, a path of indices along next"""
    a, b = C.this(), C.this_post()
    nx = b.f['next_']
    f, t = ix(a, z(C.arg(0))), ix(a, z(C.arg(1)))
    r = C.res
    at_ = lambda i: ix(a, r.arr[i])
    i = qi('i')
    ok = And(r.n >= 2, r.arr[0] == z(C.arg(0)), r.arr[r.n - 1] == z(C.arg(1)),
             fa(r, lambda i, x: known(a, pack(x))),
             fai(0, r.n - 1, lambda i: And(at_(i) != t, at_(i + 1) == g1.el(nx, at_(i), t)), pats=lambda i: [r.arr[i]]))
    return [('a path of known points along next when there is one, else nothing', If(And(f != t, g1.el(nx, f, t) != -1), ok, r.n == 0))]


Contract(G2 + 'shortestPath', props=['C05'], requires=lambda C: query_req(C, C.arg(2).z) + [('stored next stays on nodes', Implies(g1.cached(C.this()), And(C.this().f['next_'].n == n2i(C.this()).n)))],
         throws=unknown, invariants=[inv_points],
         modifies=lambda C: [C.obj.fld('distance_'), C.obj.fld('next_')],
         ensures=lambda C: g1.refreshed(C, C.arg(2).z) + pt_path(C))


def inv_keys(L):
    if L.visit is None:
        return []
    m, ixl, pos = L.visit
    out = []
    for l, v in L.vecs(elem='Point', mod=True):
        out.append(('one point per key visited', lambda st, l=l, v=v: L.at(st, l).n == v.n + L.z(st, ixl)))
        out.append(('points are keys in the order of the visit', lambda st, l=l: fa(L.at(st, l), lambda i, x: And(m.dom[pack(x)], pos[pack(x)] == i))))
    return out


Contract(G2 + 'getNodes', props=['C05'], invariants=[inv_keys],
         ensures=lambda C: [('every point once', And(C.res.n == n2i(C.this()).n, fa(C.res, lambda i, x: known(C.this(), pack(x))),
                                                     fa(C.res, lambda i, x: fa(C.res, lambda j, y: Implies(i != j, pack(x) != pack(y))))))])
