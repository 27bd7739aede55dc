"""Trusted contracts of what the repository code calls but does not define: std containers and algorithms,
OGR geometry accessors, libm.  Each use is recorded in Engine.used_models and reported as an assumption."""
import z3
from .values import *
from .values import sort_of

TWO = 2


def _mark(E, s):
    E.used_models.add(s)


def zi(v):
    return v.z


def simp(z):
    return z3.simplify(z)


# ------------------------------------------------------------------ permutations
def perm_rel(E, t):
    """Perm(a,b): b is a rearrangement of a (vectors over element type t)"""
    vt = T('vec', None, (t,))
    s = sort_of(vt)
    k = t.key()
    P = z3.Function('Perm_' + k, s, s, z3.BoolSort())
    W = z3.Function('PermIx_' + k, s, s, z3.IntSort(), z3.IntSort())
    Wi = z3.Function('PermInv_' + k, s, s, z3.IntSort(), z3.IntSort())

    def ax():
        a, b, c = z3.Const('pa', s), z3.Const('pb', s), z3.Const('pc', s)
        i = z3.Int('pi_')
        arr = lambda x: s.accessor(0, 0)(x)
        ln = lambda x: s.accessor(0, 1)(x)
        return [
            z3.ForAll([a, b, c], z3.Implies(z3.And(P(a, b), P(b, c)), P(a, c)), patterns=[z3.MultiPattern(P(a, b), P(b, c))]),
            z3.ForAll([a, b], z3.Implies(P(a, b), ln(a) == ln(b)), patterns=[P(a, b)]),
            z3.ForAll([a, b, i], z3.Implies(z3.And(P(a, b), 0 <= i, i < ln(b)),
                                            z3.And(0 <= W(a, b, i), W(a, b, i) < ln(a), arr(b)[i] == arr(a)[W(a, b, i)],
                                                   Wi(a, b, W(a, b, i)) == i)),
                      patterns=[z3.MultiPattern(P(a, b), arr(b)[i]), W(a, b, i)]),
            z3.ForAll([a, b, i], z3.Implies(z3.And(P(a, b), 0 <= i, i < ln(a)),
                                            z3.And(0 <= Wi(a, b, i), Wi(a, b, i) < ln(b), W(a, b, Wi(a, b, i)) == i,
                                                   arr(b)[Wi(a, b, i)] == arr(a)[i])),
                      patterns=[Wi(a, b, i), z3.MultiPattern(P(a, b), arr(a)[i])]),
        ]
    E.axiom('perm_' + k, ax)
    return P, W, Wi


def lemma_perm_intro(E, a, b, ix):
    """b[i] = a[ix[i]] for an injective index vector ix into [0,n): b is a rearrangement of a (finite injections are bijections)"""
    E.assumptions.add('lemma (not machine-checked): an injective index map of [0,n) into itself is a permutation')
    i, j = z3.Int('lp_i'), z3.Int('lp_j')
    inj = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ix.n), ix.arr[i] != ix.arr[j]), patterns=[z3.MultiPattern(ix.arr[i], ix.arr[j])])
    rng = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ix.n), z3.And(0 <= ix.arr[i], ix.arr[i] < a.n, b.arr[i] == a.arr[ix.arr[i]])), patterns=[ix.arr[i]])
    return z3.Implies(z3.And(a.n == b.n, ix.n == a.n, inj, rng), perm(E, a, b))


def perm(E, a, b):
    P, _, _ = perm_rel(E, a.t.e)
    za, zb = pack(a), pack(b)
    return z3.Or(za == zb, P(za, zb))


def assume_perm(E, a, b):
    P, _, _ = perm_rel(E, a.t.e)
    E.assume(P(pack(a), pack(b)))


# ------------------------------------------------------------------ containers
def unwrap_container(E, v, l):
    """f2c wrapper classes whose begin()/end() delegate to a vector member"""
    n = E.recnodes.get(v.t.name)
    if n is None:
        return None
    # look at the body of begin()
    for f in E.prog.find('f2c::types::%s::begin' % v.t.name):
        fr = None
        try:
            it = E.inline(f, l, [], f)
        except Exception:
            raise
        if isinstance(it, It):
            return it.loc
    return None


def to_bool(E, v):
    if isinstance(v, Opt):
        return Sc(BOOL, v.has)
    if isinstance(v, Sc):
        return E.conv(v, BOOL)
    raise Unsupported('condition of %r' % (v,))


def from_init_list(E, v, t):
    if t.kind == 'vec':
        return il_to_vec(E, v, t)
    if t.kind == 'rec':
        if t.name == 'pair':
            return Rec(t, {'first': E.coerce(v.vs[0], t.args[0]), 'second': E.coerce(v.vs[1], t.args[1])})
        fs = rec_fields(t)
        if not v.vs:
            return E.default(t)
        raise Unsupported('braced initialiser for ' + str(t))
    if t.kind == 'map' and not v.vs:
        return E.default(t)
    if t.kind == 'opt':
        if not v.vs:
            return E.default(t)
    if len(v.vs) == 1:
        return E.coerce(v.vs[0], t)
    if not v.vs:
        return E.default(t)
    raise Unsupported('braced initialiser')


def il_to_vec(E, v, t=None):
    if t is None:
        t = T('vec', None, (v.vs[0].t,))
    arr = E.const_arr(t.e)
    for i, x in enumerate(v.vs):
        arr = z3.Store(arr, z3.IntVal(i), pack(E.coerce(x, t.e)))
    return Vec(t, arr, z3.IntVal(len(v.vs)))


def construct_std(E, t, args, n):
    vals = [E.read(a) if isinstance(a, Loc) else a for a in args]
    if t.kind == 'vec':
        if not vals:
            return E.default(t)
        a = vals[0]
        if len(vals) == 1:
            if isinstance(a, Vec):
                return a
            if isinstance(a, IL):
                return il_to_vec(E, a, t)
            if isinstance(a, Sc) and a.t.kind == 'int':
                _mark(E, 'std::vector(n): n value-initialised elements')
                return filled(E, t, E.conv(a, SIZE).z, E.default(t.e), shared=False)
        if isinstance(a, It) and len(vals) >= 2:
            return range_vec(E, t, a, vals[1], n)
        if len(vals) >= 2 and isinstance(a, Sc) and a.t.kind == 'int':
            _mark(E, 'std::vector(n, v): n copies of v')
            return filled(E, t, E.conv(a, SIZE).z, E.coerce(vals[1], t.e))
        if isinstance(a, IL):
            return il_to_vec(E, a, t)
    if t.kind == 'map':
        if not vals:
            return E.default(t)
        if isinstance(vals[0], Map):
            return vals[0]
        if isinstance(vals[0], IL):
            m = E.default(t)
            loc = E.new_root(m, 'm')
            for x in vals[0].vs:
                if isinstance(x, IL):
                    x = from_init_list(E, x, T('rec', 'pair', t.args))
                E.write(loc.key(pack(x.f['first'])), x.f['second'])
            return E.read(loc)
    if t.kind == 'opt':
        if not vals:
            return E.default(t)
        if isinstance(vals[0], Opt):
            return vals[0]
        if isinstance(vals[0], Opq):
            return E.default(t)     # nullopt
        return Opt(t, z3.BoolVal(True), E.coerce(vals[0], t.e))
    if t.kind == 'rec' and t.name == 'pair':
        if not vals:
            return E.default(t)
        if len(vals) == 1:
            return E.coerce(vals[0], t)
        return Rec(t, {'first': E.coerce(vals[0], t.args[0]), 'second': E.coerce(vals[1], t.args[1])})
    if t.kind in ('str',):
        return vals[0] if vals and isinstance(vals[0], Sc) else E.default(STR)
    if t.kind == 'iter':
        return vals[0]
    if t.kind == 'ptr':
        return vals[0] if vals else Sc(t, z3.IntVal(0))
    if t.kind in ('int', 'real', 'bool'):
        return E.coerce(vals[0], t) if vals else E.default(t)
    if t.kind == 'opaque' and (not vals or t.name in ('fn',) or 'function' in t.name):
        if vals and isinstance(vals[0], (Lam, BackIns)):
            return vals[0]
        return Opq(t, E.fresh('opq', OpqSort))
    if len(vals) == 1 and isinstance(vals[0], (Lam, Opq, BackIns, It)):
        return vals[0]
    if t.kind == 'opaque' and any(x in t.name for x in ('exception', 'invalid_argument', 'out_of_range', 'length_error', 'runtime_error', 'domain_error', 'logic_error')):
        return Opq(t, E.fresh('exc', OpqSort))
    if t.kind == 'opaque':
        return Opq(t, E.fresh('opq', OpqSort))
    raise Unsupported('construction of %s at %s' % (t, E.where(n)))


def filled(E, t, n, v, shared=True):
    arr = z3.K(z3.IntSort(), pack(v))
    if v.t.kind == 'rec' and has_ref(v.t):
        # each element has storage of its own: references are distinct fresh ones
        raw = E.fresh('filled', z3.ArraySort(z3.IntSort(), sort_of(t.e)))
        arr = raw
        E.assumptions.add('default-constructed geometries of std::vector(n) are not observed before being assigned')
        a0 = E.st.alloc
        E.st.alloc = E.fresh('alloc', z3.IntSort())
        E.assume(E.st.alloc >= a0)
    else:
        # range-limited so that junk beyond n stays unknown is unnecessary: constant array is a valid choice
        pass
    return Vec(t, arr, n)


def has_ref(t):
    if t.kind == 'ptr':
        return True
    if t.kind == 'rec' and t.name != 'Point':
        return any(has_ref(ft) for _, ft in rec_fields(t))
    if t.kind in ('vec', 'opt'):
        return has_ref(t.e)
    return False


def range_vec(E, t, a, b, n):
    v = E.read(a.loc)
    if a.rev or not isinstance(v, Vec):
        raise Unsupported('vector from this iterator range')
    E.oblige('iterator range within the container', z3.And(0 <= a.i, a.i <= b.i, b.i <= v.n), n)
    _mark(E, 'std::vector(first,last): copies the range')
    arr = E.fresh('rng', v.arr.sort())
    i = z3.Int('rv_i')
    if z3.is_int_value(simp(a.i)) and simp(a.i).as_long() == 0:
        return Vec(t, v.arr, b.i)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.i - a.i), arr[i] == v.arr[i + a.i]), patterns=[arr[i]]))
    return Vec(t, arr, b.i - a.i)


def it_deref(E, it, n):
    v = E.read(it.loc)
    if isinstance(v, Map):
        raise_if = v.dom[it.key] if it.key is not None else None
        if it.key is None:
            raise Unsupported('map iterator')
        E.oblige('map iterator dereferenced is not end()', v.dom[it.key], n)
        kt, vt = v.t.args
        # location of the mapped value is what matters; build a pair with live second
        return E.new_root(Rec(T('rec', 'pair', (kt, vt)), {'first': unpack(kt, it.key), 'second': E.read(it.loc.key(it.key))}), 'entry')
    i = it.i if not it.rev else it.i - 1
    if isinstance(v, Vec):
        E.oblige('iterator dereference inside the container', z3.And(0 <= i, i < v.n), n)
        return it.loc.idx(i)
    raise Unsupported('iterator dereference')


def index(E, loc, i, n, what='vector index'):
    v = E.read(loc)
    E.oblige('%s inside [0,size)' % what, z3.And(0 <= i, i < v.n), n)
    return loc.idx(i)


def arg_v(E, a):
    return E.read(a) if isinstance(a, Loc) else a


def make_elem(E, t, args, n):
    """construct an element of type t from emplace arguments"""
    vals = [arg_v(E, a) for a in args]
    if t.kind in ('int', 'real', 'bool', 'str', 'ptr'):
        return E.coerce(vals[0], t) if vals else E.default(t)
    if len(vals) == 1 and isinstance(vals[0], V) and getattr(vals[0], 't', None) == t:
        return vals[0]
    if t.kind == 'vec' and len(vals) == 1 and isinstance(vals[0], Vec):
        return vals[0]
    if t.kind in ('vec', 'map', 'opt') or (t.kind == 'rec' and t.name == 'pair'):
        return construct_std(E, t, args, n)
    if t.kind == 'rec':
        if t.name == 'Point':
            return construct_point(E, vals, n)
        if not args:
            return E.default(t)
        # find a constructor by arity and argument kinds
        f = ctor_by_args(E, t, vals)
        if f is None:
            raise Unsupported('emplace constructor of %s' % t.name)
        args = E.fill_defaults(f, list(args) + [None] * (nparams(f) - len(args)), n) if nparams(f) > len(args) else args
        return E.construct(t, f.raw.get('qt'), args, n)
    raise Unsupported('emplace of %s' % (t,))


def nparams(f):
    return len([p for p in f.kids if p is not None and p.kind == 'ParmVarDecl'])


def ctor_by_args(E, t, vals):
    best = None
    for tu in E.prog.tus.values():
        for f in tu.funcs:
            if f.kind != 'CXXConstructorDecl' or f.name != t.name:
                continue
            ps = [p for p in f.kids if p is not None and p.kind == 'ParmVarDecl']
            if len(ps) < len(vals):
                continue
            if any(not p.raw.get('init') for p in ps[len(vals):]):
                # a redeclaration may carry the defaults
                if not any_default(E, f, len(vals)):
                    continue
            ok = True
            score = 0
            for p, v in zip(ps, vals):
                pt = parse_type(p.t)
                if pt == getattr(v, 't', None):
                    score += 2
                elif pt.kind in ('int', 'real', 'bool') and isinstance(v, Sc) and v.t.kind in ('int', 'real', 'bool'):
                    score += 1
                elif pt.kind == 'opaque' and isinstance(v, Opq):
                    score += 1
                else:
                    ok = False
            if ok and (best is None or score > best[0]):
                best = (score, f)
    return best[1] if best else None


def any_default(E, f, k):
    m = f.raw.get('mangledName')
    for tu in E.prog.tus.values():
        for g in tu.funcs:
            if g.raw.get('mangledName') == m:
                ps = [p for p in g.kids if p is not None and p.kind == 'ParmVarDecl']
                if all(p.raw.get('init') for p in ps[k:]):
                    return True
    return False


def std_method(E, name, base, argn, n, m):
    b = E.ev(base)
    loc = None
    if isinstance(b, Loc):
        loc = b
        v = E.read(b)
    elif isinstance(b, LocPtr):
        loc = b.loc
        v = E.read(loc)
    else:
        v = b
        loc = None
    if isinstance(v, LocPtr):
        loc = v.loc
        v = E.read(loc)
    if isinstance(v, It) and m.raw.get('isArrow'):
        l = it_deref(E, v, n)
        loc = l if isinstance(l, Loc) else E.new_root(l)
        v = E.read(loc)
    if isinstance(v, Opt) and m.raw.get('isArrow'):
        E.oblige('optional has a value when dereferenced', v.has, n)
        v = v.v
        loc = loc.optv() if loc is not None else None
    if isinstance(v, Vec):
        if loc is None:
            loc = E.new_root(v, 'tmp')
        return vec_method(E, name, loc, v, argn, n)
    if isinstance(v, Map):
        if loc is None:
            loc = E.new_root(v, 'tmp')
        return map_method(E, name, loc, v, argn, n)
    if isinstance(v, Opt):
        if name in ('has_value', 'operator bool'):
            return Sc(BOOL, v.has)
        if name == 'value':
            if E.choice([v.has, z3.Not(v.has)]) == 1:
                from .engine import ThrowX
                raise ThrowX('bad_optional_access', n)
            return loc.optv() if loc is not None else v.v
        if name == 'value_or':
            d = E.coerce(E.rv(argn[0]), v.t.e)
            if isinstance(d, Sc):
                return Sc(d.t, z3.If(v.has, v.v.z, d.z))
            if E.choice([v.has, z3.Not(v.has)]) == 0:
                return v.v
            return d
        if name == 'reset':
            E.write(loc, Opt(v.t, z3.BoolVal(False), v.v))
            return Void()
        if name == 'emplace':
            E.write(loc, Opt(v.t, z3.BoolVal(True), make_elem(E, v.t.e, [E.ev(a) for a in argn], n)))
            return loc.optv()
    if isinstance(v, Sc) and v.t.kind == 'ptr':
        if name == 'get':
            return v
        if name == 'operator bool':
            return Sc(BOOL, v.z != 0)
        return ogr_method(E, name, v, argn, n)
    if isinstance(v, Sc) and v.t.kind == 'str':
        for a in argn:
            E.rv(a)
        if name in ('empty',):
            return Sc(BOOL, v.z == z3.Const('str:', StrSort))
        if name in ('size', 'length'):
            f = z3.Function('strlen', StrSort, z3.IntSort())
            E.assume(f(v.z) >= 0)
            return Sc(SIZE, f(v.z))
        if name in ('c_str',):
            return v
        return Sc(STR, E.fresh('str', StrSort)) if name in ('substr', 'append') else Opq(T('opaque', 's'), E.fresh('o', OpqSort))
    if isinstance(v, Rec) and v.t.name == 'Point':
        return ogrpoint_method(E, name, loc, v, argn, n)
    if isinstance(v, It) and name in ('base',):
        return It(v.loc, v.i, False)
    if isinstance(v, LocPtr) and name == 'get':
        return v
    if isinstance(v, Opq):
        return opaque_method(E, name, v, loc, argn, n)
    if isinstance(v, Lam) and name == 'operator()':
        return E.call_lam(v, [E.ev(a) for a in argn], n)
    raise Unsupported('method %s on %r at %s' % (name, v, E.where(n)))


def opaque_method(E, name, v, loc, argn, n):
    raise Unsupported('method %s on %s at %s' % (name, v.t, E.where(n)))


def vec_method(E, name, loc, v, argn, n):
    from .engine import ThrowX
    t = v.t.e
    if name == 'size':
        return Sc(SIZE, v.n)
    if name == 'empty':
        return Sc(BOOL, v.n == 0)
    if name in ('begin', 'cbegin'):
        return It(loc, z3.IntVal(0))
    if name in ('end', 'cend'):
        return It(loc, v.n)
    if name in ('rbegin', 'crbegin'):
        return It(loc, v.n, True)
    if name in ('rend', 'crend'):
        return It(loc, z3.IntVal(0), True)
    if name in ('reserve', 'shrink_to_fit'):
        for a in argn:
            E.rv(a)
        return Void()
    if name == 'clear':
        E.write(loc, Vec(v.t, v.arr, z3.IntVal(0)))
        return Void()
    if name == 'back':
        E.oblige('back() of a non-empty vector', v.n > 0, n)
        return loc.idx(simp(v.n - 1))
    if name == 'front':
        E.oblige('front() of a non-empty vector', v.n > 0, n)
        return loc.idx(z3.IntVal(0))
    if name == 'operator[]':
        i = E.conv(E.rv(argn[0]), SIZE).z
        return index(E, loc, i, n)
    if name == 'at':
        i = E.conv(E.rv(argn[0]), SIZE).z
        if E.choice([z3.And(0 <= i, i < v.n), z3.Not(z3.And(0 <= i, i < v.n))]) == 1:
            raise ThrowX('out_of_range', n)
        return loc.idx(i)
    if name in ('push_back', 'emplace_back'):
        args = [E.ev(a) for a in argn]
        x = make_elem(E, t, args, n)
        v = E.read(loc)
        nn = simp(v.n + 1)
        E.write(loc, Vec(v.t, z3.Store(v.arr, v.n, pack(x)), nn))
        E.assume(nn < (1 << 31) - 1)
        return loc.idx(v.n)
    if name == 'pop_back':
        E.oblige('pop_back() of a non-empty vector', v.n > 0, n)
        E.write(loc, Vec(v.t, v.arr, v.n - 1))
        return Void()
    if name == 'resize':
        k = E.conv(E.rv(argn[0]), SIZE).z
        d = E.coerce(E.rv(argn[1]), t) if len(argn) > 1 else E.default(t)
        arr = E.fresh('rsz', v.arr.sort())
        i = z3.Int('rz_i')
        E.assume(z3.ForAll([i], z3.And(z3.Implies(z3.And(0 <= i, i < v.n), arr[i] == v.arr[i]),
                                       z3.Implies(z3.And(v.n <= i, i < k), arr[i] == pack(d))), patterns=[arr[i]]))
        E.write(loc, Vec(v.t, arr, k))
        return Void()
    if name == 'erase':
        a = E.rv(argn[0])
        if len(argn) == 2:
            b = E.rv(argn[1])
            lo, hi = a.i, b.i
        else:
            lo, hi = a.i, a.i + 1
        E.oblige('erase range within the vector', z3.And(0 <= lo, lo <= hi, hi <= v.n), n)
        if simp(hi - v.n).eq(z3.IntVal(0)):
            E.write(loc, Vec(v.t, v.arr, lo))
            return It(loc, lo)
        arr = E.fresh('ers', v.arr.sort())
        i = z3.Int('er_i')
        E.assume(z3.ForAll([i], arr[i] == z3.If(i < lo, v.arr[i], v.arr[i + (hi - lo)]), patterns=[arr[i]]))
        E.write(loc, Vec(v.t, arr, simp(v.n - (hi - lo))))
        return It(loc, lo)
    if name in ('insert', 'emplace'):
        pos = E.rv(argn[0])
        if len(argn) == 3:
            a, b = E.rv(argn[1]), E.rv(argn[2])
            if not (isinstance(a, It) and isinstance(b, It)) or a.rev:
                raise Unsupported('insert form')
            src = E.read(a.loc)
            lo, k = a.i, simp(b.i - a.i)
            E.oblige('inserted range is a range', z3.And(0 <= lo, a.i <= b.i, b.i <= src.n), n)
            get = lambda j: src.arr[j + lo]
        elif len(argn) == 2:
            x = E.coerce(E.rv(argn[1]), t)
            if isinstance(x, IL):
                x = il_to_vec(E, x, v.t)
                src = x
                get = lambda j: src.arr[j]
                k = x.n
            else:
                px = pack(x)
                get = lambda j: px
                k = z3.IntVal(1)
        else:
            raise Unsupported('insert form')
        p = pos.i
        E.oblige('insert position within the vector', z3.And(0 <= p, p <= v.n), n)
        arr = E.fresh('ins', v.arr.sort())
        i = z3.Int('in_i')
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n + k),
                                           arr[i] == z3.If(i < p, v.arr[i], z3.If(i < p + k, get(i - p), v.arr[i - k]))), patterns=[arr[i]]))
        E.write(loc, Vec(v.t, arr, simp(v.n + k)))
        return It(loc, p)
    if name == 'data':
        raise Unsupported('vector::data')
    if name == 'operator=':
        E.write(loc, E.rv(argn[0]))
        return loc
    if name == 'swap':
        o = E.lv(argn[0])
        x, y = E.read(loc), E.read(o)
        E.write(loc, y)
        E.write(o, x)
        return Void()
    if name == 'assign':
        vals = [E.rv(a) for a in argn]
        E.write(loc, construct_std(E, v.t, vals, n))
        return Void()
    raise Unsupported('vector::%s at %s' % (name, E.where(n)))


def map_lookup_insert(E, loc, v, k):
    """operator[]: inserts a default value when absent"""
    kt, vt = v.t.args
    has = v.dom[k]
    d = E.default(vt)
    if z3.is_true(simp(has)):
        return loc.key(k)
    cur = unpack(vt, v.val[k])
    if isinstance(cur, Sc):
        new = Sc(vt, z3.If(has, cur.z, d.z))
        E.write(loc.key(k), new)
        return loc.key(k)
    nv = z3.If(has, v.val[k], pack(d))
    E.write(loc, Map(v.t, z3.Store(v.dom, k, True), z3.Store(v.val, k, nv), z3.If(has, v.n, v.n + 1)))
    return loc.key(k)


def map_put(E, loc, k, x, name):
    v = E.read(loc)
    has = v.dom[k]
    keep = name != 'insert_or_assign'
    nv = z3.If(has, v.val[k], pack(x)) if keep else pack(x)
    E.write(loc, Map(v.t, z3.Store(v.dom, k, True), z3.Store(v.val, k, nv), z3.If(has, v.n, v.n + 1)))
    return Rec(T('rec', 'pair', (T('iter'), BOOL)), {'first': It(loc, z3.IntVal(0), False, k), 'second': Sc(BOOL, z3.Not(has))})


def map_method(E, name, loc, v, argn, n):
    from .engine import ThrowX
    kt, vt = v.t.args
    if name == 'size':
        _mark(E, 'unordered_map::size() counts its keys')
        return Sc(SIZE, v.n)
    if name == 'empty':
        k = z3.Const('mp_k', sort_of(kt))
        E.assume(z3.And(v.n >= 0, (v.n == 0) == z3.ForAll([k], z3.Not(v.dom[k]), patterns=[v.dom[k]])))
        return Sc(BOOL, v.n == 0)
    if name == 'operator[]':
        k = pack(E.coerce(E.rv(argn[0]), kt))
        return map_lookup_insert(E, loc, E.read(loc), k)
    if name == 'at':
        k = pack(E.coerce(E.rv(argn[0]), kt))
        if E.choice([v.dom[k], z3.Not(v.dom[k])]) == 1:
            raise ThrowX('out_of_range', n)
        return loc.key(k)
    if name in ('count', 'contains'):
        k = pack(E.coerce(E.rv(argn[0]), kt))
        z = v.dom[k]
        return Sc(SIZE, z3.If(z, z3.IntVal(1), z3.IntVal(0))) if name == 'count' else Sc(BOOL, z)
    if name == 'find':
        k = pack(E.coerce(E.rv(argn[0]), kt))
        return It(loc, z3.IntVal(0), False, k)
    if name in ('end', 'cend'):
        return It(loc, z3.IntVal(-1), False, None)
    if name in ('begin', 'cbegin'):
        return It(loc, z3.IntVal(-2), False, None)
    if name == 'erase':
        a = E.rv(argn[0])
        k = a.key if isinstance(a, It) else pack(E.coerce(a, kt))
        if k is None:
            raise Unsupported('map erase')
        if isinstance(a, It):
            E.oblige('map::erase of a valid iterator', v.dom[k], n)
        E.write(loc, Map(v.t, z3.Store(v.dom, k, False), v.val, z3.If(v.dom[k], v.n - 1, v.n)))
        return Sc(SIZE, z3.If(v.dom[k], z3.IntVal(1), z3.IntVal(0)))
    if name == 'clear':
        E.write(loc, Map(v.t, z3.K(sort_of(kt), z3.BoolVal(False)), v.val, z3.IntVal(0)))
        return Void()
    if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        args = [E.rv(a) for a in argn]
        if len(args) == 1 and isinstance(args[0], IL) and ('initializer_list' in (argn[0].t or '') or any(isinstance(x, IL) for x in args[0].vs)) and args[0].vs:
            r = None
            for p in args[0].vs:
                if isinstance(p, IL):
                    p = from_init_list(E, p, T('rec', 'pair', v.t.args))
                r = map_put(E, loc, pack(E.coerce(p.f['first'], kt)), E.coerce(p.f['second'], vt), name)
            return Void()
        if len(args) == 1:
            p = args[0]
            if isinstance(p, IL):
                p = from_init_list(E, p, T('rec', 'pair', v.t.args))
            if vt == BOOL and not (isinstance(p, Rec) and p.t.name == 'pair'):   # set
                k, x = pack(E.coerce(p, kt)), Sc(BOOL, z3.BoolVal(True))
            else:
                k, x = pack(E.coerce(p.f['first'], kt)), E.coerce(p.f['second'], vt)
        else:
            k, x = pack(E.coerce(args[0], kt)), E.coerce(args[1], vt)
        return map_put(E, loc, k, x, name)
    if name == 'operator=':
        E.write(loc, E.rv(argn[0]))
        return loc
    if name in ('reserve',):
        return Void()
    raise Unsupported('map::%s' % name)


def std_operator(E, name, argn, n):
    from .engine import ThrowX
    op = name[8:]
    a = E.ev(argn[0])
    av = E.read(a) if isinstance(a, Loc) else a
    if op == '[]':
        if isinstance(av, Vec):
            loc = a if isinstance(a, Loc) else E.new_root(av)
            i = E.conv(E.rv(argn[1]), SIZE).z
            return index(E, loc, i, n)
        if isinstance(av, Map):
            loc = a
            k = pack(E.coerce(E.rv(argn[1]), av.t.args[0]))
            return map_lookup_insert(E, loc, E.read(loc), k)
        if isinstance(av, It):
            k = E.rv(argn[1]).z
            return it_deref(E, It(av.loc, av.i + k, av.rev), n)
        raise Unsupported('operator[] on %r at %s' % (av, E.where(n)))
    if op == '()':
        f = av
        return E.call_lam(f, [E.ev(x) for x in argn[1:]], n)
    if op == '*' and len(argn) == 1:
        if isinstance(av, Opt):
            E.oblige('optional has a value when dereferenced', av.has, n)
            return a.optv() if isinstance(a, Loc) else av.v
        return E.deref(av, n)
    if op == '->':
        if isinstance(av, (Opt, It)):
            return a if isinstance(a, Loc) else av
        return av
    if op in ('++', '--'):
        l = a if isinstance(a, Loc) else E.new_root(av)
        if isinstance(av, It):
            d = 1 if op == '++' else -1
            if av.rev:
                d = -d
            E.write(l, It(av.loc, simp(av.i + d), av.rev, av.key))
            return av if len(argn) == 2 else l
        raise Unsupported('++ on %r' % (av,))
    if op == '=':
        bv = E.rv(argn[1])
        l = a
        if isinstance(bv, IL):
            bv = from_init_list(E, bv, av.t)
        if isinstance(av, Opt) and not isinstance(bv, Opt):
            if isinstance(bv, Opq):
                bv = Opt(av.t, z3.BoolVal(False), av.v)
            else:
                bv = Opt(av.t, z3.BoolVal(True), E.coerce(bv, av.t.e))
        if isinstance(av, Rec) and isinstance(bv, Rec):
            bv = E.coerce(bv, av.t)
        E.write(l, bv)
        return l
    b = E.ev(argn[1])
    bv = E.read(b) if isinstance(b, Loc) else b
    if isinstance(av, It) and isinstance(bv, Sc) and op in ('+', '-', '+=', '-='):
        k = E.conv(bv, LONG).z
        d = k if op[0] == '+' else -k
        if av.rev:
            d = -d
        r = It(av.loc, simp(av.i + d), av.rev, av.key)
        if op in ('+=', '-='):
            E.write(a, r)
            return a
        return r
    if isinstance(bv, It) and isinstance(av, Sc) and op == '+':
        k = E.conv(av, LONG).z
        return It(bv.loc, simp(bv.i + (k if not bv.rev else -k)), bv.rev, bv.key)
    if isinstance(av, It) and isinstance(bv, It):
        mv = E.read(av.loc)
        if isinstance(mv, Map):
            if op in ('==', '!='):
                if av.key is not None and bv.key is None:
                    z = z3.Not(mv.dom[av.key])
                elif bv.key is not None and av.key is None:
                    z = z3.Not(mv.dom[bv.key])
                else:
                    raise Unsupported('map iterator comparison')
                return Sc(BOOL, z if op == '==' else z3.Not(z))
            raise Unsupported('map iterator op')
        x, y = av.i, bv.i
        if op == '-':
            return Sc(LONG, simp(x - y) if not av.rev else simp(y - x))
        if av.rev:
            x, y = y, x
        r = {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}.get(op)
        if r is None:
            raise Unsupported('iterator ' + op)
        return Sc(BOOL, r)
    return operator(E, op, av, bv, n, a)


def operator(E, op, av, bv, n, aloc=None):
    if op in ('==', '!='):
        if isinstance(av, Opt) and isinstance(bv, Opq):
            z = z3.Not(av.has)
        elif isinstance(av, (Vec, Map, Opt)) and type(av) == type(bv):
            z = veq(av, bv)
            _mark(E, 'container operator== compares elementwise')
        elif isinstance(av, Sc) and isinstance(bv, Sc):
            z = av.z == bv.z
        elif isinstance(av, LocPtr) and isinstance(bv, LocPtr):
            z = z3.BoolVal(av.loc.root == bv.loc.root and str(av.loc.path) == str(bv.loc.path))
        else:
            raise Unsupported('operator%s on %r' % (op, av))
        return Sc(BOOL, z if op == '==' else z3.Not(z))
    if op in ('+', '+=') and isinstance(av, Sc) and av.t.kind == 'str' or (isinstance(bv, Sc) and bv.t.kind == 'str'):
        f = z3.Function('strcat', StrSort, StrSort, StrSort)
        if isinstance(av, Sc) and isinstance(bv, Sc) and av.t.kind == 'str' and bv.t.kind == 'str':
            r = Sc(STR, f(av.z, bv.z))
        else:
            r = Sc(STR, E.fresh('str', StrSort))
        if op == '+=':
            E.write(aloc, r)
            return aloc
        return r
    if isinstance(av, Sc) and isinstance(bv, Sc) and av.t.kind in ('int', 'real', 'bool'):
        return E.arith(op, av, bv, n)
    if op == '<<':
        return av
    raise Unsupported('operator%s on %r, %r at %s' % (op, av, bv, E.where(n)))


# ------------------------------------------------------------------ free functions of std / libm
def it_range(E, a, b, n, what):
    if not (isinstance(a, It) and isinstance(b, It)) or a.rev or b.rev:
        raise Unsupported(what + ' on these iterators')
    if a.loc.root != b.loc.root:
        raise Unsupported(what + ' on iterators of different containers')
    v = E.read(a.loc)
    if not isinstance(v, Vec):
        raise Unsupported(what + ' on %r' % (v,))
    E.oblige('%s: valid iterator range' % what, z3.And(0 <= a.i, a.i <= b.i, b.i <= v.n), n)
    return v


def uf(name, *sorts):
    return z3.Function(name, *sorts)


R1 = lambda nm: z3.Function(nm, z3.RealSort(), z3.RealSort())


def trig(E, nm, x):
    f = R1(nm)
    return f(x)


def real(E, v):
    return E.conv(v, REAL).z


def std_call(E, name, argn, n):
    from .engine import ThrowX
    ty = n.t
    if name in ('forward', 'move', 'as_const', 'ref', 'cref', '__addressof', 'addressof') and len(argn) == 1:
        return E.ev(argn[0]) if 'addressof' not in name else LocPtr(E.lv(argn[0]))
    if name == 'move' and len(argn) == 3:
        name = 'copy'
    if name in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log', 'log10', 'tanh'):
        x = real(E, E.rv(argn[0]))
        f = R1(name)
        if name in ('sin', 'cos'):
            s, c = R1('sin')(x), R1('cos')(x)
            E.assume(s * s + c * c == 1)
            E.assume(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
            _mark(E, 'libm sin/cos: sin^2+cos^2 = 1, values in [-1,1]')
        return Sc(REAL, f(x))
    if name in ('atan2', 'hypot'):
        x, y = real(E, E.rv(argn[0])), real(E, E.rv(argn[1]))
        f = z3.Function(name, z3.RealSort(), z3.RealSort(), z3.RealSort())
        r = f(x, y)
        if name == 'atan2':
            E.assume(z3.And(r >= -E.pi(), r <= E.pi()))
            _mark(E, 'libm atan2 in [-pi, pi]')
        else:
            E.assume(z3.And(r >= 0, r * r == x * x + y * y))
        return Sc(REAL, r)
    if name == 'sqrt':
        x = real(E, E.rv(argn[0]))
        r = R1('sqrt')(x)
        E.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        _mark(E, 'libm sqrt is the exact non-negative root (real arithmetic)')
        return Sc(REAL, r)
    if name == 'pow':
        x, y = real(E, E.rv(argn[0])), real(E, E.rv(argn[1]))
        if z3.is_rational_value(simp(y)):
            yy = simp(y)
            if yy.denominator_as_long() == 1 and 0 <= yy.numerator_as_long() <= 6:
                r = z3.RealVal(1)
                for _ in range(yy.numerator_as_long()):
                    r = r * x
                return Sc(REAL, simp(r))
        return Sc(REAL, z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y))
    if name in ('fabs', 'abs'):
        v = E.rv(argn[0])
        if v.t.kind == 'int' and parse_type(ty).kind == 'int':
            return Sc(v.t, z3.If(v.z >= 0, v.z, -v.z))
        z = real(E, v)
        return Sc(REAL, z3.If(z >= 0, z, -z))
    if name in ('floor', 'ceil', 'round', 'trunc', 'lround', 'rint', 'nearbyint'):
        z = real(E, E.rv(argn[0]))
        if name == 'floor':
            i = z3.ToInt(z)
        elif name == 'ceil':
            i = -z3.ToInt(-z)
        elif name in ('round', 'lround'):
            h = z3.RealVal('1/2')
            i = z3.If(z >= 0, z3.ToInt(z + h), -z3.ToInt(-z + h))
        else:
            i = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
        rt = parse_type(ty)
        return Sc(rt, i) if rt.kind == 'int' else Sc(REAL, z3.ToReal(i))
    if name == 'fmod':
        a, b = real(E, E.rv(argn[0])), real(E, E.rv(argn[1]))
        f = z3.Function('fmod', z3.RealSort(), z3.RealSort(), z3.RealSort())
        q = z3.Function('fmod_q', z3.RealSort(), z3.RealSort(), z3.IntSort())
        r = f(a, b)
        k = q(a, b)
        _mark(E, 'libm fmod(a,b): result has the sign of a, magnitude below |b|, differs from a by an integer multiple of b')
        ab = z3.If(b >= 0, b, -b)
        E.assume(z3.Implies(b != 0, z3.And(r < ab, r > -ab, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0), a == z3.ToReal(k) * b + r)))
        return Sc(REAL, r)
    if name in ('max', 'min'):
        if len(argn) == 0:
            return numeric_limit(E, name, n)
        if len(argn) == 1:
            v = E.rv(argn[0])
            if isinstance(v, IL):
                r = v.vs[0]
                for x in v.vs[1:]:
                    r = Sc(r.t, z3.If(r.z < x.z, x.z, r.z) if name == 'max' else z3.If(x.z < r.z, x.z, r.z))
                return r
        a, b = E.rv(argn[0]), E.rv(argn[1])
        if len(argn) > 2:
            raise Unsupported('std::%s with comparator' % name)
        if not isinstance(a, Sc):
            raise Unsupported('std::%s of %r' % (name, a))
        c = a.z < b.z if name == 'max' else b.z < a.z
        return Sc(a.t, z3.If(c, b.z, a.z))
    if name == 'clamp':
        x, lo, hi = [E.rv(k) for k in argn]
        return Sc(x.t, z3.If(x.z < lo.z, lo.z, z3.If(hi.z < x.z, hi.z, x.z)))
    if name in ('infinity', 'quiet_NaN', 'epsilon', 'lowest'):
        return numeric_limit(E, name, n)
    if name in ('isnan', 'isinf'):
        E.rv(argn[0])
        E.assumptions.add('no NaN or infinite floating-point values occur')
        return Sc(BOOL, z3.BoolVal(False))
    if name in ('isfinite',):
        E.rv(argn[0])
        return Sc(BOOL, z3.BoolVal(True))
    if name in ('pi', 'two_pi', 'half_pi'):
        k = {'pi': 1, 'two_pi': 2, 'half_pi': z3.RealVal('1/2')}[name]
        return Sc(REAL, E.pi() * k if name != 'pi' else E.pi())
    if name == 'to_string':
        v = E.rv(argn[0])
        if isinstance(v, Sc):
            return Sc(STR, z3.Function('to_string_%s' % v.t.kind, sort_of(v.t), StrSort)(v.z))
        return Sc(STR, E.fresh('str', StrSort))
    if name == 'swap':
        a, b = E.lv(argn[0]), E.lv(argn[1])
        va, vb = E.read(a), E.read(b)
        # element swap inside one container is a permutation of it
        if a.root == b.root and a.path and b.path and a.path[:-1] == b.path[:-1] and a.path[-1][0] == 'i':
            cl = Loc(a.root, a.path[:-1])
            before = E.read(cl)
            E.write(a, vb)
            E.write(b, va)
            assume_perm(E, before, E.read(cl))
            return Void()
        E.write(a, vb)
        E.write(b, va)
        return Void()
    if name == 'iter_swap':
        a, b = E.deref(E.rv(argn[0]), n), E.deref(E.rv(argn[1]), n)
        cl = Loc(a.root, a.path[:-1])
        before = E.read(cl)
        va, vb = E.read(a), E.read(b)
        E.write(a, vb)
        E.write(b, va)
        assume_perm(E, before, E.read(cl))
        return Void()
    if name == 'make_pair':
        a, b = E.rv(argn[0]), E.rv(argn[1])
        t = parse_type(ty)
        if t.kind != 'rec':
            t = T('rec', 'pair', (a.t, b.t))
        return E.coerce(Rec(T('rec', 'pair', (a.t, b.t)), {'first': a, 'second': b}), t)
    if name == 'tie':
        raise Unsupported('std::tie')
    if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'rbegin', 'rend'):
        l = E.lv(argn[0])
        v = E.read(l)
        if isinstance(v, Vec):
            return vec_method(E, name, l, v, [], n)
        if isinstance(v, Rec):
            u = unwrap_container(E, v, l)
            if u is not None:
                return vec_method(E, name, u, E.read(u), [], n)
        raise Unsupported('std::' + name)
    if name == 'back_inserter':
        return BackIns(E.lv(argn[0]))
    if name in ('distance',):
        a, b = E.rv(argn[0]), E.rv(argn[1])
        return Sc(LONG, simp(b.i - a.i) if not a.rev else simp(a.i - b.i))
    if name in ('next', 'prev'):
        a = E.rv(argn[0])
        k = E.conv(E.rv(argn[1]), LONG).z if len(argn) > 1 and argn[1].kind != 'CXXDefaultArgExpr' else z3.IntVal(1)
        if (name == 'prev') != a.rev:
            k = -k
        return It(a.loc, simp(a.i + k), a.rev)
    if name == 'advance':
        l = E.lv(argn[0])
        a = E.read(l)
        k = E.conv(E.rv(argn[1]), LONG).z
        E.write(l, It(a.loc, simp(a.i + (k if not a.rev else -k)), a.rev))
        return Void()
    if name in ALGOS:
        return ALGOS[name](E, argn, n)
    if name in ('nullopt',):
        return Opq(T('opaque', 'nullopt'), None)
    if name in ('make_shared', 'make_unique'):
        raise Unsupported(name)
    if name in ('operator==', 'operator!=', 'operator+', 'operator-', 'operator<'):
        return std_operator(E, name, argn, n)
    if name in ('CPLFree', 'printf', 'destroyGeometry'):
        for a in argn:
            E.ev(a)
        return Void()
    if name == 'rand' or name == 'time':
        v = E.fresh_v('rand', parse_type(ty))
        E.assume(v.z >= 0)
        return v
    raise Unsupported('function %s at %s' % (name, E.where(n)))


def numeric_limit(E, name, n):
    t = parse_type(n.t)
    if t.kind == 'int':
        mx = (1 << (t.bits - 1)) - 1 if t.signed else (1 << t.bits) - 1
        mn = -(1 << (t.bits - 1)) if t.signed else 0
        if name == 'max':
            return Sc(t, z3.IntVal(mx))
        if name in ('min', 'lowest'):
            return Sc(t, z3.IntVal(mn))
    if t.kind == 'real':
        DMAX = z3.Real('DBL_MAX')
        E.axiom('dblmax', [DMAX > z3.RealVal(10) ** 100 if False else DMAX > z3.RealVal('1' + '0' * 100)])
        if name == 'max' or name == 'infinity':
            E.assumptions.add('every double in the computation is below numeric_limits<double>::max()/infinity in magnitude')
            return Sc(t, DMAX)
        if name == 'lowest':
            return Sc(t, -DMAX)
        if name == 'min':
            z = z3.Real('DBL_MIN')
            E.axiom('dblmin', [z > 0, z < z3.RealVal('1e-300') if False else z < z3.RealVal('1/' + '1' + '0' * 100)])
            return Sc(t, z)
        if name == 'epsilon':
            return Sc(t, z3.RealVal('2.220446049250313e-16'))
    raise Unsupported('numeric_limits::' + name)


def a_rotate(E, argn, n):
    a, m, b = [E.rv(x) for x in argn]
    v = it_range(E, a, b, n, 'std::rotate')
    E.oblige('std::rotate: middle within the range', z3.And(a.i <= m.i, m.i <= b.i), n)
    _mark(E, 'std::rotate')
    lo, mid, hi = a.i, m.i, b.i
    arr = E.fresh('rot', v.arr.sort())
    i = z3.Int('ro_i')
    E.assume(z3.ForAll([i], arr[i] == z3.If(z3.And(lo <= i, i < hi),
                                            z3.If(i < lo + (hi - mid), v.arr[i + (mid - lo)], v.arr[i - (hi - mid)]), v.arr[i]), patterns=[arr[i]]))
    nv = Vec(v.t, arr, v.n)
    assume_perm(E, v, nv)
    E.write(a.loc, nv)
    return It(a.loc, simp(lo + (hi - mid)))


def a_reverse(E, argn, n):
    a, b = [E.rv(x) for x in argn]
    v = it_range(E, a, b, n, 'std::reverse')
    _mark(E, 'std::reverse')
    lo, hi = a.i, b.i
    arr = E.fresh('rev', v.arr.sort())
    i = z3.Int('rv_i')
    E.assume(z3.ForAll([i], arr[i] == z3.If(z3.And(lo <= i, i < hi), v.arr[lo + hi - 1 - i], v.arr[i]), patterns=[arr[i]]))
    nv = Vec(v.t, arr, v.n)
    assume_perm(E, v, nv)
    E.write(a.loc, nv)
    return Void()


def less(E, t, x, y, n, cmp=None):
    """x < y for the element type, by the repository's own operator< when it has one"""
    if cmp is not None:
        return E.conv(E.call_lam(cmp, [E.new_root(x, 'l'), E.new_root(y, 'r')], n), BOOL).z
    if isinstance(x, Sc):
        return x.z < y.z
    if t.kind == 'rec':
        for f in E.prog.find('f2c::types::%s::operator<' % t.name):
            r = E.inline(f, E.new_root(x, 'l'), [E.new_root(y, 'r')], n)
            return (E.read(r) if isinstance(r, Loc) else r).z
    raise Unsupported('ordering of %s' % (t,))


def pure_pred(E, fn, n):
    """evaluate fn() (a loop-free, path-free boolean computation) without side effects"""
    st = E.st.copy()
    npc = len(st.pc)
    res = []

    def run():
        r = fn()
        res_local.append(r)
    out = []

    def end(s, o):
        if o[0] != 'normal':
            raise Unsupported('predicate throws')
        out.append((s.pc[len(base_pc):], res_local[-1]))
    res_local = []
    base_pc = list(E.st.pc)
    E.quiet += 1
    try:
        E.explore(run, end)
    finally:
        E.quiet -= 1
    if not out:
        raise Unsupported('predicate without result')
    r = None
    if len(out) == 1:
        return out[0][1], out[0][0]
    r = out[-1][1]
    for pc, x in reversed(out[:-1]):
        r = z3.If(z3.And(pc or [z3.BoolVal(True)]), x, r)
    return r, []


def a_sort(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    cmp = E.rv(argn[2]) if len(argn) > 2 else None
    v = it_range(E, a, b, n, 'std::sort')
    _mark(E, 'std::sort: a permutation, no element less than its predecessor')
    arr = E.fresh('srt', v.arr.sort())
    nv = Vec(v.t, arr, v.n)
    assume_perm(E, v, nv)
    i, j = z3.Int('so_i'), z3.Int('so_j')
    full = simp(a.i).eq(z3.IntVal(0)) and simp(b.i - v.n).eq(z3.IntVal(0))
    if not full:
        E.assume(z3.ForAll([i], z3.Implies(z3.Not(z3.And(a.i <= i, i < b.i)), arr[i] == v.arr[i]), patterns=[arr[i]]))
    lt, facts = pure_pred(E, lambda: less(E, v.t.e, unpack(v.t.e, arr[j]), unpack(v.t.e, arr[i]), n, cmp), n)
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(a.i <= i, i < j, j < b.i), z3.Not(lt)), patterns=[z3.MultiPattern(arr[i], arr[j])]))
    E.write(a.loc, nv)
    return Void()


def a_unique(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    v = it_range(E, a, b, n, 'std::unique')
    if not isinstance(unpack(v.t.e, v.arr[0]), Sc):
        raise Unsupported('std::unique of records')
    _mark(E, 'std::unique on the whole range: keeps the first of each run of equal elements')
    arr = E.fresh('unq', v.arr.sort())
    k = E.fresh('unq_n', z3.IntSort())
    src = E.fresh('unq_s', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    i, j = z3.Int('un_i'), z3.Int('un_j')
    lo, hi = a.i, b.i
    E.assume(z3.And(lo <= k, k <= hi, z3.Implies(hi > lo, k > lo)))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < k), z3.And(lo <= src[i], src[i] < hi, arr[i] == v.arr[src[i]], src[i] >= i)), patterns=[arr[i]]))
    E.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < k), src[i] < src[j]), patterns=[z3.MultiPattern(src[i], src[j])]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(lo < i, i < k), arr[i] != arr[i - 1]), patterns=[arr[i]]))
    # nothing was dropped exactly when no two neighbours are equal
    E.assume((k == hi) == z3.ForAll([i], z3.Implies(z3.And(lo <= i, i + 1 < hi), v.arr[i] != v.arr[i + 1]), patterns=[v.arr[i]]))
    E.assume(z3.Implies(k == hi, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), arr[i] == v.arr[i]), patterns=[arr[i]])))
    E.write(a.loc, Vec(v.t, arr, v.n))
    return It(a.loc, k)


def a_adjacent_find(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    if len(argn) > 2:
        raise Unsupported('adjacent_find predicate')
    v = it_range(E, a, b, n, 'std::adjacent_find')
    r = E.fresh('adj', z3.IntSort())
    i = z3.Int('af_i')
    E.assume(z3.And(a.i <= r, r <= b.i))
    E.assume(z3.Implies(r < b.i, z3.And(r + 1 < b.i, v.arr[r] == v.arr[r + 1])))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(a.i <= i, i < r, i + 1 < b.i), v.arr[i] != v.arr[i + 1]), patterns=[v.arr[i]]))
    _mark(E, 'std::adjacent_find')
    return It(a.loc, r)


def extremum(E, argn, n, mx):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    cmp = E.rv(argn[2]) if len(argn) > 2 else None
    v = it_range(E, a, b, n, 'std::max_element' if mx else 'std::min_element')
    _mark(E, 'std::min_element / max_element: first extremal position')
    r = E.fresh('ext', z3.IntSort())
    E.st.log = E.st.log + (('extremum', r),)
    i = z3.Int('ex_i')
    E.assume(z3.Implies(a.i == b.i, r == b.i))
    E.assume(z3.Implies(a.i < b.i, z3.And(a.i <= r, r < b.i)))
    el = lambda k: unpack(v.t.e, v.arr[k])
    if mx:
        l1, _ = pure_pred(E, lambda: less(E, v.t.e, el(r), el(i), n, cmp), n)   # best < other: never
        l2, _ = pure_pred(E, lambda: less(E, v.t.e, el(i), el(r), n, cmp), n)   # earlier ones are strictly smaller
    else:
        l1, _ = pure_pred(E, lambda: less(E, v.t.e, el(i), el(r), n, cmp), n)
        l2, _ = pure_pred(E, lambda: less(E, v.t.e, el(r), el(i), n, cmp), n)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(a.i <= i, i < b.i), z3.Not(l1)), patterns=[v.arr[i]]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(a.i <= i, i < r, a.i < b.i), l2), patterns=[v.arr[i]]))
    return It(a.loc, r)


def elem(E, a, i):
    """location of what an iterator of the range that starts at a refers to at index i"""
    if isinstance(a, GIt):
        g = GEO_KIDS[a.geo]
        return E.new_root(Rec(T('rec', g), {'data_': Sc(T('ptr', g), pack(E.read(a.loc.idx(i))))}), 'kid')
    return a.loc.idx(i)


def loop_over(E, n, a, b, fn):
    """for (i = a; i != b; ++i) fn(i) as a loop of the verified function"""
    ix = E.new_root(Sc(LONG, a.i), 'idx#')
    if a.rev:
        raise Unsupported('algorithm on reverse iterators')
    it_range(E, a, b, n, 'algorithm')
    hi = b.i
    E.loop_bound = (ix, hi)
    E.run_loop(n, lambda: E.read(ix).z < hi, lambda: fn(E.read(ix).z), lambda: E._inc(ix), idx=None, cont=a.loc)


def a_for_each(E, argn, n):
    a, b, f = [E.rv(x) for x in argn]
    loop_over(E, n, a, b, lambda i: E.call_lam(f, [elem(E, a, i)], n))
    return f


def a_accumulate(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    init = E.rv(argn[2])
    f = E.rv(argn[3]) if len(argn) > 3 else None
    acc_ = E.new_root(init, 'acc')

    def step(i):
        cur = E.read(acc_)
        if f is None:
            x = E.read(elem(E, a, i))
            tt = cur.t
            if isinstance(cur, Sc) and isinstance(x, Sc):
                wide = REAL if 'real' in (cur.t.kind, x.t.kind) else (x.t if x.t.bits > cur.t.bits else cur.t)
                r = E.conv(E.arith('+', E.conv(cur, wide), E.conv(x, wide), n), tt)
            else:
                raise Unsupported('accumulate of records')
        else:
            r = E.call_lam(f, [E.new_root(cur, 'acc'), elem(E, a, i)], n)
            r = E.read(r) if isinstance(r, Loc) else r
            r = E.coerce(r, cur.t)
        E.write(acc_, r)
    loop_over(E, n, a, b, step)
    return E.read(acc_)


def a_transform(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    out = E.rv(argn[2])
    f = E.rv(argn[3])
    ooff = None
    if isinstance(out, It):
        ooff = E.new_root(Sc(LONG, out.i), 'out#')

    def step(i):
        r = E.call_lam(f, [elem(E, a, i)], n)
        r = E.read(r) if isinstance(r, Loc) else r
        put(E, out, ooff, r, n)
    loop_over(E, n, a, b, step)
    return out


def put(E, out, ooff, r, n):
    if isinstance(out, BackIns):
        v = E.read(out.loc)
        E.write(out.loc, Vec(v.t, z3.Store(v.arr, v.n, pack(E.coerce(r, v.t.e))), simp(v.n + 1)))
    else:
        k = E.read(ooff).z
        l = it_deref(E, It(out.loc, k), n)
        E.write(l, E.coerce(r, E.read(out.loc).t.e))
        E._inc(ooff)


def a_copy(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    out = E.rv(argn[2])
    ooff = E.new_root(Sc(LONG, out.i), 'out#') if isinstance(out, It) else None
    loop_over(E, n, a, b, lambda i: put(E, out, ooff, E.read(elem(E, a, i)), n))
    return out


def a_iota(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    v0 = E.rv(argn[2])
    cur = E.new_root(v0, 'iota')

    def step(i):
        v = E.read(a.loc)
        E.write(a.loc.idx(i), E.coerce(E.read(cur), v.t.e))
        E._inc(cur)
    loop_over(E, n, a, b, step)
    return Void()


def a_fill(E, argn, n):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    x = E.rv(argn[2])
    v = it_range(E, a, b, n, 'std::fill')
    arr = E.fresh('fill', v.arr.sort())
    i = z3.Int('fi_i')
    px = pack(E.coerce(x, v.t.e))
    E.assume(z3.ForAll([i], arr[i] == z3.If(z3.And(a.i <= i, i < b.i), px, v.arr[i]), patterns=[arr[i]]))
    E.write(a.loc, Vec(v.t, arr, v.n))
    return Void()


def quantified(E, argn, n, kind):
    a, b, f = [E.rv(x) for x in argn]
    v = it_range(E, a, b, n, 'std::' + kind)
    i = z3.Int('qf_i')
    p, facts = pure_pred(E, lambda: E.conv(_rd(E, E.call_lam(f, [E.new_root(unpack(v.t.e, v.arr[i]), 'x')], n)), BOOL).z, n)
    _mark(E, 'std::any_of / all_of / none_of')
    rng = z3.And(a.i <= i, i < b.i)
    if kind == 'any_of':
        z = z3.Exists([i], z3.And(rng, p))
    elif kind == 'all_of':
        z = z3.ForAll([i], z3.Implies(rng, p))
    else:
        z = z3.Not(z3.Exists([i], z3.And(rng, p)))
    return Sc(BOOL, z)


def _rd(E, x):
    return E.read(x) if isinstance(x, Loc) else x


def a_find(E, argn, n, pred=False):
    a, b = E.rv(argn[0]), E.rv(argn[1])
    f = E.rv(argn[2])
    v = it_range(E, a, b, n, 'std::find')
    r = E.fresh('find', z3.IntSort())
    i = z3.Int('fd_i')

    def p(k):
        x = unpack(v.t.e, v.arr[k])
        if pred:
            return E.conv(_rd(E, E.call_lam(f, [E.new_root(x, 'x')], n)), BOOL).z
        if isinstance(x, Sc):
            return x.z == E.coerce(f, v.t.e).z
        raise Unsupported('std::find of records')
    pi_, _ = pure_pred(E, lambda: p(i), n)
    pr, _ = pure_pred(E, lambda: p(r), n)
    E.assume(z3.And(a.i <= r, r <= b.i, z3.Implies(r < b.i, pr)))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(a.i <= i, i < r), z3.Not(pi_)), patterns=[v.arr[i]]))
    _mark(E, 'std::find / find_if: first match or end')
    return It(a.loc, r)


def a_count_if(E, argn, n):
    a, b, f = [E.rv(x) for x in argn]
    c = E.new_root(Sc(LONG, z3.IntVal(0)), 'count')

    def step(i):
        z = E.conv(_rd(E, E.call_lam(f, [elem(E, a, i)], n)), BOOL).z
        v = E.read(c)
        E.write(c, Sc(LONG, z3.If(z, v.z + 1, v.z)))
    loop_over(E, n, a, b, step)
    return E.read(c)


ALGOS = {'rotate': a_rotate, 'reverse': a_reverse, 'sort': a_sort, 'stable_sort': a_sort, 'unique': a_unique, 'adjacent_find': a_adjacent_find,
         'max_element': lambda E, a, n: extremum(E, a, n, True), 'min_element': lambda E, a, n: extremum(E, a, n, False),
         'for_each': a_for_each, 'accumulate': a_accumulate, 'transform': a_transform, 'copy': a_copy, 'iota': a_iota, 'fill': a_fill,
         'any_of': lambda E, a, n: quantified(E, a, n, 'any_of'), 'all_of': lambda E, a, n: quantified(E, a, n, 'all_of'),
         'none_of': lambda E, a, n: quantified(E, a, n, 'none_of'), 'find': a_find, 'find_if': lambda E, a, n: a_find(E, a, n, True),
         'count_if': a_count_if}


def global_var(E, name, n):
    if name == 'nullopt':
        return Opq(T('opaque', 'nullopt'), None)
    if name in ('cout', 'cerr', 'clog'):
        return Opq(T('opaque', 'stream'), None)
    t = parse_type(n.t)
    return E.fresh_v('global_' + str(name), t) if t.kind in ('int', 'real', 'bool') else Opq(t, None)


# ------------------------------------------------------------------ OGR
def construct_point(E, vals, n):
    z0 = Sc(REAL, z3.RealVal(0))
    if not vals:
        return Rec(POINT, {'x': z0, 'y': z0, 'z': z0})
    if len(vals) == 1 and isinstance(vals[0], Rec) and vals[0].t.name == 'Point':
        return vals[0]
    if len(vals) in (1, 2) and isinstance(vals[0], LocPtr):
        v = E.read(vals[0].loc)
        if len(vals) == 1:
            return v
    if len(vals) >= 2 and all(isinstance(v, Sc) for v in vals):
        c = [E.conv(v, REAL) for v in vals] + [z0]
        return Rec(POINT, {'x': c[0], 'y': c[1], 'z': c[2]})
    raise Unsupported('Point constructor %r at %s' % (vals, E.where(n)))


def ogrpoint_method(E, name, loc, v, argn, n):
    if name in ('getX', 'getY', 'getZ'):
        return v.f[name[3].lower()]
    if name in ('setX', 'setY', 'setZ'):
        E.write(loc.fld(name[3].lower()), E.conv(E.rv(argn[0]), REAL))
        return Void()
    if name == 'IsEmpty':
        E.assumptions.add('an OGR point built from coordinates is not empty')
        return Sc(BOOL, z3.BoolVal(False))
    if name == 'get':
        return LocPtr(loc)
    if name == 'Distance':
        o = E.rv(argn[0])
        if isinstance(o, LocPtr):
            w = E.read(o.loc)
            if isinstance(w, Rec) and w.t.name == 'Point':
                return Sc(REAL, point_dist(E, v, w))
        if isinstance(o, Sc) and o.t.kind == 'ptr':
            return Sc(REAL, geo_dist(E, v, o))
    if name in OGR_PREDS:
        _mark(E, 'OGR/GEOS operations and predicates on geometries: functions of the contents of the operands')
        return Sc(BOOL, ogr_op(E, name, pack(v), *[ogr_arg(E, E.rv(a)) for a in argn]))
    if name == 'clone':
        return LocPtr(E.new_root(v, 'pclone'))
    if name == 'operator bool':
        return Sc(BOOL, z3.BoolVal(True))
    raise Unsupported('OGRPoint::%s at %s' % (name, E.where(n)))


def point_dist(E, a, b):
    """planar euclidean distance as an uninterpreted metric of the coordinates with its defining square"""
    f = z3.Function('dist2d', *([z3.RealSort()] * 5))
    ax, ay, bx, by = a.f['x'].z, a.f['y'].z, b.f['x'].z, b.f['y'].z
    d = f(ax, ay, bx, by)
    E.assume(d >= 0)
    _mark(E, 'OGR point-point Distance: non-negative, symmetric function of the planar coordinates')
    r = [z3.Real('d_%s' % q) for q in 'abcd']
    E.axiom('dist', [z3.ForAll(r, z3.And(f(*r) >= 0, f(*r) == f(r[2], r[3], r[0], r[1])), patterns=[f(*r)])])
    return d


def geo_dist(E, p, ref):
    """distance of a point to a geometry: a function of the point and of the current contents"""
    c = pack(E.read(hloc(ref)))
    f = z3.Function('pdist_geo_%s' % ref.t.name, z3.RealSort(), z3.RealSort(), c.sort(), z3.RealSort())
    r = f(p.f['x'].z, p.f['y'].z, c)
    E.assume(r >= 0)
    _mark(E, 'OGR Distance: a non-negative function of the two geometries')
    return r


def geo_kind(name):
    if name in GEO_PTS:
        return 'pts'
    if name in GEO_KIDS:
        return 'kids'
    raise Unsupported('geometry kind of ' + str(name))


def hloc(v):
    return Loc(('H', geo_kind(v.t.name), v.z))


def path_length(E, name, vec):
    f = z3.Function('ogr_length', sort_of(PTS), z3.RealSort())
    r = f(pack(vec))
    E.assume(r >= 0)
    _mark(E, 'OGR get_Length: a non-negative function of the point sequence')
    return r


def ogr_method(E, name, v, argn, n):
    if v.t.name not in GEO_ALL:
        raise Unsupported('OGR %s::%s at %s' % (v.t.name, name, E.where(n)))
    hl = hloc(v)
    c = E.read(hl)
    A = lambda i: E.rv(argn[i])
    if name in ('getNumPoints', 'getNumGeometries'):
        E.assume(z3.And(c.n >= 0, c.n < (1 << 31) - 1))
        return Sc(INT, c.n)
    if name == 'IsEmpty':
        E.assume(z3.And(c.n >= 0, c.n < (1 << 31) - 1))
        if c.t == PTS:
            return Sc(BOOL, c.n == 0)
        # a collection is empty when all its members are
        from . import geo
        return Sc(BOOL, geo.empty(E, v.t.name, geo.cont(E, v)))
    if name in ('getX', 'getY', 'getZ') and c.t == PTS:
        i = E.conv(A(0), INT).z
        E.oblige('OGR point index inside [0,getNumPoints)', z3.And(0 <= i, i < c.n), n)
        return E.read(hl.idx(i)).f[name[3].lower()]
    if name == 'getPoint' and c.t == PTS:
        i = E.conv(A(0), INT).z
        E.oblige('OGR point index inside [0,getNumPoints)', z3.And(0 <= i, i < c.n), n)
        p = A(1)
        E.write(p.loc, E.read(hl.idx(i)))
        return Void()
    if name == 'setPoint' and c.t == PTS:
        i = E.conv(A(0), INT).z
        xs = [E.conv(A(k), REAL) for k in range(1, len(argn))]
        while len(xs) < 3:
            xs.append(Sc(REAL, z3.RealVal(0)))
        E.oblige('OGR setPoint: non-negative index', i >= 0, n)
        pt = Rec(POINT, dict(zip('xyz', xs)))
        # beyond the end OGR grows the line
        if E.choice([i < c.n, i >= c.n]) == 0:
            E.write(hl.idx(i), pt)
        else:
            arr = E.fresh('grow', c.arr.sort())
            k = z3.Int('gr_i')
            E.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c.n), arr[k] == c.arr[k]), patterns=[arr[k]]))
            E.write(hl, Vec(c.t, z3.Store(arr, i, pack(pt)), i + 1))
        return Void()
    if name == 'addPoint' and c.t == PTS:
        if len(argn) == 1:
            p = A(0)
            pt = E.read(p.loc) if isinstance(p, LocPtr) else p
        else:
            xs = [E.conv(A(k), REAL) for k in range(len(argn))]
            while len(xs) < 3:
                xs.append(Sc(REAL, z3.RealVal(0)))
            pt = Rec(POINT, dict(zip('xyz', xs)))
        E.write(hl, Vec(c.t, z3.Store(c.arr, c.n, pack(pt)), simp(c.n + 1)))
        E.assume(z3.And(c.n >= 0, c.n < (1 << 31) - 2))
        return Void()
    if name == 'reversePoints' and c.t == PTS:
        arr = E.fresh('revp', c.arr.sort())
        i = z3.Int('rp_i')
        E.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c.n), arr[i] == c.arr[c.n - 1 - i]), patterns=[arr[i]]))
        E.write(hl, Vec(c.t, arr, c.n))
        _mark(E, 'OGR reversePoints reverses the point order in place')
        return Void()
    if name == 'get_IsClosed' and c.t == PTS:
        f = z3.Function('ogr_same_point', sort_of(POINT), sort_of(POINT), z3.BoolSort())

        def ax():
            p, q = z3.Const('sp_p', sort_of(POINT)), z3.Const('sp_q', sort_of(POINT))
            P, Q = unpack(POINT, p), unpack(POINT, q)
            return [z3.ForAll([p], f(p, p), patterns=[f(p, p)]),
                    z3.ForAll([p, q], z3.Implies(f(p, q), z3.And(P.f['x'].z == Q.f['x'].z, P.f['y'].z == Q.f['y'].z)), patterns=[f(p, q)])]
        E.axiom('ogr_same_point', ax)
        _mark(E, 'OGR get_IsClosed: first and last point agree in x and y (a point agrees with itself)')
        E.assume(f(c.arr[0], c.arr[0]))
        return Sc(BOOL, z3.And(c.n > 0, f(c.arr[0], c.arr[c.n - 1])))
    if name == 'get_Length' and c.t == PTS:
        return Sc(REAL, path_length(E, v.t.name, c))
    if name == 'get_Area':
        from . import geo
        r = geo.area(E, geo.cont(E, v))
        E.assume(r >= 0)
        _mark(E, 'OGR get_Area: a non-negative function of the geometry')
        return Sc(REAL, r)
    if name == 'getGeometryRef' and v.t.name == 'MultiPoint':
        i = E.conv(A(0), INT).z
        E.oblige('OGR geometry index inside [0,getNumGeometries)', z3.And(0 <= i, i < c.n), n)
        return LocPtr(hl.idx(i))
    if name == 'addGeometry' and v.t.name == 'MultiPoint':
        p = A(0)
        pt = E.read(p.loc) if isinstance(p, LocPtr) else p
        E.write(hl, Vec(c.t, z3.Store(c.arr, c.n, pack(pt)), simp(c.n + 1)))
        E.assume(z3.And(c.n >= 0, c.n < (1 << 31) - 2))
        return Sc(INT, z3.IntVal(0))
    if name == 'getGeometryRef' and c.t == REFS:
        i = E.conv(A(0), INT).z
        E.oblige('OGR geometry index inside [0,getNumGeometries)', z3.And(0 <= i, i < c.n), n)
        return Sc(T('ptr', GEO_KIDS[v.t.name]), c.arr[i])
    if name == 'getExteriorRing' and v.t.name == 'Cell':
        E.oblige('polygon has an exterior ring', c.n >= 1, n)
        return Sc(T('ptr', 'LinearRing'), c.arr[0])
    if name == 'getInteriorRing' and v.t.name == 'Cell':
        i = E.conv(A(0), INT).z
        E.oblige('interior ring index', z3.And(0 <= i, i + 1 < c.n), n)
        return Sc(T('ptr', 'LinearRing'), c.arr[i + 1])
    if name == 'getNumInteriorRings' and v.t.name == 'Cell':
        return Sc(INT, z3.If(c.n >= 1, c.n - 1, z3.IntVal(0)))
    if name in ('addGeometry', 'addRing') and c.t == REFS:
        g = A(0)
        if isinstance(g, Sc) and g.t.kind == 'ptr':
            r = clone_ref(E, g)
            c = E.read(hl)
            E.write(hl, Vec(c.t, z3.Store(c.arr, c.n, r.z), simp(c.n + 1)))
            return Sc(INT, z3.IntVal(0))
    if name in ('addGeometryDirectly', 'addRingDirectly') and c.t == REFS:
        g = A(0)
        E.write(hl, Vec(c.t, z3.Store(c.arr, c.n, g.z), simp(c.n + 1)))
        return Sc(INT, z3.IntVal(0))
    if name == 'clone':
        return clone_ref(E, v)
    if name == 'getEnvelope':
        from . import geo
        p = A(0)
        g = geo.cont(E, v)
        xs = {f: Sc(REAL, geo.envelope(E, g, f)) for f in ('MinX', 'MaxX', 'MinY', 'MaxY')}
        E.assume(z3.And(xs['MinX'].z <= xs['MaxX'].z, xs['MinY'].z <= xs['MaxY'].z))
        _mark(E, 'OGR getEnvelope: Min <= Max')
        E.write(p.loc, Rec(T('rec', 'OGREnvelope'), xs))
        return Void()
    if name in OGR_OPS or name in OGR_PREDS:
        from . import geo
        xs = [geo.cont(E, v)] + [ogr_arg(E, A(i)) for i in range(len(argn))]
        _mark(E, 'OGR/GEOS operations and predicates on geometries: functions of the contents of the operands')
        nm = '%s_%s' % (name, '_'.join(str(x.sort()) for x in xs))
        if name in OGR_PREDS:
            return Sc(BOOL, geo.op(E, nm, z3.BoolSort(), *xs))
        return Sc(T('ptr', 'OGRGeometry'), geo.op(E, nm, z3.IntSort(), *xs))
    if name in ('closeRings',):
        E.write(hl, E.fresh_v('closed', c.t))
        return Void()
    raise Unsupported('OGR %s::%s at %s' % (v.t.name, name, E.where(n)))


OGR_OPS = ('Difference', 'Intersection', 'Union', 'UnionCascaded', 'ConvexHull', 'Buffer', 'Simplify', 'SimplifyPreserveTopology', 'Boundary')
OGR_PREDS = ('Intersects', 'Disjoint', 'Crosses', 'Touches', 'Within', 'Contains', 'Overlaps')


def ogr_arg(E, a):
    from . import geo
    if isinstance(a, LocPtr):
        v = E.read(a.loc)
        if isinstance(v, Rec) and v.t.name == 'Point':
            return pack(v)
    if isinstance(a, Sc) and a.t.kind == 'ptr':
        return a.z if a.t.name == 'OGRGeometry' else geo.cont(E, a)
    if isinstance(a, Sc):
        return a.z
    raise Unsupported('operand of an OGR operation: %r' % (a,))


def ogr_op(E, name, *xs):
    """the same operation in a specification: xs are contents, points or numbers"""
    from . import geo
    return geo.op(E, '%s_%s' % (name, '_'.join(str(x.sort()) for x in xs)), z3.BoolSort() if name in OGR_PREDS else z3.IntSort(), *xs)


def geo_of(E, cls, g):
    """content of an object of class cls built from the result g of an operation"""
    from . import geo
    return geo.op(E, cls + 'From', geo.ctype(cls), g)


def clone_ref(E, v):
    """fresh deep copy of an OGR geometry"""
    _mark(E, 'OGR clone(): an independent copy with equal contents')
    kind = geo_kind(v.t.name)
    c = E.read(hloc(v))
    from . import geo
    if kind == 'pts':
        r = E.alloc_ref()
        h0 = dict(E.st.heap)
        h = E.heap_arr('pts')
        E.st.heap['pts'] = z3.Store(h, r, pack(c))
        if 'kids' in h0 and 'pts' in h0:
            geo.frame(E, r, h0['kids'], h0['pts'], E.st.heap['kids'], E.st.heap['pts'])
        return Sc(v.t, r)
    return Sc(v.t, geo.fresh(E, v.t.name, geo.cont(E, v)).f['data_'].z)


def construct_geo(E, t, vals, args, n):
    """Geometry(...) constructors of the geometry classes"""
    if not vals:
        return E.new_geo(t.name)
    a = vals[0]
    if isinstance(a, Sc) and a.t.kind == 'ptr':
        tgt = T('ptr', t.name)
        if len(vals) == 2:              # EmptyDestructor: a view of the existing geometry
            return Rec(t, {'data_': Sc(tgt, a.z)})
        if a.t.name == 'OGRGeometry' and len(vals) == 1 and t.name in GEO_ALL:
            from . import geo
            _mark(E, '%s built from the result of a GEOS operation: its content is a function of that result' % t.name)
            return geo.fresh(E, t.name, geo_of(E, t.name, a.z))
        if a.t.name == t.name:          # const T*: deep copy
            return Rec(t, {'data_': Sc(tgt, clone_ref(E, Sc(tgt, a.z)).z)})
    if isinstance(a, Rec) and a.t == t:
        return a
    return None


CLONES = ('LineString', 'LinearRing', 'MultiPoint', 'MultiLineString', 'Cell', 'Cells')


def f2c_builtin(E, d, qn, obj, args, n):
    """repository functions that are given meaning by an axiom instead of their body (they go through OGR)"""
    if qn == 'f2c::types::Geometries::clone' and obj is not None:
        v = E.read(obj)
        if isinstance(v, Rec) and v.t.name in CLONES:
            _mark(E, 'clone() through WKT text reproduces the geometry (coordinates up to its decimal precision)')
            return Rec(v.t, {'data_': clone_ref(E, v.f['data_'])})
    if qn in ('f2c::types::Geometry::get', 'f2c::types::Geometry::operator->') and obj is not None:
        v = E.read(obj)
        if isinstance(v, Rec) and v.t.name == 'Point':
            return LocPtr(obj)
        if isinstance(v, Rec) and 'data_' in v.f:
            return v.f['data_']
    if qn == 'f2c::types::Geometry::isEmpty' and obj is not None:
        v = E.read(obj)
        if isinstance(v, Rec) and v.t.name in GEO_PTS:
            c = E.read(hloc(v.f['data_']))
            return Sc(BOOL, c.n == 0)
        if isinstance(v, Rec) and v.t.name == 'Point':
            return Sc(BOOL, z3.BoolVal(False))
    if qn == 'f2c::types::Geometry::distance' and obj is not None:
        v = E.read(obj)
        w = E.read(args[0]) if isinstance(args[0], Loc) else args[0]
        if v.t.name == 'Point' and w.t.name == 'Point':
            return Sc(REAL, point_dist(E, v, w))
        h = {'pts': E.st.heap['pts'], 'kids': E.st.heap['kids']}

        def key(x):
            return pack(x) if x.t.name == 'Point' else pack(E.read(hloc(x.f['data_'])))
        ka, kb = key(v), key(w)
        f = z3.Function('geodist_%s_%s' % (v.t.name, w.t.name), ka.sort(), kb.sort(), z3.RealSort())
        r = f(ka, kb)
        E.assume(r >= 0)
        _mark(E, 'OGR Distance: a non-negative function of the two geometries')
        return Sc(REAL, r)
    return NotImplemented


def f2c_external(E, d, qn, obj, args, n):
    if E.M_ext is not None:
        r = E.M_ext(E, d, qn, obj, args, n)
        if r is not NotImplemented:
            return r
    raise Unsupported('call of %s (no body, no contract) at %s' % (qn, E.where(n)))
