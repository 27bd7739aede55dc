"""Types, symbolic values and locations of the verifier."""
import re
import z3


z3.set_param('warning', False)
z3.set_param('memory_max_size', 2500)
_ForAll = z3.ForAll


def _safe_forall(vs, body, *a, **kw):
    """quantifier whose trigger is dropped when it contains interpreted connectives (z3 would reject it)"""
    try:
        return _ForAll(vs, body, *a, **kw)
    except z3.Z3Exception:
        kw.pop('patterns', None)
        return _ForAll(vs, body, *a, **kw)


z3.ForAll = _safe_forall


class Unsupported(Exception):
    """A construct the verifier has no rule for: the function is out of reach, nothing is concluded."""


class T(object):
    _pool = {}

    def __new__(cls, kind, name=None, args=(), bits=0, signed=False):
        k = (kind, name, tuple(args), bits, signed)
        o = cls._pool.get(k)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.name, o.args, o.bits, o.signed = kind, name, tuple(args), bits, signed
            cls._pool[k] = o
        return o

    @property
    def e(self):
        return self.args[0]

    def key(self):
        s = self.kind if self.kind not in ('rec', 'opaque', 'ptr') else '%s_%s' % (self.kind[0], re.sub(r'\W', '_', self.name or ''))
        if self.args:
            s += '_' + '_'.join(a.key() for a in self.args)
        if self.kind == 'int':
            s = 'int'
        return s

    def __repr__(self):
        return '%s%s%s' % (self.kind, ':' + self.name if self.name else '', list(self.args) if self.args else '')


def IntT(bits, signed):
    return T('int', None, (), bits, signed)


INT = IntT(32, True)
UINT = IntT(32, False)
LONG = IntT(64, True)
SIZE = IntT(64, False)
CHAR = IntT(8, True)
BOOL = T('bool')
REAL = T('real')
STR = T('str')
VOID = T('void')
PTS = T('vec', None, (T('rec', 'Point'),))
REFS = T('vec', None, (T('ptr', 'geo'),))
POINT = T('rec', 'Point')

BASIC = {'int': INT, 'unsigned int': UINT, 'unsigned': UINT, 'long': LONG, 'unsigned long': SIZE, 'size_t': SIZE,
         'long long': LONG, 'long long int': LONG, 'unsigned long long': SIZE, 'char': CHAR, 'signed char': CHAR,
         'unsigned char': IntT(8, False), 'short': IntT(16, True), 'unsigned short': IntT(16, False),
         'bool': BOOL, '_Bool': BOOL, 'double': REAL, 'float': REAL, 'long double': REAL, 'void': VOID,
         'int64_t': LONG, 'uint32_t': UINT, 'int32_t': INT, 'uint64_t': SIZE, 'uint8_t': IntT(8, False),
         'difference_type': LONG, 'size_type': SIZE, 'ptrdiff_t': LONG, 'long int': LONG,
         'string': STR, 'basic_string<char>': STR, 'std::string': STR}

GEO_PTS = ('LineString', 'LinearRing', 'MultiPoint')
GEO_KIDS = {'MultiLineString': 'LineString', 'Cell': 'LinearRing', 'Cells': 'Cell'}
OGR2GEO = {'OGRLineString': 'LineString', 'OGRLinearRing': 'LinearRing', 'OGRMultiPoint': 'MultiPoint',
           'OGRMultiLineString': 'MultiLineString', 'OGRPolygon': 'Cell', 'OGRMultiPolygon': 'Cells', 'OGRPoint': 'Point',
           'OGRGeometry': 'geo', 'OGRCurve': 'geo', 'OGRSimpleCurve': 'geo'}
GEO_ALL = GEO_PTS + tuple(GEO_KIDS)


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_NS = re.compile(r'\b(?:std::__cxx11::|std::|f2c::types::|types::|f2c::(?:rp|pp|sg|hg|obj|decomp)::|f2c::|__gnu_cxx::|operations_research::|steer::)')
_pcache = {}
ENUMS = set()
KNOWN_RECS = set()


def parse_type(s):
    r = _pcache.get(s)
    if r is None:
        r = _pcache[s] = _parse(s)
    return r


def strip_type(s):
    s = s.strip()
    while True:
        o = s
        s = re.sub(r'^(const|volatile|struct|class|enum|typename)\s+', '', s)
        s = re.sub(r'\s*(&&|&|\bconst)$', '', s).strip()
        if s == o:
            return s


# the library class that each base class Geometry<OGR type, ...> belongs to
OGR_CLASS = {'OGRPolygon': 'Cell', 'OGRMultiPolygon': 'Cells', 'OGRLineString': 'LineString', 'OGRLinearRing': 'LinearRing',
             'OGRMultiLineString': 'MultiLineString', 'OGRMultiPoint': 'MultiPoint'}


def _parse(s):
    s0 = s
    s = strip_type(s)
    if s.endswith('*') or s.endswith('*const'):
        p = _parse(re.sub(r'\*\s*(const)?$', '', s).strip())
        return T('ptr', p.name or p.kind)
    s = _NS.sub('', s)
    s = strip_type(s)
    m = re.match(r'^F2C(\w+)$', s)
    if m:
        s = m.group(1)
    if s in BASIC:
        return BASIC[s]
    if s in ENUMS or s.split('::')[-1] in ENUMS:
        return INT
    m = re.match(r'^([\w:]+)<(.*)>(::[\w:]+)?$', s, re.S)
    if m:
        name, args, tail = m.group(1), split_targs(m.group(2)), m.group(3)
        if tail in ('::value_type',):
            return _parse(args[0])
        if tail in ('::size_type',):
            return SIZE
        if tail in ('::difference_type',):
            return LONG
        if tail in ('::iterator', '::const_iterator'):
            return T('iter')
        if name in ('vector', 'initializer_list', 'deque'):
            return T('vec', None, (_parse(args[0]),))
        if name in ('unordered_map', 'map'):
            return T('map', None, (_parse(args[0]), _parse(args[1])))
        if name == 'Geometry' and args and args[0].strip() in OGR_CLASS:
            return _parse(OGR_CLASS[args[0].strip()])
        if name in ('optional',):
            return T('opt', None, (_parse(args[0]),))
        if name == 'pair':
            a = (_parse(args[0]), _parse(args[1]))
            return T('rec', 'pair', a)
        if name in ('shared_ptr', 'unique_ptr'):
            p = _parse(args[0])
            return T('ptr', p.name or p.kind)
        if name in ('__normal_iterator', 'reverse_iterator', '_Node_iterator', '_Node_const_iterator',
                    '_Rb_tree_iterator', '__detail::_Node_iterator'):
            return T('iter')
        if name in ('basic_string',):
            return STR
        if name == 'set' or name == 'unordered_set':
            return T('map', None, (_parse(args[0]), BOOL))
        return T('opaque', s)
    if s == 'OGRPoint':
        return POINT
    if s in OGR2GEO:
        return T('opaque', s)
    if '(' in s:
        return T('opaque', 'fn')
    if s in KNOWN_RECS:
        return T('rec', s)
    if s.split('::')[-1] in KNOWN_RECS and '<' not in s:
        return T('rec', s.split('::')[-1])
    return T('opaque', s)


# ------------------------------------------------------------------ values
class V(object):
    pass


class Sc(V):
    __slots__ = ('t', 'z')

    def __init__(self, t, z):
        self.t, self.z = t, z

    def __repr__(self):
        return 'Sc(%s)' % self.z


class Rec(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __repr__(self):
        return 'Rec %s{%s}' % (self.t.name, ', '.join(self.f))


class Vec(V):
    __slots__ = ('t', 'arr', 'n')

    def __init__(self, t, arr, n):
        self.t, self.arr, self.n = t, arr, n


class Map(V):
    __slots__ = ('t', 'dom', 'val', 'n')

    def __init__(self, t, dom, val, n):
        self.t, self.dom, self.val, self.n = t, dom, val, n


class Opt(V):
    __slots__ = ('t', 'has', 'v')

    def __init__(self, t, has, v):
        self.t, self.has, self.v = t, has, v


class LocPtr(V):
    """pointer to a location (this, .get() of a Point, &x)"""
    __slots__ = ('t', 'loc')

    def __init__(self, loc):
        self.t = T('ptr', 'loc')
        self.loc = loc


class It(V):
    """iterator: container location + index term; rev = reverse iterator"""
    __slots__ = ('t', 'loc', 'i', 'rev', 'key')

    def __init__(self, loc, i, rev=False, key=None):
        self.t = T('iter')
        self.loc, self.i, self.rev, self.key = loc, i, rev, key


class GIt(It):
    """iterator over the members of a geometry: location of its content"""
    __slots__ = ('geo',)

    def __init__(self, loc, i, geo):
        It.__init__(self, loc, i)
        self.geo = geo


class Lam(V):
    def __init__(self, params, body, env, this, node):
        self.t = T('opaque', 'lambda')
        self.params, self.body, self.env, self.this, self.node = params, body, env, this, node


class BackIns(V):
    def __init__(self, loc):
        self.t = T('opaque', 'back_inserter')
        self.loc = loc


class IL(V):
    """braced initialiser list"""
    def __init__(self, vs):
        self.t = T('opaque', 'il')
        self.vs = vs


class Opq(V):
    __slots__ = ('t', 'z')

    def __init__(self, t, z=None):
        self.t, self.z = t, z


class Void(V):
    t = VOID


class Loc(object):
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def fld(self, f):
        return Loc(self.root, self.path + (('f', f),))

    def idx(self, i):
        return Loc(self.root, self.path + (('i', i),))

    def key(self, k):
        return Loc(self.root, self.path + (('k', k),))

    def optv(self):
        return Loc(self.root, self.path + (('o', None),))

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.root, self.path)


# ------------------------------------------------------------------ sorts
StrSort = z3.DeclareSort('Str')
OpqSort = z3.DeclareSort('Opq')
_sorts = {}
REC_FIELDS = {'Point': [('x', REAL), ('y', REAL), ('z', REAL)],
              'OGREnvelope': [('MinX', REAL), ('MaxX', REAL), ('MinY', REAL), ('MaxY', REAL)]}
for g in GEO_ALL:
    REC_FIELDS[g] = [('data_', T('ptr', g))]
KNOWN_RECS.update(REC_FIELDS)


def rec_fields(t):
    if t.name == 'pair':
        return [('first', t.args[0]), ('second', t.args[1])]
    if t.name not in REC_FIELDS:
        raise Unsupported('no fields known for ' + str(t))
    return REC_FIELDS[t.name]


def sort_of(t):
    s = _sorts.get(t)
    if s is not None:
        return s
    k = t.kind
    if k == 'int' or k == 'ptr':
        s = z3.IntSort()
    elif k == 'real':
        s = z3.RealSort()
    elif k == 'bool':
        s = z3.BoolSort()
    elif k == 'str':
        s = StrSort
    elif k == 'rec':
        d = z3.Datatype('R_' + t.key())
        fs = rec_fields(t)
        d.declare('mk_' + t.key(), *[('%s_%s' % (t.key(), f), sort_of(ft)) for f, ft in fs] or [('%s_unit' % t.key(), z3.BoolSort())])
        s = d.create()
    elif k == 'vec':
        d = z3.Datatype('V_' + t.e.key())
        d.declare('mkv_' + t.e.key(), ('arr_' + t.e.key(), z3.ArraySort(z3.IntSort(), sort_of(t.e))), ('len_' + t.e.key(), z3.IntSort()))
        s = d.create()
    elif k == 'map':
        kk = t.args[0].key() + '_' + t.args[1].key()
        d = z3.Datatype('M_' + kk)
        d.declare('mkm_' + kk, ('dom_' + kk, z3.ArraySort(sort_of(t.args[0]), z3.BoolSort())),
                  ('val_' + kk, z3.ArraySort(sort_of(t.args[0]), sort_of(t.args[1]))), ('msz_' + kk, z3.IntSort()))
        s = d.create()
    elif k == 'opt':
        d = z3.Datatype('O_' + t.e.key())
        d.declare('mko_' + t.e.key(), ('has_' + t.e.key(), z3.BoolSort()), ('oval_' + t.e.key(), sort_of(t.e)))
        s = d.create()
    else:
        s = OpqSort
    # one sort per structural key
    _sorts[t] = s
    return s


_bykey = {}
_orig_sort_of = sort_of


def sort_of(t):  # noqa: structural sharing: types differing only in int width share a sort
    if t in _sorts:
        return _sorts[t]
    k = t.key()
    if k in _bykey:
        _sorts[t] = _bykey[k]
        return _bykey[k]
    s = _orig_sort_of(t)
    _bykey[k] = s
    return s


def acc(s, i, term):
    """accessor i of datatype sort s applied to term, folding constructor applications"""
    if z3.is_app(term) and term.decl().eq(s.constructor(0)):
        return term.arg(i)
    return s.accessor(0, i)(term)


def unpack(t, z):
    k = t.kind
    if k in ('int', 'real', 'bool', 'str', 'ptr'):
        return Sc(t, z)
    s = sort_of(t)
    if k == 'rec':
        return Rec(t, {f: unpack(ft, acc(s, i, z)) for i, (f, ft) in enumerate(rec_fields(t))})
    if k == 'vec':
        return Vec(t, acc(s, 0, z), acc(s, 1, z))
    if k == 'map':
        return Map(t, acc(s, 0, z), acc(s, 1, z), acc(s, 2, z))
    if k == 'opt':
        return Opt(t, acc(s, 0, z), unpack(t.e, acc(s, 1, z)))
    return Opq(t, z)


_dum = [0]


def pack(v, t=None):
    if isinstance(v, Sc):
        return v.z
    t = t or v.t
    if isinstance(v, Opq):
        if v.z is None:
            _dum[0] += 1
            return z3.Const('opq!%d' % _dum[0], OpqSort)
        return v.z
    if isinstance(v, (Lam, It, LocPtr, BackIns, IL)):
        raise Unsupported('cannot store %s in a data structure' % type(v).__name__)
    s = sort_of(v.t)
    c = s.constructor(0)
    if isinstance(v, Rec):
        fs = rec_fields(v.t)
        return _eta(s, c(*[pack(v.f[f]) for f, _ in fs])) if fs else c(z3.BoolVal(True))
    if isinstance(v, Vec):
        z = c(v.arr, v.n)
    elif isinstance(v, Map):
        z = c(v.dom, v.val, v.n)
    elif isinstance(v, Opt):
        z = c(v.has, pack(v.v))
    else:
        raise Unsupported('pack %r' % (v,))
    # collapse mk(acc0(x), acc1(x)) to x
    return _eta(s, z)


def _eta(s, z):
    a0 = z.arg(0)
    if z3.is_app(a0) and a0.num_args() == 1 and a0.decl().eq(s.accessor(0, 0)):
        x = a0.arg(0)
        for i in range(1, z.num_args()):
            ai = z.arg(i)
            if not (z3.is_app(ai) and ai.num_args() == 1 and ai.decl().eq(s.accessor(0, i)) and ai.arg(0).eq(x)):
                return z
        return x
    return z


def veq(a, b):
    """mathematical equality of two values (vectors: pointwise on their range)"""
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.arr.eq(b.arr) and a.n.eq(b.n):
            return z3.BoolVal(True)
        i = z3.Int('veq_i')
        ea, eb = unpack(a.t.e, a.arr[i]), unpack(b.t.e, b.arr[i])
        return z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.n), veq(ea, eb)), patterns=[a.arr[i], b.arr[i]] if not a.arr.eq(b.arr) else [a.arr[i]]))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return z3.And([veq(a.f[f], b.f[f]) for f in a.f] or [z3.BoolVal(True)])
    if isinstance(a, Opt) and isinstance(b, Opt):
        return z3.And(a.has == b.has, z3.Implies(a.has, veq(a.v, b.v)))
    if isinstance(a, Map) and isinstance(b, Map):
        if a.dom.eq(b.dom) and a.val.eq(b.val):
            return z3.BoolVal(True)
        k = z3.Const('veq_k', sort_of(a.t.args[0]))
        return z3.ForAll([k], z3.And(a.dom[k] == b.dom[k],
                                     z3.Implies(a.dom[k], veq(unpack(a.t.args[1], a.val[k]), unpack(b.t.args[1], b.val[k])))))
    return pack(a) == pack(b)
