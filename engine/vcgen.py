"""Deductive verifier over LLVM IR extracted from the real brille sources.

Forward symbolic execution generates one verification condition per
vf_check / memory access / loop invariant obligation of each path through a
contract entry point; callees are executed at the level of their own IR (so a
property is proved of the code that runs, whatever its shape), loops whose
trip count is concrete are executed exactly, loops with a symbolic trip count
are cut by loop invariants (inferred Houdini-style from templates), and the
conditions are discharged by a polynomial normaliser, z3 or cvc5.
"""
import math
import sys, json, time, re, os, itertools
from fractions import Fraction
import z3
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class PathEnd(Exception): pass
class NeedInvariant(Exception):
    def __init__(self, key): self.key = key
class Budget(Exception): pass

RNE = z3.RNE()
F64 = z3.Float64()

# ------------------------------------------------------------------ values
class SI:
    """symbolic integer: value == t (mod 2^w), lo <= t <= hi on this path"""
    __slots__ = ('t', 'lo', 'hi', 'w', 'b')
    def __init__(s, t, lo, hi, w, b=None): s.t = t; s.lo = lo; s.hi = hi; s.w = w; s.b = b
    def __repr__(s): return f'SI<{s.w}>({s.t})'
class Ptr:
    __slots__ = ('r', 'o')
    def __init__(s, r, o): s.r = r; s.o = o
    def __repr__(s): return f'Ptr({s.r},{s.o})'
NULL = Ptr(None, 0)
class Fn:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
class PI:
    """ptrtoint of a pointer"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
class Packed:
    __slots__ = ('c', 'z')
    def __init__(s, c, z): s.c = c; s.z = z
class Bits:
    """a word of which the bits in m are known to be those of v; the others are
    unspecified (uninitialised memory)"""
    __slots__ = ('w', 'm', 'v', 'h')
    def __init__(s, w, m, v): s.w = w; s.m = m; s.v = v & m; s.h = None
    @staticmethod
    def of(x, w):
        if isinstance(x, Undef): return Bits(w, 0, 0)
        if isinstance(x, int): return Bits(w, (1 << w) - 1, x)
        return x if isinstance(x, Bits) else None
    @staticmethod
    def op(o, a, b):
        if o == 'and': m = (a.m & b.m) | (a.m & ~a.v) | (b.m & ~b.v); v = a.v & b.v
        elif o == 'or': m = (a.m & b.m) | a.v | b.v; v = a.v | b.v
        else: m = a.m & b.m; v = a.v ^ b.v
        full = (1 << a.w) - 1
        return (v & full) if m & full == full else Bits(a.w, m & full, v)
class Undef:
    __slots__ = ('ty',)
    def __init__(s, ty): s.ty = ty

def tsize(ty):
    if isinstance(ty, str):
        if ty[0] == 'i': return max(1, (int(ty[1:]) + 7) // 8)
        return {'p': 8, 'd': 8, 'f': 4, 'x': 16}[ty]
    if 's' in ty: return ty['z']
    return ty['a'][0] * ty['a'][2]

class Region:
    __slots__ = ('id', 'size', 'cells', 'zero', 'arr', 'owner', 'kind', 'freed', 'name')
    def __init__(s, id, size, kind, owner, name=''):
        s.id = id; s.size = size; s.cells = {}; s.zero = []; s.arr = None; s.owner = owner; s.kind = kind; s.freed = False; s.name = name
    def clone(s, owner):
        r = Region(s.id, s.size, s.kind, owner, s.name)
        r.cells = dict(s.cells); r.zero = list(s.zero); r.freed = s.freed
        if s.arr is not None: r.arr = (s.arr[0], dict(s.arr[1]))
        return r

class Frame:
    __slots__ = ('f', 'env', 'b', 'pb', 'i', 'allocas', 'retv', 'kind', 'nrm', 'visits', 'extra')
    def __init__(s, f): s.f = f; s.env = {}; s.b = 0; s.pb = -1; s.i = 0; s.allocas = []; s.retv = None; s.kind = 'call'; s.nrm = None; s.visits = {}; s.extra = None
    def clone(s):
        n = Frame(s.f); n.env = dict(s.env); n.b = s.b; n.pb = s.pb; n.i = s.i; n.allocas = list(s.allocas); n.retv = s.retv; n.kind = s.kind; n.nrm = s.nrm; n.visits = dict(s.visits); n.extra = s.extra
        return n

class State:
    _n = 0
    def __init__(s):
        State._n += 1; s.id = State._n
        s.frames = []; s.mem = {}; s.pcs = []; s.spec = 0; s.known = {}; s.invs = []; s.writes = None; s.steps = 0; s.done = None; s.final = None; s.retval = None; s.pend = False
    def fork(s):
        n = State()
        n.frames = [f.clone() for f in s.frames]; n.mem = dict(s.mem); n.pcs = list(s.pcs); n.spec = s.spec; n.known = dict(s.known); n.invs = list(s.invs); n.writes = s.writes; n.steps = s.steps; n.final = s.final; n.retval = s.retval; n.pend = s.pend
        State._n += 1; s.id = State._n
        return n

# ------------------------------------------------------------ polynomials
class NotPoly(Exception): pass
class Poly:
    """normal forms over Q[atoms]; rational functions as (num, den) pairs"""
    def __init__(s, limit=60000): s.atoms = {}; s.cache = {}; s.limit = limit; s.dens = {}; s.rules = {}; s.rrules = []; s.used = set(); s.fids = {}; s.fpoly = {}; s.subst = {}
    def atom(s, e):
        k = e.get_id()
        if k not in s.atoms: s.atoms[k] = e
        return {((k, 1),): Fraction(1)}
    @staticmethod
    def add(a, b, m=1):
        r = dict(a)
        for k, v in b.items():
            x = r.get(k, 0) + m * v
            if x == 0: r.pop(k, None)
            else: r[k] = x
        return r
    def mul(s, a, b):
        if len(a) * len(b) > s.limit: raise NotPoly('big')
        r = {}
        for ka, va in a.items():
            for kb, vb in b.items():
                if not ka: k = kb
                elif not kb: k = ka
                else:
                    d = dict(ka)
                    for x, e in kb: d[x] = d.get(x, 0) + e
                    k = tuple(sorted(d.items()))
                x = r.get(k, 0) + va * vb
                if x == 0: r.pop(k, None)
                else: r[k] = x
        return s.reduce(r)
    def reduce(s, p):
        if not s.rules: return p
        ch = True
        while ch:
            ch = False
            for k in list(p):
                for x, e in k:
                    if e >= 2 and x in s.rules:
                        s.used.add(x); v = p.pop(k)
                        rest = tuple((y, f) if y != x else (y, f - 2) for y, f in k if y != x or f > 2)
                        p = s.add(p, s.mulraw({rest: v}, s.rules[x])); ch = True
                        break
                if ch: break
        return p
    def rreduce(s, p):
        """replace s^2 by num/den (later roots first), clearing the denominators"""
        for x, n, d in reversed(s.rrules):
            if not p: break
            by = {}
            for k, v in p.items():
                e = dict(k).get(x, 0); rest = tuple((y, f) for y, f in k if y != x); by.setdefault(e, {})[rest] = v
            K = max(by) // 2
            if not K: continue
            s.used.add(x)
            pw = lambda b, m: s.ONE if m == 0 else s.mul(b, pw(b, m - 1))
            r = {}
            for e, c in by.items():
                t = s.mul(s.mul(c, pw(n, e // 2)), pw(d, K - e // 2))
                if e % 2: t = s.mul(t, {((x, 1),): Fraction(1)})
                r = s.add(r, t)
            p = r
        return p
    def mulraw(s, a, b):
        r = {}
        for ka, va in a.items():
            for kb, vb in b.items():
                d = dict(ka)
                for x, e in kb: d[x] = d.get(x, 0) + e
                k = tuple(sorted(d.items())); x = r.get(k, 0) + va * vb
                if x == 0: r.pop(k, None)
                else: r[k] = x
        return r
    ONE = {(): Fraction(1)}
    # a denominator is a tuple of (factor, exponent); () is one
    def factor(s, p, e=1):
        """(scalar, denominator) of the polynomial p to the power e"""
        lead = max(p, key=lambda k: (sum(x for _, x in k), k)); c = p[lead]; d = {}
        ks = [dict(k) for k in p]
        for a in list(ks[0]):
            m = min(k.get(a, 0) for k in ks)
            if m: d[('a', a)] = m * e
        if len(p) > 1:
            q = {}
            for k, v in p.items():
                k2 = tuple((a, x - d.get(('a', a), 0) // e) for a, x in k if x > d.get(('a', a), 0) // e); q[k2] = v / c
            key = tuple(sorted(q.items()))
            if key not in s.fids: s.fids[key] = len(s.fids); s.fpoly[s.fids[key]] = q
            f = ('p', s.fids[key]); d[f] = d.get(f, 0) + e
        for f in [f for f in d if f[0] == 'a' and f[1] in s.rules and d[f] >= 2]: # 1/s^2 for a root s of a polynomial
            m, r = divmod(d[f], 2)
            if not s.rules[f[1]]: raise NotPoly('div0')
            if () in s.rules[f[1]] and len(s.rules[f[1]]) == 1: continue
            s.used.add(f[1]); c2, d2 = s.factor(s.rules[f[1]], m); c = c * c2
            if r: d[f] = r
            else: del d[f]
            for g, x in d2: d[g] = d.get(g, 0) + x
        return (c if e == 1 else c ** e if not isinstance(c, int) else Fraction(c) ** e), tuple(sorted(d.items()))
    def fp(s, f): return {((f[1], 1),): Fraction(1)} if f[0] == 'a' else s.fpoly[f[1]]
    def dmul(s, a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for f, e in b: d[f] = d.get(f, 0) + e
        return tuple(sorted(d.items()))
    def dpoly(s, d):
        r = s.ONE
        for f, e in d:
            for _ in range(e): r = s.mul(r, s.fp(f))
        return r
    def cross(s, n1, d1, n2, d2, sg):
        """n1/d1 + sg n2/d2 over the least common denominator"""
        if d1 == d2: return s.add(n1, n2, sg), d1
        a, b = dict(d1), dict(d2); l = dict(a)
        for f, e in b.items(): l[f] = max(l.get(f, 0), e)
        m1 = tuple((f, e - a.get(f, 0)) for f, e in l.items() if e > a.get(f, 0)); m2 = tuple((f, e - b.get(f, 0)) for f, e in l.items() if e > b.get(f, 0))
        if m1: n1 = s.mul(n1, s.dpoly(m1))
        if m2: n2 = s.mul(n2, s.dpoly(m2))
        return s.cancel(s.add(n1, n2, sg), tuple(sorted(l.items())))
    def divide(s, p, q):
        """p / q when exact (as plain polynomials), else None"""
        if len(p) * len(q) > 4000: return None
        order = lambda k: (sum(x for _, x in k), k); lead = max(q, key=order); out = {}; p = dict(p); n = 0
        while p:
            k = max(p, key=order); d = dict(k); n += 1
            if n > 500: return None
            for a, e in lead:
                x = d.get(a, 0) - e
                if x < 0: return None
                d[a] = x
            m = tuple(sorted((a, e) for a, e in d.items() if e)); c = p[k] / q[lead]; out[m] = c; p = s.add(p, s.mulraw({m: c}, q), -1)
        return out
    def cancel(s, n, d):
        if not n: return n, ()
        if not d: return n, d
        o = []
        for f, e in d:
            if f[0] == 'a':
                m = min(e, min(dict(k).get(f[1], 0) for k in n))
                if m: n = {tuple((a, x - m if a == f[1] else x) for a, x in k if a != f[1] or x > m): v for k, v in n.items()}; e -= m
            else:
                while e:
                    q = s.divide(n, s.fpoly[f[1]])
                    if q is None: break
                    n = q; e -= 1
            if e: o.append((f, e))
        return n, tuple(o)
    def norm(s, e):
        k = e.get_id()
        if k in s.cache: return s.cache[k][1]
        r = s._norm(e); s.cache[k] = (e, r); return r
    def _norm(s, e):
        if z3.is_int_value(e): v = Fraction(e.as_long()); return ({(): v} if v else {}, ())
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long()); return ({(): v} if v else {}, ())
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            c = e.children(); n, d = s.norm(c[0])
            for x in c[1:]:
                n2, d2 = s.norm(x); n, d = s.cross(n, d, n2, d2, 1 if k == z3.Z3_OP_ADD else -1)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = s.norm(e.arg(0)); return s.add({}, n, -1), d
        if k == z3.Z3_OP_MUL:
            n, d = s.ONE, ()
            for x in e.children():
                n2, d2 = s.norm(x); n, d2 = s.cancel(n, d2); n2, d = s.cancel(n2, d); n = s.mul(n, n2); d = s.dmul(d, d2)
                if d: n, d = s.refine(n, d)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = s.norm(e.arg(0)); n2, d2 = s.norm(e.arg(1))
            if not n2: raise NotPoly('div0')
            if not (len(n2) == 1 and () in n2): s.dens[e.arg(1).get_id()] = e.arg(1)
            c, f = s.factor(n2); n = {m: v / c for m, v in n.items()}
            n, f = s.cancel(n, f)
            if d2:
                # multiply by the denominator of the divisor, first against what is below
                df = dict(f); dd = dict(d); up = []
                for g, x in d2:
                    for t in (df, dd):
                        m = min(x, t.get(g, 0)); x -= m
                        if m: t[g] -= m
                    if x: up.append((g, x))
                f = tuple(sorted((g, x) for g, x in df.items() if x)); d = tuple(sorted((g, x) for g, x in dd.items() if x))
                if up: n = s.mul(n, s.dpoly(tuple(up)))
            return s.refine(n, s.dmul(d, f))
        if k == z3.Z3_OP_TO_REAL: return s.norm(e.arg(0))
        if k == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and 0 <= e.arg(1).as_long() <= 8:
            n, d = s.norm(e.arg(0)); rn, rd = s.ONE, ()
            for _ in range(e.arg(1).as_long()): rn = s.mul(rn, n); rd = s.dmul(rd, d)
            return s.refine(rn, rd)
        if e.get_id() in s.subst: s.used.add(e.get_id()); return s.subst[e.get_id()]
        return s.atom(e), ()
    def refine(s, n, d):
        """roots below: 1/s^2 = 1/p for a root s of the polynomial p; then cancel"""
        for f, e in d:
            if e >= 2 and f[0] == 'a' and f[1] in s.rules and s.rules[f[1]] and not (() in s.rules[f[1]] and len(s.rules[f[1]]) == 1):
                m, r = divmod(e, 2); s.used.add(f[1]); c, d2 = s.factor(s.rules[f[1]], m)
                d = s.dmul(tuple((g, x if g != f else r) for g, x in d if g != f or r), d2); n = {k: v / c for k, v in n.items()}
                return s.refine(n, d)
        return s.cancel(n, d)

def bool_t(x):
    if isinstance(x, int): return z3.BoolVal(bool(x))
    return x

# ----------------------------------------------------------------- program
class Func:
    pass

class Program:
    def __init__(self, js):
        d = json.load(open(js)) if isinstance(js, str) else js
        self.fn = {}; self.gl = {}; self.dem = {}
        for f in d['functions']:
            o = Func(); o.name = f['name']; o.dem = f['dem']; o.args = f['args']; o.ret = f['ret']; o.blocks = f['blocks']; o.file = f.get('file', ''); o.line = f.get('line', 0)
            o.loops = None
            self.fn[o.name] = o; self.dem[o.name] = o.dem
        for g in d['globals']: self.gl[g['name']] = g; self.dem[g['name']] = g['dem']
        for n, m in d['decls']: self.dem[n] = m
        # globals which are initialised at run time, before main: name -> function
        self.dyn = {}
        for f in self.fn.values():
            if not f.name.startswith('__cxx_global_var_init'): continue
            for b in f.blocks:
                for ins in b:
                    if ins[0] == 'call' and isinstance(ins[3], str) and (ins[3].startswith('llvm.invariant') or ins[3] == '__cxa_atexit'): continue
                    def walk(x):
                        if isinstance(x, list):
                            if len(x) == 3 and x[0] == 'g' and isinstance(x[1], str): self.dyn.setdefault(x[1], f.name)
                            else:
                                for y in x: walk(y)
                    if ins[0] in ('store', 'call', 'invoke'): walk(ins)
    def loops(self, f):
        """natural loops: header -> (set of blocks)"""
        if f.loops is not None: return f.loops
        n = len(f.blocks); succ = [[] for _ in range(n)]
        for b, ins in enumerate(f.blocks):
            t = ins[-1]; op = t[0]
            if op == 'br': succ[b] = [t[4]] if t[3] is None else [t[4], t[5]]
            elif op == 'switch': succ[b] = [t[4]] + [c[1] for c in t[5]]
            elif op == 'invoke': succ[b] = [t[6], t[7]]
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]: pred[s].append(b)
        # dominators
        order = []; seen = set()
        def dfs(u):
            st = [(u, iter(succ[u]))]; seen.add(u)
            while st:
                v, it = st[-1]
                for w in it:
                    if w not in seen: seen.add(w); st.append((w, iter(succ[w]))); break
                else: order.append(v); st.pop()
        dfs(0); rpo = order[::-1]
        dom = {b: None for b in rpo}; dom[0] = {0}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
                if not ps: continue
                nd = set.intersection(*ps) | {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        L = {}
        for b in rpo:
            for s in succ[b]:
                if s in (dom[b] or ()):
                    body = L.setdefault(s, {s}); st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(pred[x])
        f.loops = L
        return L

NOOP = re.compile(r'^(std::(__cxx11::)?(basic_string|basic_ostringstream|basic_stringstream|basic_ostream|basic_istream|basic_ios|ios_base|locale|basic_stringbuf|to_string|__cxx11::to_string)|std::ostream|std::basic_ostream|std::__ostream|'
    r'(std::)?(runtime_error|logic_error|invalid_argument|out_of_range|domain_error|length_error|overflow_error|range_error|exception|bad_alloc)::|Logger::|std::endl|std::flush|std::setw|std::setprecision|std::setfill|std::operator<<|std::operator>>|brille::(my_)?to_string)')
NOOP2 = re.compile(r'(operator<<|std::operator\+(?!\(std::_Bit)|my_to_string|::to_string\b|Logger::|Stopwatch|std::__cxx11::basic_string)')
# with {"strings":1} (and -D_GLIBCXX_ASSERTIONS) std::string is executed; otherwise it only builds messages and is skipped
STRINGS = re.compile(r'(^|^std::|[ (<])(__cxx11::)?basic_string<|std::__cxx11::basic_string<|std::operator\+')

class Obl:
    __slots__ = ('label', 'status', 'backend', 'time', 'model', 'where', 'kind')
    def __init__(s, label, status, backend, t, model=None, where='', kind='ensures'): s.label = label; s.status = status; s.backend = backend; s.time = t; s.model = model; s.where = where; s.kind = kind

def integral(x):
    """the integer term equal to a real term built from integers by conversion, negation and choice, if it is one"""
    if z3.is_to_real(x): return x.arg(0)
    if z3.is_rational_value(x): return z3.IntVal(x.numerator_as_long()) if x.denominator_as_long() == 1 else None
    if z3.is_app_of(x, z3.Z3_OP_UMINUS): a = integral(x.arg(0)); return None if a is None else -a
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a = integral(x.arg(1)); b = None if a is None else integral(x.arg(2))
        return None if b is None else z3.If(x.arg(0), a, b)
    return None
class Engine:
    def __init__(self, prog, cfg=None):
        self.p = prog
        c = dict(unroll=80, maxsteps=3000000, maxpaths=20000, time=600, feas_to=400, prove_to=20000, real=True, bv=False, forksel=False, som=False, products=0, ctors=False, merge=[], may_throw=False, noop=[], stopfirst=3, strings=False)
        c.update(cfg or {}); self.cfg = c
        self.axids = {}; self.rid = 0; self.nfresh = 0; self.inputs = []; self.obls = []; self.sol = z3.Solver(); self.sol.set('timeout', c['feas_to']); self.solpcs = []
        self.funcs_used = set(); self.invset = set(); self.axioms_for = {}; self.assumed = {}; self.defs = {}; self.failed = []; self.nsw = set(); self.covers = {}; self.houdini = []
        self.merge_re = [re.compile(r) for r in c['merge']]
        self.noop_re = [re.compile(r) for r in c['noop']]
        self.contracts = {}
        self.t0 = time.time(); self.solver_time = 0.0
        self.sqrt_rules = {}
        self.prove_cache = {}
        self.keep = []
    # ---- helpers
    def fresh(self, name, sort):
        self.nfresh += 1; return z3.Const(f'{name}!{self.nfresh}', sort)
    def new_region(self, st, size, kind, name=''):
        self.rid += 1; r = Region(self.rid, size, kind, st.id, name); st.mem[r.id] = r; return r
    def reg(self, st, rid):
        r = st.mem.get(rid)
        if r is None: raise Unsupported('dangling region')
        return r
    def wreg(self, st, rid):
        r = self.reg(st, rid)
        if r.owner != st.id: r = r.clone(st.id); st.mem[rid] = r
        return r
    def note(self, st, k): self.assumed[k] = self.assumed.get(k, 0) + 1
    # ---- solver
    def sync(self, pcs):
        n = 0; m = min(len(pcs), len(self.solpcs))
        while n < m and pcs[n] is self.solpcs[n]: n += 1
        k = len(self.solpcs) - n
        if k: self.sol.pop(k); del self.solpcs[n:]
        for c in pcs[n:]: self.sol.push(); self.sol.add(c); self.solpcs.append(c)
    def feasible(self, st, c):
        if z3.is_false(c): return False
        if z3.is_true(c): return True
        self.sync(st.pcs); t = time.time()
        self.sol.push(); self.sol.add(c); r = self.sol.check(); self.sol.pop()
        self.solver_time += time.time() - t
        return r != z3.unsat
    def live_check(self, st):
        self.sync(st.pcs); return self.sol.check() != z3.unsat
    def quick(self, st, c):
        """provable under the path condition (short timeout)"""
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = c.get_id()
        if any(p.get_id() == i for p in st.pcs): return True
        return not self.feasible(st, z3.Not(c))
    def fact(self, st, t):
        """a definitional fact (true of fresh symbols), not a branch condition"""
        st.pcs.append(t); self.axids[t.get_id()] = t
    def split(self, tail):
        """(branch conditions, facts guarded by the conditions before them)"""
        cs = []; fs = []
        for c in tail:
            if c.get_id() in self.axids: 
                f = z3.Implies(z3.And(cs), c) if cs else c
                self.axids[f.get_id()] = f; fs.append(f)
            else: cs.append(c)
        return cs, fs
    def assume(self, st, c):
        if isinstance(c, int):
            if not c: raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        if z3.is_and(c):
            for x in c.children(): st.pcs.append(x)
        else: st.pcs.append(c)
    def const_under(self, st, y, k):
        """y == k follows syntactically from an equation in the path condition"""
        for c in reversed(st.pcs):
            if not z3.is_eq(c) or not z3.is_int(c.arg(0)): continue
            u, v = c.arg(0), c.arg(1)
            if z3.is_int_value(u): u, v = v, u
            if z3.is_int_value(v) and v.as_long() == k:
                if u.eq(y): return True
                P = Poly()
                try:
                    if not P.add(P.norm(u)[0], P.norm(y)[0], -1): return True
                except NotPoly: pass
        return False
    def roots(self, st):
        P = Poly()
        for sid, (s_e, arg) in self.sqrt_rules.items():
            P.atoms[s_e.get_id()] = s_e
            n, d = P.norm(arg)
            sub = self.root_product(st, P, n, d) if d else None
            if sub: P.subst[s_e.get_id()] = sub
            elif not d: P.rules[s_e.get_id()] = n
            else: P.rrules.append((s_e.get_id(), n, P.dpoly(d)))
        return P
    def root_product(self, st, P, n, d):
        """sqrt(n/d) as a product of powers of known roots, when it is one"""
        if not n: return None
        c, nf = P.factor(n); c = Fraction(c); ex = {}
        for f, e in nf: ex[f] = ex.get(f, 0) + e
        for f, e in d: ex[f] = ex.get(f, 0) - e
        rn, rd = [], []
        for f, e in ex.items():
            if not e: continue
            if f[0] == 'a':
                if e % 2: return None
                r = f[1]; e //= 2
            else:
                q = P.fpoly[f[1]]; lead = max(q, key=lambda k: (sum(x for _, x in k), k)); r = None
                for a, p in P.rules.items():
                    if len(p) == len(q) and lead in p and all(p.get(k) == v * p[lead] / q[lead] for k, v in q.items()): r = a; c = c * (q[lead] / p[lead]) ** e; break
                if r is None: return None
            x = P.atoms[r]
            if not self.quick(st, x > 0 if e < 0 else x >= 0): return None
            (rn if e > 0 else rd).append((r, abs(e)))
        if c <= 0: return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator: return None
        return {tuple(sorted(rn)): Fraction(a, b)}, tuple(sorted((('a', r), e) for r, e in rd))
    def nonzero(self, st, e):
        if z3.is_mul(e): return all(self.nonzero(st, x) for x in e.children())
        if z3.is_app_of(e, z3.Z3_OP_UMINUS): return self.nonzero(st, e.arg(0))
        if z3.is_div(e): return self.nonzero(st, e.arg(0)) and self.nonzero(st, e.arg(1))
        if z3.is_app_of(e, z3.Z3_OP_POWER): return self.nonzero(st, e.arg(0))
        return self.quick(st, e != 0)
    def poly_prove(self, st, goal):
        if not z3.is_eq(goal): return False
        a, b = goal.arg(0), goal.arg(1)
        if not z3.is_arith(a): return False
        try:
            P = self.roots(st)
            P.used = set(); P.cache = {}
            n1, d1 = P.norm(a); n2, d2 = P.norm(b)
            diff = P.cross(n1, d1, n2, d2, -1)[0]
            if diff and P.rrules: diff = P.rreduce(diff)
            if diff: return False
            for e in P.dens.values():
                if not self.nonzero(st, e): return False
            used = P.used
            for sid, (s_e, arg) in reversed(list(self.sqrt_rules.items())):
                if s_e.get_id() in used:
                    sub = P.subst.get(s_e.get_id())
                    if sub: P.used = {x for k in sub[0] for x, _ in k} | {f[1] for f, _ in sub[1]}
                    elif not self.quick(st, arg >= 0): return False
                    else: P.used = set()
                    P.cache = {}; P.norm(arg); used = used | P.used
            return True
        except NotPoly: return False
    def ideal_prove(self, st, goal):
        """division of a polynomial goal (p == 0, or p is an integer) by the
        polynomial equations of the path condition"""
        isint = z3.is_app_of(goal, z3.Z3_OP_IS_INT)
        if not isint and not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))): return False
        target = goal.arg(0)
        if not isint and z3.is_real(goal.arg(0)): # the simplifier writes is_int(x) as to_real(to_int(x)) == x
            for a, b in ((goal.arg(0), goal.arg(1)), (goal.arg(1), goal.arg(0))):
                if z3.is_to_real(a) and z3.is_app_of(a.arg(0), z3.Z3_OP_TO_INT) and a.arg(0).arg(0).eq(b): isint = True; target = b; break
        try:
            P = Poly(); rels = []
            def lead(p): return max(p, key=lambda k: (sum(e for _, e in k), k))
            for c in st.pcs:
                if z3.is_eq(c) and z3.is_arith(c.arg(0)):
                    try:
                        n1, d1 = P.norm(c.arg(0)); n2, d2 = P.norm(c.arg(1))
                        if not d1 and not d2:
                            p = P.add(n1, n2, -1)
                            if p and len(p) < 200:
                                k = lead(p)
                                if k: rels.append((k, p))
                    except NotPoly: pass
            if not rels: return False
            dens0 = len(P.dens)
            if isint: p, d = P.norm(target)
            else:
                n1, d1 = P.norm(goal.arg(0)); n2, d2 = P.norm(goal.arg(1)); d = ()
                p = P.cross(n1, d1, n2, d2, -1)[0]
            if d: return False
            for e in P.dens.values():
                if not self.nonzero(st, e): return False
            def divides(a, b):
                db = dict(b); return all(db.get(x, 0) >= e for x, e in a)
            rest = {}; steps = 0
            while p:
                k = lead(p); steps += 1
                if steps > 3000: return False
                for lk, r in rels:
                    if divides(lk, k):
                        q = dict(k)
                        for x, e in lk: q[x] -= e
                        q = tuple(sorted((x, e) for x, e in q.items() if e)); p = P.add(p, P.mulraw({q: p[k] / r[lk]}, r), -1); break
                else:
                    rest[k] = p.pop(k)
            if not isint: return not rest
            return all(v.denominator == 1 and all(z3.is_int(P.atoms[x]) for x, _ in k) for k, v in rest.items())
        except NotPoly: return False
    def prove(self, st, goal, label, where='', kind='ensures', record=True, to=None):
        t0 = time.time()
        if isinstance(goal, int): goal = z3.BoolVal(bool(goal))
        g = z3.simplify(goal) 
        def done(status, be, model=None):
            o = Obl(label, status, be, time.time() - t0, model, where, kind)
            if record:
                self.obls.append(o)
                if status != 'proved': self.failed.append(o)
            return o
        if z3.is_true(g): return done('proved', 'simplifier')
        conj = goal.children() if z3.is_and(goal) else None
        if conj and len(conj) > 1:
            worst = None
            for c in conj:
                o = self.prove(st, c, label, where, kind, False, to)
                if o.status != 'proved':
                    worst = o; break
            if worst is None: return done('proved', 'split')
            return done(worst.status, worst.backend, worst.model)
        if z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and self.poly_prove(st, goal): return done('proved', 'poly')
        if self.ideal_prove(st, goal): return done('proved', 'poly-ideal')
        key = (tuple(c.get_id() for c in st.pcs), g.get_id())
        if key in self.prove_cache: return done(*self.prove_cache[key][0])
        to = to or self.cfg['prove_to']
        status, be, model = self.smt(st.pcs, goal, to)
        self.prove_cache[key] = ((status, be, model), list(st.pcs), g)
        return done(status, be, model)
    def smt(self, pcs, goal, to):
        t = time.time(); status = 'unknown'; model = None; be = 'z3'
        pcs = self.relevant(pcs, goal)
        if self.abstracted(pcs, goal): 
            self.solver_time += time.time() - t; return 'proved', 'z3 (nonlinear terms abstracted)', None
        if self.cfg['products']:
            S = lambda c: z3.simplify(c, arith_lhs=True, som=True)
            fs = [self.decided(pcs, c) for c in pcs + [goal]]
            if self.abstracted([S(c) for c in fs[:-1]] + self.products(pcs, self.cfg['products']), S(fs[-1])):
                self.solver_time += time.time() - t; return 'proved', 'z3 (products of bounds)', None
        s = z3.Solver(); s.set('timeout', min(to, 4000))
        for c in pcs: s.add(c)
        s.add(z3.Not(goal)); r = s.check()
        if r == z3.unsat: status = 'proved'
        elif r == z3.sat: status = 'failed'; model = self.get_model(s.model())
        else:
            be = 'z3-nlsat'
            for tac in ('qfnra-nlsat', 'smt'):
                try:
                    s2 = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', tac), to).solver()
                    for c in pcs: s2.add(c)
                    s2.add(z3.Not(goal)); r = s2.check()
                except z3.Z3Exception: r = z3.unknown
                if r == z3.unsat: status = 'proved'; be = 'z3-' + tac; break
                if r == z3.sat:
                    status = 'failed'
                    try: model = self.get_model(s2.model())
                    except z3.Z3Exception: model = None
                    break
            if status == 'unknown':
                r = self.cvc5(pcs, goal, to)
                if r == 'unsat': status = 'proved'; be = 'cvc5'
        self.solver_time += time.time() - t
        return status, be, model
    def decided(self, pcs, x):
        """x with the choices already decided by bounds of variables resolved"""
        conds = {}; seen = set()
        def go(x):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE) and not any(z3.is_app_of(y, z3.Z3_OP_ITE) or z3.is_mul(y) and sum(not z3.is_rational_value(z) for z in y.children()) > 1 for y in x.arg(0).children()): conds[x.arg(0).get_id()] = x.arg(0)
            if z3.is_app(x):
                for y in x.children(): go(y)
        go(x); subs = []
        if not conds: return x
        s = z3.Solver(); s.set('timeout', 500)
        for c in pcs:
            a = c.arg(0) if z3.is_not(c) else c
            if (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a)) and (z3.is_rational_value(a.arg(0)) or z3.is_rational_value(a.arg(1))) and (a.arg(0).num_args() == 0 and a.arg(1).num_args() == 0): s.add(c)
        for c in conds.values():
            s.push(); s.add(z3.Not(c)); r = s.check(); s.pop()
            if r == z3.unsat: subs.append((c, z3.BoolVal(True))); continue
            s.push(); s.add(c); r = s.check(); s.pop()
            if r == z3.unsat: subs.append((c, z3.BoolVal(False)))
        return z3.simplify(z3.substitute(x, *subs), som=True) if subs else x
    def products(self, pcs, deg):
        """products of the bounds of different variables (each consequence of
        the path condition)"""
        import itertools
        fs = {}
        def atom(c):
            if z3.is_and(c):
                for x in c.children(): atom(x)
                return
            neg = z3.is_not(c); a = c.arg(0) if neg else c
            if not (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a)) or a.arg(0).sort() != z3.RealSort(): return
            x, y = a.arg(0), a.arg(1)
            if z3.is_rational_value(x): var, k = y, 1
            elif z3.is_rational_value(y): var, k = x, 0
            else: return
            if not (z3.is_const(var) and var.decl().kind() == z3.Z3_OP_UNINTERPRETED): return
            strict = (z3.is_lt(a) or z3.is_gt(a)) != neg
            up = (z3.is_ge(a) or z3.is_gt(a)) != neg       # left side not smaller
            fs.setdefault(var.get_id(), []).append((x - y if up else y - x, strict))
        for c in pcs: atom(z3.simplify(c, arith_lhs=True))
        out = []
        for d in range(2, deg + 1):
            for vs in itertools.combinations(sorted(fs), d):
                for ch in itertools.product(*[fs[v][-4:] for v in vs]):
                    p = ch[0][0]
                    for q in ch[1:]: p = p * q[0]
                    p = z3.simplify(p, som=True)
                    out.append(z3.simplify(p > 0 if all(q[1] for q in ch) else p >= 0, arith_lhs=True, som=True))
            if len(out) > 400: break
        return out
    def abstracted(self, pcs, goal):
        """try the goal with every nonlinear product replaced by a fresh
        variable (sound: a valid abstraction is valid)"""
        if not hasattr(self, '_abs'): self._abs = {}; self._absv = {}
        found = [False]
        def go(x):
            k = x.get_id()
            if k in self._abs: return self._abs[k][0]
            r = x
            if z3.is_quantifier(x): found[0] = found[0]; self._abs[k] = (x, x); return x
            if z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                if z3.is_mul(x) and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in ch) > 1 or z3.is_app_of(x, z3.Z3_OP_DIV) or z3.is_app_of(x, z3.Z3_OP_POWER) or z3.is_app_of(x, z3.Z3_OP_IDIV) or z3.is_app_of(x, z3.Z3_OP_MOD):
                    ch = sorted(ch, key=lambda c: c.get_id()) if z3.is_mul(x) else ch
                    kk = (x.decl().kind(),) + tuple(c.get_id() for c in ch)
                    if kk not in self._absv: self._absv[kk] = (self.fresh('nl', x.sort()), ch)
                    r = self._absv[kk][0]; self._nlseen = True
                elif any(not a.eq(b) for a, b in zip(ch, x.children())): r = x.decl()(*ch) if not (z3.is_and(x) or z3.is_or(x) or z3.is_add(x)) else (z3.And(ch) if z3.is_and(x) else z3.Or(ch) if z3.is_or(x) else z3.Sum(ch))
            self._abs[k] = (r, x); return r
        def nonlinear(x): 
            return not go(x).eq(x)
        try:
            S = lambda c: z3.simplify(c, arith_lhs=True)
            ps = [S(c) for c in pcs]; lits = []
            for c in ps:
                if z3.is_quantifier(c) or z3.is_and(c) or z3.is_or(c): continue
                lits.append((c.arg(0), z3.BoolVal(False)) if z3.is_not(c) else (c, z3.BoolVal(True)))
            ng = S(z3.Not(goal))
            if lits: ng = S(z3.substitute(ng, *lits))
            if z3.is_false(ng): return True
            fs = [go(c) for c in ps] + [go(ng)]
            if not self._absv: return False
            s = z3.Solver(); s.set('timeout', 2000)
            for f in fs: s.add(f)
            return s.check() == z3.unsat
        except z3.Z3Exception: return False
    def relevant(self, pcs, goal):
        return pcs
    def cvc5(self, pcs, goal, to):
        import subprocess, tempfile
        s = z3.Solver()
        for c in pcs: s.add(c)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
            r = subprocess.run(['cvc5', '--tlimit', str(to), f.name], capture_output=True, text=True, timeout=to / 1000 + 5)
            out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        except Exception: out = ''
        finally:
            try: os.unlink(f.name)
            except Exception: pass
        return out
    def get_model(self, m):
        out = {}
        for name, idx, v in self.inputs:
            try:
                x = m.eval(v, model_completion=True)
                if z3.is_int_value(x): out[f'{name}|{idx}'] = x.as_long()
                elif z3.is_bv_value(x): out[f'{name}|{idx}'] = x.as_signed_long()
                elif z3.is_rational_value(x): out[f'{name}|{idx}'] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                elif z3.is_algebraic_value(x): a = x.approx(20); out[f'{name}|{idx}'] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
                elif z3.is_true(x) or z3.is_false(x): out[f'{name}|{idx}'] = 1 if z3.is_true(x) else 0
                elif z3.is_fp(x):
                    s = z3.simplify(z3.fpToIEEEBV(x)); import struct
                    out[f'{name}|{idx}'] = struct.unpack('<d', struct.pack('<Q', s.as_long()))[0] if z3.is_bv_value(s) else float('nan')
                elif z3.is_array(x):
                    vals = []
                    for k in range(12):
                        y = m.eval(z3.Select(v, k), model_completion=True)
                        if z3.is_int_value(y): vals.append(y.as_long())
                        elif z3.is_rational_value(y): vals.append(float(Fraction(y.numerator_as_long(), y.denominator_as_long())))
                        else: vals.append(0)
                    out[f'{name}|arr'] = vals
            except Exception: pass
        return out
    # ---- ints
    def rng(self, st, v, signed):
        """canonical term (python int or z3 Int) of v in the (un)signed range"""
        w = v.w if isinstance(v, SI) else None
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if v.lo >= lo and v.hi <= hi: return v.t
        k = (v.t.get_id(), signed, w)
        if k in st.known: return st.known[k]
        if self.quick(st, z3.And(v.t >= lo, v.t <= hi)): r = v.t
        elif signed and v.lo >= 0 and v.hi < (1 << w): r = z3.If(v.t > hi, v.t - (1 << w), v.t)
        elif not signed and v.lo >= -(1 << w) and v.hi < (1 << w): r = z3.If(v.t < 0, v.t + (1 << w), v.t)
        elif signed: r = (v.t - lo) % (1 << w) + lo
        else: r = v.t % (1 << w)
        st.known[k] = r; self.keep.append(v.t)
        return r
    def sgn(self, st, v, w):
        if isinstance(v, int): v &= (1 << w) - 1; return v - (1 << w) if v >> (w - 1) else v
        return self.rng(st, v, True)
    def uns(self, st, v, w):
        if isinstance(v, int): return v & ((1 << w) - 1)
        return self.rng(st, v, False)
    def bounds(self, v, w, signed):
        if isinstance(v, int): return v, v
        return v.lo, v.hi
    def mk(self, t, lo, hi, w):
        if isinstance(t, int): return t & ((1 << w) - 1)
        if lo == hi: return lo & ((1 << w) - 1)
        return SI(t, lo, hi, w)
    def toint(self, st, v, w):
        """any integer-typed value -> python int (signed-ish for ring ops) or SI"""
        if isinstance(v, Undef): v = self.havoc(st, v.ty)
        if isinstance(v, Bits):
            if v.h is None: v.h = self.havoc(st, f'i{v.w}')
            elif isinstance(v.h, SI): st.pcs.append(z3.And(v.h.t >= 0, v.h.t < (1 << v.w)))
            v = v.h
        if isinstance(v, int):
            v &= (1 << w) - 1
            return v
        if isinstance(v, SI): return v
        if isinstance(v, z3.BoolRef): return SI(z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1, w, v)
        if isinstance(v, z3.BitVecRef): return v
        if isinstance(v, Packed):
            return self.unpack_int(st, v)
        if isinstance(v, PI):
            if v.p.r is None and isinstance(v.p.o, int): return v.p.o
            raise Unsupported('arithmetic on address')
        raise Unsupported(f'int value {type(v).__name__}')
    def unpack_int(self, st, v):
        acc = 0; t = 0; lo = hi = 0
        for off, sz, val, ty in v.c:
            if isinstance(ty, str) and ty[0] != 'i': raise Unsupported('packed float as int')
            x = self.uns(st, self.toint(st, val, sz * 8), sz * 8)
            if isinstance(x, int): acc += x << (8 * off)
            else: t = t + x * (1 << (8 * off)); hi += ((1 << (8 * sz)) - 1) << (8 * off)
        if isinstance(t, int): return acc
        return SI(t + acc, acc, hi + acc, v.z * 8)
    def asbool(self, st, v):
        if isinstance(v, Undef): v = self.havoc(st, v.ty)
        if isinstance(v, int): return v & 1
        if isinstance(v, z3.BoolRef): return v
        if isinstance(v, SI):
            if v.b is not None: return v.b
            return z3.simplify(self.uns(st, v, v.w) % 2 == 1)
        if isinstance(v, z3.BitVecRef): return z3.Extract(0, 0, v) == 1
        raise Unsupported('bool')
    def havoc(self, st, ty, name='h', signed=None):
        if isinstance(ty, str):
            if ty == 'i1': return self.fresh(name, z3.BoolSort())
            if ty[0] == 'i':
                w = int(ty[1:])
                if self.cfg['bv']: return self.fresh(name, z3.BitVecSort(w))
                t = self.fresh(name, z3.IntSort())
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                st.pcs.append(z3.And(t >= lo, t <= hi))
                return SI(t, lo, hi, w)
            if ty in ('d', 'f', 'x'):
                return self.fresh(name, z3.RealSort() if self.cfg['real'] else F64)
            if ty == 'p': return Ptr('?', 0)
        if 's' in ty: return [self.havoc(st, t) for _, t in ty['s']]
        return [self.havoc(st, ty['a'][1]) for _ in range(ty['a'][0])]
    # ---- constants and operands
    def const(self, st, c):
        k = c[0]
        if k == 'i': return c[2]
        if k == 'f':
            s = c[1]
            if s.startswith('0x') or s.startswith('-0x'): f = float.fromhex(s)
            else:
                f = float(s)
                if c[2] == 'x': return Fraction(s) if f == f and abs(f) != float('inf') else f
            if self.cfg['real'] and f == f and f not in (float('inf'), float('-inf')): return Fraction(f)
            return f
        if k == 'pn': return NULL if c[1] == 0 else Ptr(None, c[1])
        if k == 'u': return Undef(c[1])
        if k == 'g': return Ptr(self.glob(st, c[1]), c[2])
        if k == 'fn': return Fn(c[1])
        if k == 'z': return self.zero(c[1])
        if k == 'agg': return [self.const(st, x) for x in c[2]]
        if k == 'pi': return PI(self.const(st, c[1]))
        raise Unsupported('constant ' + str(c)[:60])
    def zero(self, ty):
        if isinstance(ty, str):
            if ty[0] == 'i': return 0
            if ty == 'p': return NULL
            return Fraction(0) if self.cfg['real'] else 0.0
        if 's' in ty: return [self.zero(t) for _, t in ty['s']]
        return [self.zero(ty['a'][1]) for _ in range(ty['a'][0])]
    def glob(self, st, name):
        k = 'G:' + name
        if k in st.mem: return k
        g = self.p.gl.get(name)
        if g is None: raise Unsupported('global ' + name)
        r = Region(k, g['sz'], 'global', st.id, name); st.mem[k] = r
        if not g['const'] and not self.cfg['ctors'] and name in self.p.dyn and not self.initialising:
            v = self.dyn_value(name); self.store(st, Ptr(k, 0), v, g['ty']) ; return k
        # reference counting with and without atomic instructions has the same effect
        if name == '__libc_single_threaded': r.cells[0] = (1, 1, 'i8')
        if g['init'] is not None: self.init(st, r, 0, g['ty'], g['init'])
        return k
    initialising = False
    def dyn_value(self, name):
        """the value of a global number computed from others before main"""
        f = self.p.fn[self.p.dyn[name]]
        if len(f.blocks) != 1: raise Unsupported('global initialised at run time: ' + name)
        env = {}; out = None
        def val(x):
            if isinstance(x, int): return env[x]
            if x[0] == 'f': return Fraction(float.fromhex(x[1])) if x[1].lower().lstrip('-').startswith('0x') else Fraction(x[1])
            raise Unsupported('global initialised at run time: ' + name)
        for ins in f.blocks[0]:
            op = ins[0]
            if op == 'load' and ins[3][0] == 'g' and ins[3][2] == 0:
                n = ins[3][1]
                if n in self.p.dyn: env[ins[1]] = self.dyn_value(n)
                else: env[ins[1]] = val(self.p.gl[n]['init'])
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                a, b = val(ins[3][0]), val(ins[3][1]); env[ins[1]] = a + b if op == 'fadd' else a - b if op == 'fsub' else a * b if op == 'fmul' else a / b
            elif op == 'fneg': env[ins[1]] = -val(ins[3][0] if isinstance(ins[3], list) and ins[3] and isinstance(ins[3][0], list) else ins[3])
            elif op == 'fptrunc': env[ins[1]] = Fraction(float(val(ins[3])))
            elif op == 'fpext': env[ins[1]] = val(ins[3])
            elif op == 'call' and ins[3].startswith('llvm.invariant'): pass
            elif op == 'call' and len(ins[4]) == 1:
                m = re.search(r'(acos|sqrt|cos|sin|atan)[a-z]?$', ins[3])
                if not m: raise Unsupported('global initialised at run time: ' + name)
                env[ins[1]] = Fraction(getattr(math, m.group(1))(float(val(ins[4][0]))))
            elif op == 'store' and ins[4] == ['g', name, 0]: out = val(ins[3])
            elif op == 'ret': pass
            else: raise Unsupported('global initialised at run time: ' + name)
        if out is None: raise Unsupported('global initialised at run time: ' + name)
        return out
    def init(self, st, r, off, ty, c):
        if c[0] == 'z': r.zero.append((off, off + tsize(ty))); return
        if c[0] == 'u': return
        if c[0] == 'agg':
            if 's' in ty:
                for (o, t), x in zip(ty['s'], c[2]): self.init(st, r, off + o, t, x)
            else:
                for i, x in enumerate(c[2]): self.init(st, r, off + i * ty['a'][2], ty['a'][1], x)
            return
        r.cells[off] = (tsize(ty), self.const(st, c), ty)
    def op(self, st, fr, o):
        if o.__class__ is int: 
            v = fr.env[o]
            return v
        if o is None: return None
        return self.const(st, o)
    # ---- memory
    def off_add(self, st, o, c, terms):
        for (v, sc, ty) in terms:
            w = int(ty[1:])
            v = self.toint(st, v, w)
            if isinstance(v, z3.BitVecRef):
                v = SI(z3.BV2Int(v, True), -(1 << (w - 1)), (1 << (w - 1)) - 1, w)
            if isinstance(v, int): c += sc * self.sgn(st, v, w)
            else:
                if w == 64 : t = v.t if (v.lo >= -(1 << 63) and v.hi < (1 << 63)) else self.sgn(st, v, w)
                else: t = self.sgn(st, v, w)
                lo, hi = v.lo * sc, v.hi * sc
                x = SI(t * sc if sc != 1 else t, min(lo, hi), max(lo, hi), 64)
                o = x if isinstance(o, int) and o == 0 else (SI(o.t + x.t, o.lo + x.lo, o.hi + x.hi, 64) if isinstance(o, SI) else SI(x.t + o, x.lo + o, x.hi + o, 64))
        if isinstance(o, int): return o + c
        if c == 0: return o
        return SI(o.t + c, o.lo + c, o.hi + c, 64)
    def conc_off(self, st, o):
        if isinstance(o, int): return o
        t = z3.simplify(o.t)
        if z3.is_int_value(t): return t.as_long()
        return o
    def linear(self, t):
        """t (z3 int) -> (const, [(coef, term)])"""
        t = z3.simplify(t, som=True); c = 0; ts = []
        parts = t.children() if z3.is_add(t) else [t]
        for p in parts:
            if z3.is_int_value(p): c += p.as_long()
            elif z3.is_mul(p) and z3.is_int_value(p.arg(0)):
                k = p.arg(0).as_long(); ch = p.children()[1:]
                ts.append((k, ch[0] if len(ch) == 1 else z3.Product(*ch)))
            else: ts.append((1, p))
        return c, ts
    def arr_index(self, st, r, o, size):
        stride, fields = r.arr
        if isinstance(o, int):
            f = o % stride; return f, z3.IntVal(o // stride)
        c, ts = self.linear(o.t)
        if all(k % stride == 0 for k, _ in ts):
            f = c % stride; idx = z3.IntVal((c - f) // stride)
            for k, x in ts: idx = idx + (k // stride) * x
            return f, z3.simplify(idx)
        if len(fields) == 1:
            f = next(iter(fields)); q = self.fresh('q', z3.IntSort())
            if self.quick(st, z3.Exists([q], o.t == q * stride + f)):
                st.pcs.append(o.t == q * stride + f); return f, q
        raise Unsupported('array index not divisible')
    def check_access(self, st, r, o, size, where):
        if r.freed: self.prove(st, z3.BoolVal(False), 'memory: use after free', where, 'safety'); raise PathEnd()
        n = r.size
        if n is None: return
        if isinstance(o, int) and isinstance(n, int):
            if 0 <= o and o + size <= n: return
            if st.spec: raise PathEnd()
            self.prove(st, z3.BoolVal(False), 'memory: out of bounds access', where, 'safety'); raise PathEnd()
        if st.spec: return
        ot = o if isinstance(o, int) else o.t
        nt = n if isinstance(n, int) else n.t
        ob = self.prove(st, z3.And(ot >= 0, ot + size <= nt), 'memory: access in bounds', where, 'safety')
        if ob.status != 'proved':
            st.pcs.append(z3.And(ot >= 0, ot + size <= nt))
    def deref(self, st, p, where):
        if isinstance(p, Undef): p = Ptr('?', 0)
        if isinstance(p, Packed) and len(p.c) == 1: p = p.c[0][2]
        if not isinstance(p, Ptr): raise Unsupported('deref of ' + type(p).__name__)
        if p.r == '?':
            if os.environ.get('VF_STACK'): print('unknown pointer at', where, [getattr(f.f,'name','') for f in st.frames[-8:]], [(r.id, r.size, {k: str(v)[:60] for k, v in r.cells.items()}) for r in list(st.mem.values())[-12:]])
            raise Unsupported('deref of unknown pointer')
        if p.r is None:
            if st.spec: raise PathEnd()
            self.prove(st, z3.BoolVal(False), 'memory: null dereference', where, 'safety'); raise PathEnd()
        return p
    def load(self, st, p, ty, where=''):
        p = self.deref(st, p, where)
        if not isinstance(ty, str):
            if 's' in ty: return [self.load(st, Ptr(p.r, self.off_add(st, p.o, o, [])), t, where) for o, t in ty['s']]
            return [self.load(st, Ptr(p.r, self.off_add(st, p.o, i * ty['a'][2], [])), ty['a'][1], where) for i in range(ty['a'][0])]
        r = self.reg(st, p.r); size = tsize(ty); o = self.conc_off(st, p.o)
        self.check_access(st, r, o, size, where)
        if r.arr is not None:
            f, idx = self.arr_index(st, r, o, size)
            fl = r.arr[1].get(f)
            if fl is None or fl[0] != size: raise Unsupported('array field mismatch')
            return self.arr_wrap(st, fl, z3.Select(fl[2], idx), ty)
        if isinstance(o, int): return self.load_c(st, r, o, size, ty)
        return self.load_sym(st, r, o, size, ty, where)
    def arr_wrap(self, st, fl, t, ty):
        if fl[1][0] == 'i':
            w = fl[0] * 8; lo, hi = fl[3]
            key = ('rng', t.get_id())
            if key not in st.known:
                st.known[key] = True; self.keep.append(t)
                if not st.spec: self.fact(st, z3.And(t >= lo, t <= hi))
                elif fl[4]: self.fact(st, z3.And(t >= lo, t <= hi))
            if ty == 'd' : raise Unsupported('type pun')
            return SI(t, lo, hi, w)
        return t
    def load_c(self, st, r, o, size, ty):
        c = r.cells.get(o)
        if c is not None and c[0] == size:
            v = c[1]
            if v.__class__ is Undef:
                v = self.havoc(st, ty) ; w = self.wreg(st, r.id); w.cells[o] = (size, v, ty)
            return self.retype(st, v, c[2], ty)
        # composite
        over = sorted((k, v) for k, v in r.cells.items() if k < o + size and k + v[0] > o)
        if not over:
            for lo, hi in r.zero:
                if lo <= o and o + size <= hi: return self.zero(ty)
            v = Bits(64, 0, 0) if ty == 'i64' and r.kind == 'heap' else self.havoc(st, ty)
            if not (isinstance(v, Ptr)):
                w = self.wreg(st, r.id); w.cells[o] = (size, v, ty)
            return v
        if len(over) == 1 and over[0][0] <= o and over[0][0] + over[0][1][0] >= o + size:
            k, (sz, v, cty) = over[0]
            if isinstance(v, Packed):
                for q in v.c:
                    if q[0] == o - k and q[1] == size: return q[2]
            v = self.toint(st, v, sz * 8)
            sh = 8 * (o - k); w = size * 8
            if isinstance(v, z3.BitVecRef): return z3.Extract(sh + w - 1, sh, v)
            u = self.uns(st, v, sz * 8)
            if isinstance(u, int): return (u >> sh) & ((1 << w) - 1)
            return SI((u / (1 << sh)) % (1 << w), 0, (1 << w) - 1, w)
        cells = []; pos = o
        for k, (sz, v, cty) in over:
            if k < o or k + sz > o + size: raise Unsupported('partial overlap load')
            cells.append((k - o, sz, v, cty))
        if all(isinstance(x[2], int) for x in cells):
            acc = 0
            for off, sz, v, t in cells: acc |= (v & ((1 << (8 * sz)) - 1)) << (8 * off)
            # zero / undefined padding reads as 0
            return acc
        return Packed(cells, size)
    def retype(self, st, v, fty, ty):
        if fty == ty: return v
        if isinstance(ty, str) and ty[0] == 'i' and isinstance(v, Ptr): return PI(v)
        if ty == 'p' and isinstance(v, PI): return v.p
        if ty == 'p' and v == 0 and isinstance(v, int): return NULL
        if ty in ('d', 'f') and isinstance(v, int) and not isinstance(v, bool):
            import struct
            if v == 0: return Fraction(0) if self.cfg['real'] else 0.0
            f = struct.unpack('<d', struct.pack('<Q', v))[0] if ty == 'd' else struct.unpack('<f', struct.pack('<I', v))[0]
            return Fraction(f) if self.cfg['real'] and f == f and abs(f) != float('inf') else f
        return v
    def cand_offsets(self, st, r, o, size, fresh=False):
        offs = [k for k, v in r.cells.items() if v[0] == size]
        for lo, hi in r.zero:
            for k in range(lo, hi - size + 1, size):
                if k not in r.cells: offs.append(k)
        offs = sorted(set(offs))
        c, ts = self.linear(o.t)
        import math
        g = 0
        for k, _ in ts: g = math.gcd(g, abs(k))
        res = []
        if fresh and g and g % size == 0 and isinstance(r.size, int) and r.size <= 400 * g:
            # a store may be the first one to an element: name the elements not yet written
            for k in range(c % g, r.size - size + 1, g):
                if k not in r.cells and not any(a < k + size and a + x[0] > k for a, x in r.cells.items()): offs.append(k)
            offs = sorted(set(offs))
        if g: offs = [k for k in offs if (k - c) % g == 0]
        offs = [k for k in offs if o.lo <= k <= o.hi]
        if len(offs) > 400: raise Unsupported('too many candidate offsets')
        for k in offs:
            if self.feasible(st, o.t == k): res.append(k)
        return res
    def load_sym(self, st, r, o, size, ty, where):
        cs = self.cand_offsets(st, r, o, size)
        if not cs:
            if not self.live_check(st): raise PathEnd()   # the path condition is contradictory
            raise Unsupported('symbolic load: no candidates')
        if not st.spec:
            self.prove(st, z3.Or([o.t == k for k in cs]), 'memory: access hits an element', where, 'safety')
        st.pcs.append(z3.Or([o.t == k for k in cs]))
        vals = [self.load_c(st, r, k, size, ty) for k in cs]
        return self.ite_chain(st, [o.t == k for k in cs], vals, ty)
    def ite_chain(self, st, conds, vals, ty):
        r = vals[-1]
        for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])): r = self.ite(st, c, v, r, ty)
        return r
    def ite(self, st, c, a, b, ty):
        if isinstance(c, int): return a if c else b
        if a is b: return a
        if isinstance(ty, dict):
            tys = [t for _, t in ty['s']] if 's' in ty else [ty['a'][1]] * ty['a'][0]
            return [self.ite(st, c, x, y, t) for x, y, t in zip(a, b, tys)]
        if isinstance(a, Undef): a = self.havoc(st, ty)
        if isinstance(b, Undef): b = self.havoc(st, ty)
        if ty == 'i1': return z3.simplify(z3.If(c, bool_t(self.asbool(st, a)), bool_t(self.asbool(st, b))))
        if ty[0] == 'i':
            w = int(ty[1:]); a = self.toint(st, a, w); b = self.toint(st, b, w)
            if isinstance(a, int) and isinstance(b, int) and a == b: return a
            if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef): return z3.If(c, self.bv(a, w), self.bv(b, w))
            if isinstance(a, int) and isinstance(b, int) and a < 2 and b < 2:
                bb = z3.If(c, z3.BoolVal(bool(a)), z3.BoolVal(bool(b))); return SI(z3.If(c, z3.IntVal(a), z3.IntVal(b)), 0, 1, w, z3.simplify(bb))
            # keep small signed constants signed when the other side is signed
            def t(v, o):
                if isinstance(v, int):
                    s = v - (1 << w) if (v >> (w - 1)) and isinstance(o, SI) and o.lo < 0 else v
                    return z3.IntVal(s), s, s
                return v.t, v.lo, v.hi
            at, al, ah = t(a, b); bt, bl, bh = t(b, a)
            bb = None
            if (isinstance(a, SI) and a.b is not None or a in (0, 1)) and (isinstance(b, SI) and b.b is not None or b in (0, 1)):
                bb = z3.If(c, bool_t(a.b if isinstance(a, SI) else a), bool_t(b.b if isinstance(b, SI) else b))
            return SI(z3.If(c, at, bt), min(al, bl), max(ah, bh), w, bb)
        if ty == 'p':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                if isinstance(a.o, int) and isinstance(b.o, int) and a.o == b.o: return a
                o = self.ite(st, c, a.o if isinstance(a.o, SI) else a.o, b.o, 'i64')
                if isinstance(o, int): o = self.sgn(st, o, 64)
                return Ptr(a.r, o)
            raise Unsupported('ite of pointers')
        return z3.If(c, self.real(a), self.real(b))
    def store(self, st, p, v, ty, where=''):
        p = self.deref(st, p, where)
        if isinstance(ty, dict):
            if isinstance(v, Undef): return
            els = ty['s'] if 's' in ty else [(i * ty['a'][2], ty['a'][1]) for i in range(ty['a'][0])]
            for (o, t), x in zip(els, v): self.store(st, Ptr(p.r, self.off_add(st, p.o, o, [])), x, t, where)
            return
        r = self.reg(st, p.r); size = tsize(ty); o = self.conc_off(st, p.o)
        self.check_access(st, r, o, size, where)
        if r.arr is not None:
            f, idx = self.arr_index(st, r, o, size)
            r = self.wreg(st, p.r); fl = r.arr[1].get(f)
            if fl is None or fl[0] != size: raise Unsupported('array field mismatch')
            if st.writes is not None: st.writes.add((p.r, 'arr', f))
            if fl[1][0] == 'i':
                x = self.toint(st, v, size * 8)
                signed = fl[3][0] < 0
                x = self.sgn(st, x, size * 8) if signed else self.uns(st, x, size * 8)
            else: x = self.real(v)
            r.arr[1][f] = fl[:2] + (z3.Store(fl[2], idx, x),) + fl[3:]
            return
        if isinstance(o, int):
            r = self.wreg(st, p.r)
            if st.writes is not None: st.writes.add((p.r, o, size, ty))
            self.store_c(st, r, o, size, v, ty)
            return
        cs = self.cand_offsets(st, r, o, size, True)
        if not cs: raise Unsupported('symbolic store: no candidates')
        self.prove(st, z3.Or([o.t == k for k in cs]), 'memory: access hits an element', where, 'safety')
        st.pcs.append(z3.Or([o.t == k for k in cs]))
        r = self.wreg(st, p.r)
        for k in cs:
            old = self.load_c(st, r, k, size, ty); r = self.wreg(st, p.r)
            if st.writes is not None: st.writes.add((p.r, k, size, ty))
            r.cells[k] = (size, self.ite(st, o.t == k, v, old, ty), ty)
    def store_c(self, st, r, o, size, v, ty):
        c = r.cells.get(o)
        if c is None or c[0] != size:
            for k in [k for k, x in r.cells.items() if k < o + size and k + x[0] > o]:
                sz, ov, oty = r.cells.pop(k)
                if k >= o and k + sz <= o + size: continue
                if isinstance(ov, Packed):
                    for a, b, x, t in ov.c:
                        if k + a + b <= o or k + a >= o + size: r.cells[k + a] = (b, x, t)
                    continue
                if not (isinstance(oty, str) and oty[0] == 'i') and not isinstance(ov, int): continue
                for a, b in ((k, o), (o + size, k + sz)):
                    if b > a:
                        r2 = {k: (sz, ov, oty)}
                        iv = self.toint(st, ov, sz * 8)
                        if isinstance(iv, z3.BitVecRef): nv = z3.Extract(8 * (b - k) - 1, 8 * (a - k), iv)
                        else:
                            u = self.uns(st, iv, sz * 8); sh = 8 * (a - k); w = 8 * (b - a)
                            nv = (u >> sh) & ((1 << w) - 1) if isinstance(u, int) else SI((u / (1 << sh)) % (1 << w), 0, (1 << w) - 1, w)
                        r.cells[a] = (b - a, nv, f'i{8*(b-a)}')
        if isinstance(v, Packed):
            for a, b, x, t in v.c: r.cells[o + a] = (b, x, t)
            return
        r.cells[o] = (size, v, ty)
    def to_array(self, st, r, stride, fields):
        pass
    def memcpy(self, st, d, s, n, where):
        n = self.toint(st, n, 64)
        if isinstance(n, SI):
            t = z3.simplify(n.t)
            if z3.is_int_value(t): n = t.as_long()
        if n == 0: return
        d = self.deref(st, d, where); s = self.deref(st, s, where)
        rs = self.reg(st, s.r); rd = self.reg(st, d.r); so = self.conc_off(st, s.o); do = self.conc_off(st, d.o)
        if isinstance(n, int) and isinstance(so, int) and isinstance(do, int) and rs.arr is None and rd.arr is None:
            self.check_access(st, rs, so, n, where); self.check_access(st, rd, do, n, where)
            moved = []
            for k, (sz, v, ty) in rs.cells.items():
                if k < so + n and k + sz > so:
                    if k < so or k + sz > so + n:
                        a, b = max(k, so), min(k + sz, so + n)
                        v2 = self.load_c(st, rs, a, b - a, f'i{8*(b-a)}'); moved.append((a, b - a, v2, f'i{8*(b-a)}'))
                    else: moved.append((k, sz, v, ty))
            zs = [(max(a, so), min(b, so + n)) for a, b in rs.zero if a < so + n and b > so]
            # zero bytes of the source shadowed by cells stay shadowed because cells are copied too
            rd = self.wreg(st, d.r)
            if st.writes is not None:
                for k, sz, v, ty in moved: st.writes.add((d.r, k - so + do, sz, ty))
            for k in [k for k, x in rd.cells.items() if k < do + n and k + x[0] > do]:
                x = rd.cells[k]
                if k >= do and k + x[0] <= do + n: del rd.cells[k]
                else: self.store_c(st, rd, max(k, do), min(k + x[0], do + n) - max(k, do), 0, f'i{8*(min(k+x[0],do+n)-max(k,do))}')
            rd.zero = [z for z in self.cut(rd.zero, do, do + n)]
            for a, b in zs: rd.zero.append((a - so + do, b - so + do))
            for k, sz, v, ty in moved: rd.cells[k - so + do] = (sz, v, ty)
            return
        if rs.arr is not None and isinstance(n, int) and rd.arr is None and isinstance(do, int):
            stride, fields = rs.arr; k = 0
            if n > 4096: raise Unsupported('large memcpy from array')
            for q in range(0, n, stride):
                for f, fl in fields.items():
                    v = self.load(st, Ptr(s.r, self.off_add(st, s.o, q + f, [])), fl[1], where)
                    self.store(st, Ptr(d.r, do + q + f), v, fl[1], where)
            return
        if rs.arr is not None and (rd.arr is not None or (not rd.cells and isinstance(do, int) and do == 0)):
            if rd.arr is None: self.adopt(st, d.r, rs)
            rd = self.wreg(st, d.r); stride = rs.arr[0]
            nt = z3.IntVal(n) if isinstance(n, int) else n.t
            if not st.spec:
                for r_, o_ in ((rs, so), (rd, do)):
                    ot = o_ if isinstance(o_, int) else o_.t; sz = r_.size if isinstance(r_.size, int) else r_.size.t
                    self.prove(st, z3.And(ot >= 0, nt >= 0, ot + nt <= sz), 'memory: copy in bounds', where, 'safety')
            fs, si = self.arr_index(st, rs, so, 1); fd, di = self.arr_index(st, rd, do, 1)
            if fs or fd: raise Unsupported('unaligned array copy')
            _, cnt = self.arr_index(st, rs, n if isinstance(n, int) else n, 1)
            for f in list(rd.arr[1]):
                fl = rd.arr[1][f]; src = rs.arr[1][f][2]
                na = self.fresh('cp', fl[2].sort()); k = z3.Int(f'k!{self.nfresh}')
                st.pcs.append(z3.ForAll([k], z3.Select(na, k) == z3.If(z3.And(k >= di, k < di + cnt), z3.Select(src, k - di + si), z3.Select(fl[2], k)), patterns=[z3.Select(na, k)]))
                if st.writes is not None: st.writes.add((d.r, 'arr', f))
                rd.arr[1][f] = fl[:2] + (na,) + fl[3:]
            return
        raise Unsupported('memcpy shape')
    def adopt(self, st, rid, src):
        r = self.wreg(st, rid); r.arr = (src.arr[0], {f: fl[:2] + (self.fresh('u', fl[2].sort()),) + fl[3:] for f, fl in src.arr[1].items()}); r.cells = {}
    @staticmethod
    def cut(zs, a, b):
        for x, y in zs:
            if y <= a or x >= b: yield (x, y); continue
            if x < a: yield (x, a)
            if y > b: yield (b, y)
    def memset(self, st, d, v, n, where):
        n = self.toint(st, n, 64)
        if n == 0: return
        d = self.deref(st, d, where); do = self.conc_off(st, d.o)
        v = self.toint(st, v, 8)
        r = self.reg(st, d.r)
        if r.arr is not None and isinstance(v, int) and v == 0:
            rd = self.wreg(st, d.r); fd, di = self.arr_index(st, rd, do, 1); _, cnt = self.arr_index(st, rd, n, 1)
            for f in list(rd.arr[1]):
                fl = rd.arr[1][f]; na = self.fresh('ms', fl[2].sort()); k = z3.Int(f'k!{self.nfresh}')
                zero = z3.IntVal(0) if fl[1][0] == 'i' else z3.RealVal(0)
                st.pcs.append(z3.ForAll([k], z3.Select(na, k) == z3.If(z3.And(k >= di, k < di + cnt), zero, z3.Select(fl[2], k)), patterns=[z3.Select(na, k)]))
                if st.writes is not None: st.writes.add((d.r, 'arr', f))
                rd.arr[1][f] = fl[:2] + (na,) + fl[3:]
            return
        if isinstance(n, int) and isinstance(do, int) and isinstance(v, int):
            self.check_access(st, r, do, n, where); r = self.wreg(st, d.r)
            if st.writes is not None: st.writes.add((d.r, do, n, 'memset'))
            for k in [k for k, x in r.cells.items() if k < do + n and k + x[0] > do]:
                x = r.cells[k]
                if k >= do and k + x[0] <= do + n: del r.cells[k]
                else: self.store_c(st, r, max(k, do), min(k + x[0], do + n) - max(k, do), 0, f'i{8*(min(k+x[0],do+n)-max(k,do))}')
            if v == 0: r.zero = list(self.cut(r.zero, do, do + n)) + [(do, do + n)]
            else:
                if n > 4096: raise Unsupported('memset')
                r.zero = list(self.cut(r.zero, do, do + n))
                # keep 8-byte cells where possible
                k = do
                while k < do + n:
                    m = 8 if do + n - k >= 8 and n % 8 == 0 else (4 if do + n - k >= 4 and n % 4 == 0 else 1)
                    r.cells[k] = (m, int.from_bytes(bytes([v & 255]) * m, 'little'), f'i{8*m}'); k += m
            return
        raise Unsupported('memset shape')
    # ---- floats
    def real(self, v):
        if isinstance(v, Undef): raise Unsupported('undef float')
        if self.cfg['real']:
            if isinstance(v, Fraction): return z3.RealVal(str(v.numerator)) if v.denominator == 1 else z3.Q(v.numerator, v.denominator)
            if isinstance(v, int): return z3.RealVal(v)
            if isinstance(v, float): raise Unsupported('non-finite in real mode')
            if isinstance(v, Packed) and len(v.c) == 1: return self.real(v.c[0][2])
            if isinstance(v, SI): raise Unsupported('int bits as real')
            return v
        if isinstance(v, (float, Fraction)): return z3.FPVal(float(v), F64)
        return v
    def fop(self, st, op, a, b):
        if isinstance(a, Undef): a = self.havoc(st, 'd')
        if isinstance(b, Undef): b = self.havoc(st, 'd')
        if self.cfg['real']:
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                if op == 'fadd': return a + b
                if op == 'fsub': return a - b
                if op == 'fmul': return a * b
                if op == 'fdiv' and b != 0: return a / b
                if op == 'fdiv': return float('nan') if a == 0 else float('inf') * (1 if a > 0 else -1)
                raise Unsupported(op)
            if isinstance(a, (float,)) or isinstance(b, (float,)):
                if isinstance(a, (float, Fraction)) and isinstance(b, (float, Fraction)):
                    x, y = float(a), float(b)
                    try: return {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                    except ZeroDivisionError: return float('nan')
                raise Unsupported('non-finite in real mode')
            if op == 'fmul':
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Fraction):
                        if x == 0: return Fraction(0)
                        if x == 1: return y
                        if x == -1: return -self.real(y)
            if op == 'fadd':
                if isinstance(a, Fraction) and a == 0: return b
                if isinstance(b, Fraction) and b == 0: return a
            if op == 'fsub' and isinstance(b, Fraction) and b == 0: return a
            if op == 'fdiv' and isinstance(b, Fraction):
                if b == 1: return a
                if b != 0: return self.real(a) * self.real(1 / b)
            x, y = self.real(a), self.real(b)
            if op == 'fadd': return x + y
            if op == 'fsub': return x - y
            if op == 'fmul': return x * y
            if op == 'fdiv':
                if not st.spec and not self.quick(st, y != 0):
                    # IEEE division by zero has no value in the real model
                    self.note(st, 'division by zero excluded (IEEE inf/nan not modelled)')
                    st.pcs.append(y != 0)
                return x / y
            raise Unsupported(op)
        if isinstance(a, (float, Fraction)) and isinstance(b, (float, Fraction)):
            x, y = float(a), float(b)
            if op == 'fadd': return x + y
            if op == 'fsub': return x - y
            if op == 'fmul': return x * y
            if op == 'fdiv':
                if y == 0:
                    import math
                    if x != x or x == 0: return float('nan')
                    return math.copysign(float('inf'), x) * math.copysign(1, y)
                return x / y
        x, y = self.real(a), self.real(b)
        return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, x, y) if op != 'frem' else z3.fpRem(x, y)
    def expanded(self, x):
        P = Poly()
        try: n, d = P.norm(x)
        except NotPoly: return z3.simplify(x, som=True)
        if d or P.dens: return z3.simplify(x, som=True)
        ts = []
        for k, v in n.items():
            t = z3.Q(v.numerator, v.denominator)
            for a, e in k:
                for _ in range(e): t = t * P.atoms[a]
            ts.append(t)
        return z3.simplify(z3.Sum(ts)) if ts else z3.RealVal(0)
    def fcmp(self, st, pred, a, b):
        if isinstance(a, Undef): a = self.havoc(st, 'd')
        if isinstance(b, Undef): b = self.havoc(st, 'd')
        if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
            nan = a != a or b != b
            if pred == 'ord': return int(not nan)
            if pred == 'uno': return int(nan)
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
            if nan: r = pred[0] == 'u'
            return int(r)
        if self.cfg['real']:
            for x, y, fl in ((a, b, 0), (b, a, 1)):
                if isinstance(x, float) and x != x:
                    if pred == 'ord': return 0
                    return int(pred[0] == 'u')
                if isinstance(x, float):
                    # comparison of a finite real with +-inf
                    big = x > 0
                    lt = (not big) if not fl else big   # a < b ?
                    if pred in ('ord',): return 1
                    if pred in ('uno',): return 0
                    return int({'eq': False, 'ne': True, 'lt': lt, 'le': lt, 'gt': not lt, 'ge': not lt}[pred[1:]]) if not fl else int({'eq': False, 'ne': True, 'lt': big, 'le': big, 'gt': not big, 'ge': not big}[pred[1:]])
            x, y = self.real(a), self.real(b)
            if pred == 'ord': return 1
            if pred == 'uno': return 0
            k = pred[1:]
            if self.cfg['som']: x, y = self.expanded(x - y), z3.RealVal(0)   # products which cancel do
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[k]()
            return r
        x, y = self.real(a), self.real(b)
        nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord': return z3.Not(nan)
        if pred == 'uno': return nan
        k = pred[1:]
        if k == 'ne':
            e = z3.Not(z3.fpEQ(x, y))  # une: true on nan
            return e if pred[0] == 'u' else z3.And(e, z3.Not(nan))
        r = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[k](x, y)
        return r if pred[0] == 'o' else z3.Or(r, nan)
    def bv(self, v, w):
        if isinstance(v, int): return z3.BitVecVal(v, w)
        if isinstance(v, z3.BitVecRef): return v
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, SI):
            if v.b is not None: return z3.If(v.b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return z3.Int2BV(v.t, w)
        raise Unsupported('bv')
    # ---- integer ops
    def iop(self, st, op, a, b, ty, fl):
        if isinstance(ty, dict):
            el = ty['a'][1]
            return [self.iop(st, op, x, y, el, fl) for x, y in zip(a, b)]
        w = int(ty[1:])
        if w == 1:
            x, y = self.asbool(st, a), self.asbool(st, b)
            if isinstance(x, int) and isinstance(y, int):
                return {'and': x & y, 'or': x | y, 'xor': x ^ y, 'add': x ^ y, 'sub': x ^ y, 'mul': x & y}[op]
            if op == 'and':
                if (isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0): return 0
                if isinstance(x, int): return y
                if isinstance(y, int): return x
                return z3.And(x, y)
            if op == 'or':
                if (isinstance(x, int) and x) or (isinstance(y, int) and y): return 1
                if isinstance(x, int): return y
                if isinstance(y, int): return x
                return z3.Or(x, y)
            if op in ('xor', 'add', 'sub'):
                if isinstance(x, int): return z3.Not(y) if x else y
                if isinstance(y, int): return z3.Not(x) if y else x
                return z3.Xor(x, y)
            raise Unsupported(op + ' i1')
        if isinstance(a, PI) or isinstance(b, PI):
            if op == 'sub' and isinstance(a, PI) and isinstance(b, PI):
                if a.p.r == b.p.r and a.p.r != '?':
                    x, y = a.p.o, b.p.o
                    if isinstance(x, int) and isinstance(y, int): return (x - y) & ((1 << w) - 1)
                    xt, xl, xh = (x, x, x) if isinstance(x, int) else (x.t, x.lo, x.hi)
                    yt, yl, yh = (y, y, y) if isinstance(y, int) else (y.t, y.lo, y.hi)
                    return self.mk(z3.simplify(xt - yt), xl - yh, xh - yl, w)
                raise Unsupported('difference of unrelated pointers')
            if op == 'sub' and isinstance(a, PI) and b == 0: return a
            if op in ('add', 'sub') and isinstance(a, PI):
                o = self.off_add(st, a.p.o, 0, [(b, 1 if op == 'add' else -1, ty)]); return PI(Ptr(a.p.r, o))
            if op == 'add' and isinstance(b, PI): return self.iop(st, op, b, a, ty, fl)
            if op == 'and' and isinstance(a, PI) and isinstance(b, int):
                if b in (1, 3, 7, 15) : # alignment test of an object address (all our regions are 16-aligned)
                    o = a.p.o
                    if isinstance(o, int): return o & b
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, Packed) and isinstance(b, int) and op == 'lshr':
            for q in a.c:
                if q[0] * 8 == b and q[0] + q[1] == a.z: return Packed([(0, q[1], q[2], q[3])], a.z) if q[1] != a.z else q[2]
            rest = [(q[0] - b // 8, q[1], q[2], q[3]) for q in a.c if q[0] * 8 >= b]
            if b % 8 == 0 and all(q[0] * 8 >= b or (q[0] + q[1]) * 8 <= b for q in a.c): return Packed(rest, a.z) if rest else 0
        if op in ('and', 'or', 'xor') and w > 1 and (isinstance(a, (Bits, Undef)) or isinstance(b, (Bits, Undef))):
            x, y = Bits.of(a, w), Bits.of(b, w)
            if x is not None and y is not None: return Bits.op(op, x, y)
        a = self.toint(st, a, w); b = self.toint(st, b, w); M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = self.sgn(st, a, w), self.sgn(st, b, w)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M
            if op == 'lshr': return a >> b
            if op == 'ashr': return (sa >> b) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    if st.spec: raise PathEnd()
                    self.prove(st, z3.BoolVal(False), 'arithmetic: integer division by zero', '', 'safety'); raise PathEnd()
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                q = abs(sa) // abs(sb); q = -q if (sa < 0) != (sb < 0) else q
                return q & M if op == 'sdiv' else (sa - q * sb) & M
            raise Unsupported(op)
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            x, y = self.bv(a, w), self.bv(b, w)
            if op in ('udiv', 'urem', 'sdiv', 'srem') and not st.spec:
                o = self.prove(st, y != 0, 'arithmetic: no division by zero', '', 'safety')
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
            return z3.simplify(r)
        def sc(v): # small-magnitude representative of a constant
            return self.sgn(st, v, w)
        if op in ('add', 'sub', 'mul'):
            if isinstance(a, int):
                if op == 'add' and a == 0: return b
                if op == 'mul' and a == 0: return 0
                if op == 'mul' and a == 1: return b
                at, al, ah = sc(a), sc(a), sc(a)
                if isinstance(b, SI) and a >= 0 and (a >> (w-1)) and op != 'add' and op != 'sub': pass
            else: at, al, ah = a.t, a.lo, a.hi
            if isinstance(b, int):
                if op in ('add', 'sub') and b == 0: return a
                if op == 'mul' and b == 0: return 0
                if op == 'mul' and b == 1: return a
                bt, bl, bh = sc(b), sc(b), sc(b)
            else: bt, bl, bh = b.t, b.lo, b.hi
            if op == 'add': t = at + bt; lo, hi = al + bl, ah + bh
            elif op == 'sub': t = at - bt; lo, hi = al - bh, ah - bl
            else:
                t = at * bt; c = [al * bl, al * bh, ah * bl, ah * bh]; lo, hi = min(c), max(c)
                if a is b: lo = max(lo, 0)
            r = SI(t, lo, hi, w)
            if fl & 1 and (lo < -(1 << (w - 1)) or hi >= (1 << (w - 1))):
                # signed overflow is undefined behaviour: must be excluded
                sat = self.rng(st, a, True) if isinstance(a, SI) else sc(a); sbt = self.rng(st, b, True) if isinstance(b, SI) else sc(b)
                t = {'add': lambda: sat + sbt, 'sub': lambda: sat - sbt, 'mul': lambda: sat * sbt}[op]()
                if isinstance(t, int): return t & M
                r = SI(t, max(lo, -(1 << (w - 1))) if t is r.t else -(1 << (w - 1)), (1 << (w - 1)) - 1, w)
                self.nsw.add(1)
                cond = z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1)))
                if not st.spec and not self.quick(st, cond):
                    if self.cfg.get('nsw') == 'check': self.prove(st, cond, 'arithmetic: no signed overflow', self.where(st), 'safety')
                    else: self.note(st, 'signed arithmetic treated as mathematical (no overflow)')
                    st.pcs.append(cond)
            elif hi - lo > (1 << (w + 66)):
                u = self.uns(st, r, w); r = SI(u, 0, M, w)
            return r
        if op in ('and', 'or', 'xor'):
            ab = a.b if isinstance(a, SI) else (z3.BoolVal(bool(a)) if a in (0, 1) else None)
            bb = b.b if isinstance(b, SI) else (z3.BoolVal(bool(b)) if b in (0, 1) else None)
            if ab is not None and bb is not None:
                r = z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](ab, bb))
                if z3.is_true(r): return 1
                if z3.is_false(r): return 0
                return SI(z3.If(r, z3.IntVal(1), z3.IntVal(0)), 0, 1, w, r)
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int):
                    if op == 'and':
                        if y == 0: return 0
                        if y == M: return x
                        if (y & (y + 1)) == 0: # low mask
                            if isinstance(x, SI) and x.lo >= 0 and x.hi <= y: return x
                            return SI(x.t % (y + 1), 0, y, w)
                        if ((~y & M) & ((~y & M) + 1)) == 0: # high mask
                            u = self.uns(st, x, w); k = (~y & M) + 1
                            return SI(u - u % k, 0, M, w)
                    if op in ('or', 'xor') and y == 0: return x
                    if op == 'xor' and y == M:
                        return SI(-1 - x.t, -1 - x.hi, -1 - x.lo, w)
            x, y = z3.Int2BV(self.uns(st, a, w) if isinstance(a, SI) else z3.IntVal(a), w), z3.Int2BV(self.uns(st, b, w) if isinstance(b, SI) else z3.IntVal(b), w)
            r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]()
            return SI(z3.BV2Int(r), 0, M, w)
        if op == 'shl':
            if isinstance(b, int): return self.iop(st, 'mul', a, 1 << b, ty, 0)
            if isinstance(b, SI):
                n = self.uns(st, b, w)
                r = self.mkite_pow(st, a, n, w)
                return r
        if op == 'lshr' and isinstance(b, int):
            u = self.uns(st, a, w); return SI(u / (1 << b), max(a.lo, 0) >> b if a.lo >= 0 else 0, (a.hi >> b) if a.lo >= 0 and a.hi <= M else M >> b, w)
        if op == 'ashr' and isinstance(b, int):
            s = self.sgn(st, a, w); return SI(s / (1 << b), -(1 << (w - 1 - b)), (1 << (w - 1 - b)) - 1, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            f = self.sgn if op[0] == 's' else self.uns
            x, y = f(st, a, w), f(st, b, w)
            if not isinstance(y, int) or y == 0:
                yt = z3.IntVal(y) if isinstance(y, int) else y
                if not st.spec:
                    o = self.prove(st, yt != 0, 'arithmetic: no division by zero', self.where(st), 'safety')
                    if o.status != 'proved': st.pcs.append(yt != 0)
            if not isinstance(y, int):  # a divisor known to be +-1 under the path condition
                for k in (1, -1):
                    if b.lo <= k <= b.hi and self.const_under(st, y, k):
                        if op[1:] == 'rem': return 0
                        return a if k == 1 else self.iop(st, 'sub', 0, a, ty, fl)
            xt = z3.IntVal(x) if isinstance(x, int) else x; yt = z3.IntVal(y) if isinstance(y, int) else y
            xl = x if isinstance(x, int) else a.lo
            yl = y if isinstance(y, int) else b.lo
            nn = (xl >= 0 or op[0] == 'u' or self.quick(st, xt >= 0)) and (yl >= 0 or op[0] == 'u' or self.quick(st, yt >= 0))
            if op[1:] == 'div' and isinstance(y, int) and y > 1:
                c, ts = self.linear(xt)
                if c % y == 0 and all(k % y == 0 for k, _ in ts):
                    q = z3.IntVal(c // y)
                    for k, v in ts: q = q + (k // y) * v
                    q = z3.simplify(q)
                    lo, hi = (-(-a.lo // y), a.hi // y) if isinstance(a, SI) else (-M, M)
                    return self.mk(q.as_long() if z3.is_int_value(q) else q, lo, hi, w)
            if nn and not isinstance(y, int):
                qr = self.poly_divmod(st, xt, yt)
                if qr is not None:
                    H = a.hi if isinstance(a, SI) and 0 <= a.hi <= M else M
                    return self.mk(qr[0] if op[1:] == 'div' else qr[1], 0, H, w)
            if nn:
                H = a.hi if isinstance(a, SI) and a.lo >= 0 and a.hi <= M else M
                if op[1:] == 'div': return SI(xt / yt, 0, H if not isinstance(y, int) else H // y, w)
                return SI(xt % yt, 0, min(H, (y - 1) if isinstance(y, int) else (b.hi - 1 if b.hi > 0 else M)), w)
            ab = lambda v: z3.If(v >= 0, v, -v)
            q = ab(xt) / ab(yt); q = z3.If((xt >= 0) == (yt >= 0), q, -q)
            if op == 'sdiv': return SI(q, -(1 << (w - 1)), (1 << (w - 1)), w)
            return SI(xt - q * yt, -(1 << (w - 1)), (1 << (w - 1)) - 1, w)
        raise Unsupported('int op ' + op)
    def poly_divmod(self, st, x, y):
        """x = q y + r by polynomial division; q, r are quotient and remainder
        when 0 <= r < y follows from the path condition"""
        try:
            P = Poly(); px, d1 = P.norm(z3.simplify(x)); py, d2 = P.norm(z3.simplify(y))
            if d1 or d2 or not py or len(px) > 40 or len(py) > 4 or P.dens: return None
            lead = max(py, key=lambda k: (sum(e for _, e in k), k)); 
            if not lead: return None
            q = {}; rest = {}; p = dict(px); db = dict(lead)
            while p:
                k = max(p, key=lambda k: (sum(e for _, e in k), k)); d = dict(k); c = p[k] / py[lead]
                if c.denominator == 1 and all(d.get(v, 0) >= e for v, e in lead):
                    for v, e in lead: d[v] -= e
                    m = tuple(sorted((v, e) for v, e in d.items() if e)); q[m] = q.get(m, 0) + c; p = P.add(p, P.mulraw({m: c}, py), -1)
                else: rest[k] = p.pop(k)
            if not q: return None
            def term(pl):
                t = z3.IntVal(0)
                for k, v in pl.items():
                    m = z3.IntVal(int(v))
                    for a, e in k:
                        for _ in range(e): m = m * P.atoms[a]
                    t = t + m
                return z3.simplify(t)
            if any(v.denominator != 1 for v in rest.values()) or not all(z3.is_int(P.atoms[a]) for pl in (q, rest) for k in pl for a, _ in k): return None
            r = term(rest)
            if self.prove(st, z3.And(r >= 0, r < y), 'remainder', '', 'aux', record=False, to=8000).status != 'proved': return None
            return term(q), r
        except NotPoly: return None
    def mkite_pow(self, st, a, n, w):
        r = z3.IntVal(0)
        at = a.t if isinstance(a, SI) else z3.IntVal(a)
        for k in range(w - 1, -1, -1): r = z3.If(n == k, at * (1 << k), r)
        return SI(r % (1 << w), 0, (1 << w) - 1, w)
    def icmp(self, st, pred, a, b, ty):
        if ty == 'p' or isinstance(a, (Ptr, PI, Fn)) or isinstance(b, (Ptr, PI, Fn)): return self.pcmp(st, pred, a, b)
        if isinstance(ty, dict): return [self.icmp(st, pred, x, y, ty['a'][1]) for x, y in zip(a, b)]
        w = int(ty[1:])
        if w == 1:
            x, y = self.asbool(st, a), self.asbool(st, b)
            if isinstance(x, int) and isinstance(y, int): return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y, 'slt': x > y, 'sgt': x < y, 'sle': x >= y, 'sge': x <= y}[pred])
            X, Y = bool_t(x), bool_t(y)
            if pred == 'eq': return z3.simplify(X == Y)
            if pred == 'ne': return z3.simplify(X != Y)
            lt = z3.And(z3.Not(X), Y); gt = z3.And(X, z3.Not(Y))
            return {'ult': lt, 'ugt': gt, 'ule': z3.Not(gt), 'uge': z3.Not(lt), 'slt': gt, 'sgt': lt, 'sle': z3.Not(lt), 'sge': z3.Not(gt)}[pred]
        a = self.toint(st, a, w); b = self.toint(st, b, w)
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            x, y = self.bv(a, w), self.bv(b, w)
            return z3.simplify({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]())
        if pred in ('eq', 'ne'):
            if isinstance(a, int) and isinstance(b, int): return int((a == b) == (pred == 'eq'))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, SI) and x.b is not None:
                    if isinstance(y, int):
                        if y > 1: return int(pred == 'ne')
                        r = x.b if (y == 1) == (pred == 'eq') else z3.simplify(z3.Not(x.b))
                        return r
                    if isinstance(y, SI) and y.b is not None: return z3.simplify(x.b == y.b) if pred == 'eq' else z3.simplify(x.b != y.b)
            # choose a representation both share
            sgn = (isinstance(a, SI) and a.lo < 0) or (isinstance(b, SI) and b.lo < 0)
            f = self.sgn if sgn else self.uns
            x, y = f(st, a, w), f(st, b, w)
            xl, xh = (x, x) if isinstance(x, int) else (a.lo, a.hi)
            yl, yh = (y, y) if isinstance(y, int) else (b.lo, b.hi)
            x = z3.IntVal(x) if isinstance(x, int) else x; y = z3.IntVal(y) if isinstance(y, int) else y
            r = z3.simplify(x == y)
            if z3.is_true(r): return int(pred == 'eq')
            if z3.is_false(r): return int(pred == 'ne')
            return r if pred == 'eq' else z3.Not(r)
        f = self.sgn if pred[0] == 's' else self.uns
        x, y = f(st, a, w), f(st, b, w); k = pred[1:]
        if isinstance(x, int) and isinstance(y, int): return int({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k])
        r = z3.simplify({'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[k]())
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        # interval shortcut
        return r
    def pcmp(self, st, pred, a, b):
        def norm(x):
            if isinstance(x, PI): x = x.p
            if isinstance(x, int): x = Ptr(None, x)
            return x
        a, b = norm(a), norm(b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn): eq = a.n == b.n
            else: eq = False
            return int(eq == (pred == 'eq'))
        if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh('pc', z3.BoolSort())
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('pointer compare')
        if a.r == '?' or b.r == '?': return self.fresh('pc', z3.BoolSort())
        if a.r == b.r:
            x = a.o if isinstance(a.o, int) else a.o.t; y = b.o if isinstance(b.o, int) else b.o.t
            k = pred if pred in ('eq', 'ne') else pred[1:]
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[k]()
            if isinstance(r, bool): return int(r)
            r = z3.simplify(r)
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        if pred in ('eq', 'ne'): return int(pred == 'ne')
        # order of distinct objects is unspecified; keep it consistent by id
        ka = (0, 0) if a.r is None else (1, str(a.r)); kb = (0, 0) if b.r is None else (1, str(b.r))
        return int({'lt': ka < kb, 'le': ka <= kb, 'gt': ka > kb, 'ge': ka >= kb}[pred[1:]])
    def where(self, st):
        fr = st.frames[-1]; ins = fr.f.blocks[fr.b][min(fr.i, len(fr.f.blocks[fr.b]) - 1)]
        w = ins[-1]
        for g in reversed(st.frames):
            if '/repo/' in g.f.file or g.f.file.startswith('src'):
                x = g.f.blocks[g.b][min(g.i, len(g.f.blocks[g.b]) - 1)][-1]
                return f'{x}'
        return w if isinstance(w, str) else ''
    # ================================================================ run
    def run_entry(self, name):
        f = self.p.fn['vf_entry_' + name]
        for attempt in range(40):
            self.obls = []; self.failed = []; self.inputs = []; self.covers = {}; self.rid = 0; self.paths = 0; self.ended = {'return': 0, 'throw': 0, 'infeasible': 0}; self.invs_used = []
            st = State(); fr = Frame(f); st.frames = [fr]
            try:
                if self.cfg['ctors']: st = self.run_ctors(st, fr)
                self.live = 0
                self.explore([st], None)
                if not self.live and not self.failed: raise Unsupported('the precondition is contradictory (vacuous contract)')
                return
            except NeedInvariant as e:
                self.invset.add(e.key)
        raise Unsupported('too many invariant restarts')
    def run_ctors(self, st, fr):
        g = self.p.gl.get('llvm.global_ctors')
        if not g or not g['init'] or g['init'][0] != 'agg': return st
        for el in g['init'][2]:
            fn = el[2][1]
            if fn[0] == 'fn':
                s = self.call_sync(st, fn[1], [])
                st = s
        return st
    def call_sync(self, st, fname, args):
        """run a function to completion; must have exactly one outcome"""
        marker = Frame(self.p.fn[fname]); marker.kind = 'stop'
        for i, v in enumerate(args): marker.env[i] = v
        st.frames.append(marker); outs = self.explore([st], len(st.frames))
        outs = [o for o in outs if o.done == 'ret']
        if len(outs) != 1: raise Unsupported(f'call_sync outcomes {len(outs)}')
        return outs[0]
    def explore(self, work, stopdepth, loopstop=None):
        """run states; returns states that popped below stopdepth (done='ret'
        or 'throw'), or met loopstop=(depth,func,header,blocks)
        (done='back'/'exit')"""
        outs = []
        while work:
            w = work.pop()
            if time.time() - self.t0 > self.cfg['time']: raise Budget('time')
            try:
                pend = isinstance(w, PendingJump); st = w.st if pend else w
                n = len(st.frames); st.done = None
                if n == 0:
                    self.paths += 1; self.ended['return'] += 1
                    if not self.live and self.live_check(st): self.live = 1
                    continue
                if stopdepth is not None and n < stopdepth: st.done = st.final; outs.append(st); continue
                if loopstop is not None and n < loopstop[0]: st.done = 'exit'; st.pend = pend; outs.append(st); continue
                if pend and not w.athead and not self.enter(st, work, loopstop):
                    if st.done: outs.append(st)
                    continue
                r = self.step_until(st, work, stopdepth, loopstop)
                if r is not None: outs.append(r)
            except PathEnd: pass
            if self.cfg['stopfirst'] and len(self.failed) >= self.cfg['stopfirst'] and not getattr(self, 'quiet', 0): raise Budget('failed')
        return outs
    def in_inv(self): return getattr(self, 'invdepth', 0) > 0
    def step_until(self, st, work, stopdepth, loopstop):
        D = self.dispatch
        while True:
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.b]
            ins = blk[fr.i]
            op = ins[0]
            st.steps += 1
            if st.steps > self.cfg['maxsteps']: raise Budget('steps')
            if (st.steps & 1023) == 0 and time.time() - self.t0 > self.cfg['time']: raise Budget('time')
            h = D.get(op)
            if h is None: raise Unsupported('instruction ' + op)
            r = h(self, st, fr, ins, work)
            if r is None: fr.i += 1; continue
            n = len(st.frames)
            if n == 0:
                self.paths += 1; self.ended['throw' if r == 'throw' else 'return'] += 1
                if not self.live and self.live_check(st): self.live = 1
                if self.paths > self.cfg['maxpaths']: raise Budget('paths')
                return None
            if stopdepth is not None and n < stopdepth: st.done = st.final; return st
            if loopstop is not None and n < loopstop[0]: st.done = 'exit'; st.pend = (r == 'jump'); return st
            if r == 'jump' and not self.enter(st, work, loopstop): 
                if st.done: return st
                return None
    def enter(self, st, work, loopstop):
        """process arrival at the start of a block; False if st stops here"""
        fr = st.frames[-1]
        if loopstop is not None and len(st.frames) == loopstop[0]:
            if fr.b == loopstop[2]: st.done = 'back'; return False
            if fr.b not in loopstop[3]: st.done = 'exit'; st.pend = True; return False
        L = self.p.loops(fr.f)
        if fr.b in L:
            back = fr.pb in L[fr.b]
            n = fr.visits.get(fr.b, 0) + (0 if fr.visits.pop(('c', fr.b), False) else 1) if back else 1
            fr.visits[fr.b] = n
            key = (fr.f.name, fr.b)
            if key in self.invset and not back:
                work.extend(self.loop(st, fr, fr.b, L[fr.b])); return False
            if back and n > self.cfg['unroll']:
                if st.spec: raise Unsupported('loop in specification')
                raise NeedInvariant(key)
        self.phis(st, fr)
        return True
    def phis(self, st, fr):
        blk = fr.f.blocks[fr.b]; vals = []; i = 0
        while blk[i][0] == 'phi':
            ins = blk[i]
            for pb, v in ins[3]:
                if pb == fr.pb: vals.append((ins[1], self.op(st, fr, v))); break
            else: raise Unsupported('phi pred')
            i += 1
        for k, v in vals: fr.env[k] = v
        fr.i = i
    def goto(self, st, fr, b):
        fr.pb = fr.b; fr.b = b; fr.i = 0
        return 'jump'
    def i_br(self, st, fr, ins, work):
        if ins[3] is None: return self.goto(st, fr, ins[4])
        c = self.asbool(st, self.op(st, fr, ins[3]))
        if not isinstance(c, int):
            c = z3.simplify(c)
            if z3.is_true(c): c = 1
            elif z3.is_false(c): c = 0
        if isinstance(c, int):
            for h, bl in self.p.loops(fr.f).items():   # a counted loop: its exit test is decided concretely
                if fr.b in bl and (ins[4] in bl) != (ins[5] in bl): fr.visits[('c', h)] = True
            return self.goto(st, fr, ins[4] if c else ins[5])
        nc = z3.Not(c)
        ft = self.feasible(st, c)
        if not ft: st.pcs.append(nc); return self.goto(st, fr, ins[5])
        ff = self.feasible(st, nc)
        if not ff: st.pcs.append(c); return self.goto(st, fr, ins[4])
        # peephole: pure diamond of a select-like shape is executed by forking
        o = st.fork(); o.pcs.append(nc); of = o.frames[-1]
        of.pb = of.b; of.b = ins[5]; of.i = 0
        # continue 'o' later: needs its own jump processing
        work.append(self.pending(o))
        st.pcs.append(c)
        return self.goto(st, fr, ins[4])
    def pending(self, st):
        return PendingJump(st)
    def i_switch(self, st, fr, ins, work):
        v = self.op(st, fr, ins[3]); ty = ins[6]; w = int(ty[1:])
        v = self.toint(st, v, w)
        if isinstance(v, int):
            for c, b in ins[5]:
                if (c & ((1 << w) - 1)) == v: return self.goto(st, fr, b)
            return self.goto(st, fr, ins[4])
        alts = []; neg = []
        for c, b in ins[5]:
            e = bool_t(self.icmp(st, 'eq', v, c & ((1 << w) - 1), ty))
            alts.append((e, b)); neg.append(z3.Not(e))
        alts.append((z3.And(neg) if neg else z3.BoolVal(True), ins[4]))
        alts = [(e, b) for e, b in alts if self.feasible(st, e)]
        if not alts: raise PathEnd()
        for e, b in alts[1:]:
            o = st.fork(); o.pcs.append(e); of = o.frames[-1]; of.pb = of.b; of.b = b; of.i = 0
            work.append(self.pending(o))
        st.pcs.append(alts[0][0])
        return self.goto(st, fr, alts[0][1])
    def i_alloca(self, st, fr, ins, work):
        n = self.op(st, fr, ins[4])
        n = self.toint(st, n, 64)
        if not isinstance(n, int): raise Unsupported('dynamic alloca')
        r = self.new_region(st, ins[3] * n, 'stack', ins[6]); fr.allocas.append(r.id)
        fr.env[ins[1]] = Ptr(r.id, 0)
    def i_load(self, st, fr, ins, work): fr.env[ins[1]] = self.load(st, self.op(st, fr, ins[3]), ins[2], ins[-1])
    def i_store(self, st, fr, ins, work): self.store(st, self.op(st, fr, ins[4]), self.op(st, fr, ins[3]), ins[5], ins[-1])
    def i_gep(self, st, fr, ins, work):
        p = self.op(st, fr, ins[3])
        if isinstance(p, Undef): p = Ptr('?', 0)
        if isinstance(p, Packed) and len(p.c) == 1: p = p.c[0][2]
        if not isinstance(p, Ptr):
            if isinstance(p, PI): p = p.p
            else: raise Unsupported('gep base')
        if p.r == '?': fr.env[ins[1]] = p; return
        terms = [(self.op(st, fr, v), sc, ty) for v, sc, ty in ins[5]]
        fr.env[ins[1]] = Ptr(p.r, self.off_add(st, p.o, ins[4], terms))
    def i_bin(self, st, fr, ins, work):
        a, b = self.op(st, fr, ins[3][0]), self.op(st, fr, ins[3][1])
        fr.env[ins[1]] = self.iop(st, ins[0], a, b, ins[2], ins[4])
    def i_fbin(self, st, fr, ins, work):
        a, b = self.op(st, fr, ins[3][0]), self.op(st, fr, ins[3][1])
        if isinstance(ins[2], dict): fr.env[ins[1]] = [self.fop(st, ins[0], x, y) for x, y in zip(self.vec(st, a, ins[2]), self.vec(st, b, ins[2]))]
        else: fr.env[ins[1]] = self.fop(st, ins[0], a, b)
    def vec(self, st, v, ty):
        if isinstance(v, Undef): return [Undef(ty['a'][1])] * ty['a'][0]
        return v
    def fneg(self, a):
        if isinstance(a, (Fraction, float)): return -a
        a = self.real(a)
        return -a if self.cfg['real'] else z3.fpNeg(a)
    def i_fneg(self, st, fr, ins, work):
        a = self.op(st, fr, ins[3][0])
        fr.env[ins[1]] = self.fneg(a)
    def i_icmp(self, st, fr, ins, work): fr.env[ins[1]] = self.icmp(st, ins[3], self.op(st, fr, ins[4]), self.op(st, fr, ins[5]), ins[6])
    def i_fcmp(self, st, fr, ins, work):
        fr.env[ins[1]] = self.fcmp(st, ins[3], self.op(st, fr, ins[4]), self.op(st, fr, ins[5]))
    def i_select(self, st, fr, ins, work):
        c = self.asbool(st, self.op(st, fr, ins[3][0])); a, b = self.op(st, fr, ins[3][1]), self.op(st, fr, ins[3][2])
        if isinstance(c, int): fr.env[ins[1]] = a if c else b; return
        try:
            if self.cfg['forksel'] and (ins[2] == 'p' or self.cfg['forksel'] == 2 and ins[2] == 'i64'): raise Unsupported('choice of pointers')
            fr.env[ins[1]] = self.ite(st, c, a, b, ins[2])
        except Unsupported:
            if not self.feasible(st, c): st.pcs.append(z3.Not(c)); fr.env[ins[1]] = b; return
            if self.feasible(st, z3.Not(c)):
                o = st.fork(); o.pcs.append(z3.Not(c)); o.frames[-1].env[ins[1]] = b; o.frames[-1].i += 1; work.append(o)
            st.pcs.append(c); fr.env[ins[1]] = a
    def i_cast(self, st, fr, ins, work):
        v = self.op(st, fr, ins[3]); fr.env[ins[1]] = self.cast(st, ins[0], v, ins[4], ins[2])
    def cast(self, st, op, v, fty, ty):
        if isinstance(ty, dict) and op != 'bitcast': return [self.cast(st, op, x, fty['a'][1], ty['a'][1]) for x in self.vec(st, v, fty)]
        if isinstance(v, Undef):
            v = self.havoc(st, fty) if fty != 'p' else Ptr('?', 0)
        if op == 'ptrtoint': return PI(v) if not isinstance(v, PI) else v
        if op == 'inttoptr':
            if isinstance(v, PI): return v.p
            if isinstance(v, Packed) and len(v.c) == 1: return v.c[0][2]
            if v == 0: return NULL
            if isinstance(v, int): return Ptr(None, v)
            raise Unsupported('inttoptr')
        if op in ('zext', 'sext', 'trunc'):
            fw, w = int(fty[1:]), int(ty[1:])
            if fw == 1:
                b = self.asbool(st, v)
                if isinstance(b, int): return (b if op == 'zext' else (((1 << w) - 1) if b else 0))
                if self.cfg['bv'] and w > 8: return z3.If(b, z3.BitVecVal(1 if op == 'zext' else -1, w), z3.BitVecVal(0, w))
                if op == 'zext': return SI(z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, w, b)
                return SI(z3.If(b, z3.IntVal(-1), z3.IntVal(0)), -1, 0, w)
            if isinstance(v, Packed):
                if op == 'trunc':
                    for q in v.c:
                        if q[0] == 0 and q[1] * 8 == w: return q[2]
                if op == 'zext' : return v
            v = self.toint(st, v, fw)
            if isinstance(v, z3.BitVecRef):
                if op == 'zext': return z3.ZeroExt(w - fw, v)
                if op == 'sext': return z3.SignExt(w - fw, v)
                if w == 1: return z3.simplify(z3.Extract(0, 0, v) == 1)
                return z3.simplify(z3.Extract(w - 1, 0, v))
            if op == 'trunc':
                if w == 1: return self.asbool(st, v)
                if isinstance(v, int): return v & ((1 << w) - 1)
                return SI(v.t, v.lo, v.hi, w, v.b)
            if isinstance(v, int): return v if op == 'zext' else self.sgn(st, v, fw) & ((1 << w) - 1)
            if op == 'zext':
                t = self.uns(st, v, fw); lo, hi = (v.lo, v.hi) if v.lo >= 0 and v.hi < (1 << fw) else (0, (1 << fw) - 1)
                return SI(t, lo, hi, w, v.b)
            t = self.sgn(st, v, fw); lo, hi = (v.lo, v.hi) if v.lo >= -(1 << (fw - 1)) and v.hi < (1 << (fw - 1)) else (-(1 << (fw - 1)), (1 << (fw - 1)) - 1)
            return SI(t, lo, hi, w)
        if op in ('sitofp', 'uitofp'):
            fw = int(fty[1:])
            if fw == 1:
                b = self.asbool(st, v)
                if isinstance(b, int): return (Fraction(b) if self.cfg['real'] else float(b))
                return z3.If(b, self.real(Fraction(1)), self.real(Fraction(0)))
            v = self.toint(st, v, fw)
            if isinstance(v, z3.BitVecRef):
                if self.cfg['real']: return z3.ToReal(z3.BV2Int(v, op == 'sitofp'))
                return z3.fpSignedToFP(RNE, v, F64) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, v, F64)
            t = self.sgn(st, v, fw) if op == 'sitofp' else self.uns(st, v, fw)
            if isinstance(t, int): return Fraction(t) if self.cfg['real'] else float(t)
            if not self.cfg['real']: raise Unsupported('symbolic int to fp in fp mode')
            return z3.ToReal(t)
        if op in ('fptosi', 'fptoui'):
            w = int(ty[1:])
            if isinstance(v, (Fraction, float)):
                import math
                return math.trunc(v) & ((1 << w) - 1)
            if not self.cfg['real']:
                raise Unsupported('fptosi in fp mode')
            x = self.real(v)
            t = integral(x)
            if t is None: t = integral(z3.simplify(x))
            if t is None: t = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
            cond = z3.And(t >= lo, t <= hi)
            if not st.spec and not self.quick(st, cond):
                self.note(st, 'floating to integer conversion assumed in range'); st.pcs.append(cond)
            return SI(t, lo, hi, w)
        if op == 'fptrunc' and isinstance(v, Fraction): return Fraction(float(v))
        if op in ('fpext', 'fptrunc'): return v
        if op == 'bitcast':
            if isinstance(ty, dict) or isinstance(fty, dict): raise Unsupported('vector bitcast')
            return self.retype(st, v, fty, ty)
        raise Unsupported('cast ' + op)
    def i_extractvalue(self, st, fr, ins, work):
        v = self.op(st, fr, ins[3])
        if isinstance(v, Undef): fr.env[ins[1]] = Undef(ins[2]); return
        for k in ins[4]: v = v[k]
        fr.env[ins[1]] = v
    def i_insertvalue(self, st, fr, ins, work):
        a = self.op(st, fr, ins[3]); v = self.op(st, fr, ins[4])
        def build(ty):
            if 's' in ty: return [Undef(t) for _, t in ty['s']]
            return [Undef(ty['a'][1]) for _ in range(ty['a'][0])]
        def upd(agg, ty, path):
            if isinstance(agg, Undef): agg = build(ty)
            agg = list(agg); k = path[0]
            if len(path) == 1: agg[k] = v
            else: agg[k] = upd(agg[k], ty['s'][k][1] if 's' in ty else ty['a'][1], path[1:])
            return agg
        fr.env[ins[1]] = upd(a, ins[2], ins[5])
    def i_extractelement(self, st, fr, ins, work):
        v, k = self.op(st, fr, ins[3][0]), self.op(st, fr, ins[3][1])
        fr.env[ins[1]] = v[k] if not isinstance(v, Undef) else Undef(ins[2])
    def i_insertelement(self, st, fr, ins, work):
        v, x, k = (self.op(st, fr, o) for o in ins[3])
        v = list(self.vec(st, v, ins[2])); v[k] = x; fr.env[ins[1]] = v
    def i_shufflevector(self, st, fr, ins, work):
        a = self.vec(st, self.op(st, fr, ins[3]), ins[6]); b = self.vec(st, self.op(st, fr, ins[4]), ins[6])
        ab = list(a) + list(b); fr.env[ins[1]] = [ab[m] if m >= 0 else Undef(ins[2]['a'][1]) for m in ins[5]]
    def i_freeze(self, st, fr, ins, work):
        v = self.op(st, fr, ins[3][0]); fr.env[ins[1]] = self.havoc(st, v.ty) if isinstance(v, Undef) else v
    def i_fence(self, st, fr, ins, work): pass
    def i_atomicrmw(self, st, fr, ins, work):
        p, v = self.op(st, fr, ins[3][0]), self.op(st, fr, ins[3][1])
        old = self.load(st, p, ins[2], ins[-1]); fr.env[ins[1]] = old
        # only add/sub of reference counts occur; sign is in the operand
        self.store(st, p, self.iop(st, 'add', old, v, ins[2], 0), ins[2], ins[-1])
    def i_unreachable(self, st, fr, ins, work):
        if st.spec: raise PathEnd()
        self.prove(st, z3.BoolVal(False), 'reaches unreachable code (missing return / undefined behaviour)', self.where(st), 'safety'); raise PathEnd()
    def i_ret(self, st, fr, ins, work):
        v = self.op(st, fr, ins[3][0]) if ins[3] else None
        for a in fr.allocas: st.mem.pop(a, None)
        st.frames.pop()
        if fr.kind == 'stop': st.final = 'ret'; st.retval = v; return 'ret'
        if not st.frames: return 'ret'
        up = st.frames[-1]; ci = up.f.blocks[up.b][up.i]
        if fr.kind == 'try':
            up.env[ci[1]] = 0
        elif ci[1] >= 0: up.env[ci[1]] = v
        if ci[0] == 'invoke': return self.goto(st, up, ci[6])
        up.i += 1
        return 'call'
    def throw(self, st, what=''):
        while st.frames:
            fr = st.frames.pop()
            for a in fr.allocas: st.mem.pop(a, None)
            if fr.kind == 'stop': st.final = 'throw'; st.retval = None; return 'throw'
            if fr.kind == 'try':
                up = st.frames[-1]; ci = up.f.blocks[up.b][up.i]; up.env[ci[1]] = 1
                if ci[0] == 'invoke': return self.goto(st, up, ci[6])
                up.i += 1
                return 'call'
        if not self.cfg['may_throw']:
            self.prove(st, z3.BoolVal(False), 'terminates without an exception', what, 'exceptional')
        return 'throw'
    def i_call(self, st, fr, ins, work):
        callee = ins[3]
        if not isinstance(callee, str):
            cv = self.op(st, fr, callee)
            if isinstance(cv, Fn): callee = cv.n
            else: raise Unsupported('indirect call')
        args = [self.op(st, fr, a) if a is not None else None for a in ins[4]]
        return self.call(st, fr, ins, callee, args, work)
    def finish(self, st, fr, ins, v):
        if ins[1] >= 0: fr.env[ins[1]] = v
        if ins[0] == 'invoke': return self.goto(st, fr, ins[6])
        return None
    def call(self, st, fr, ins, callee, args, work):
        h = INTR.get(callee)
        dem = self.p.dem.get(callee, callee)
        if h is None:
            if callee.startswith('llvm.'): h = LLVM.get(callee.split('.')[1]) or LLVM.get('.'.join(callee.split('.')[1:3]))
            if h is None and callee.startswith('llvm.'): raise Unsupported(callee)
        if h is not None:
            r = h(self, st, fr, ins, args, work)
            if isinstance(r, Ctl): return r.k
            return self.finish(st, fr, ins, r)
        f = self.p.fn.get(callee)
        for rx in self.noop_re:
            if rx.search(dem): return self.finish(st, fr, ins, self.opaque(st, ins, args))
        if callee.startswith('vfspec_') and f is not None: return self.finish(st, fr, ins, self.specfn(st, f, args, ins))
        noop = NOOP.match(dem) or NOOP2.search(dem if 'ltI' not in callee else dem.replace('operator<<', 'operator< <'))
        if noop and f is not None and self.cfg['strings'] and STRINGS.search(dem): noop = None
        if f is None or noop:
            if dem.startswith('std::__throw_') or callee.startswith('_ZSt') and '__throw' in callee: return self.throw(st, dem)
            if noop or callee in ('__dynamic_cast',):
                return self.finish(st, fr, ins, self.opaque(st, ins, args))
            raise Unsupported('external function ' + dem)
        for rx in self.merge_re:
            if rx.search(dem):
                v = self.merged(st, f, args, ins)
                return self.finish(st, fr, ins, v)
        if len(st.frames) > 400: raise Unsupported('recursion depth')
        nf = Frame(f)
        for i, (v, a) in enumerate(zip(args, f.args)):
            if a[1]: # byval copy
                r = self.new_region(st, a[1], 'stack', a[2]); nf.allocas.append(r.id); self.memcpy(st, Ptr(r.id, 0), v, a[1], ''); v = Ptr(r.id, 0)
            nf.env[i] = v
        self.funcs_used.add(callee)
        st.frames.append(nf)
        return 'call'
    def opaque(self, st, ins, args):
        ty = ins[2]
        if ty == 'v': return None
        if ty == 'p': return args[0] if args and isinstance(args[0], Ptr) else Ptr('?', 0)
        return self.havoc(st, ty)
    # ---- merging evaluation of pure functions
    def eval_pure(self, st, f, args, extra=(), spec=True):
        """explore f from st in isolation; returns [(cond, value)] with cond
        relative to st.pcs.  Writes to outer memory are not propagated."""
        s = st.fork(); base = len(s.pcs); s.pcs.extend(extra)
        n0 = len(s.pcs)
        if spec: s.spec += 1
        fr = Frame(f); fr.kind = 'stop'
        for i, v in enumerate(args): fr.env[i] = v
        s.frames.append(fr); depth = len(s.frames)
        outs = self.explore([s], depth)
        res = []; memsame = True
        for o in outs:
            if o.done == 'throw':
                if not spec: res.append((o, None))
                continue
            res.append((o, o.retval))
        return res, n0
    def merged(self, st, f, args, ins):
        rs, n0 = self.eval_pure(st, f, args, (), spec=False)
        if not rs: raise PathEnd()
        if any(o.done == 'throw' for o, _ in rs): raise Unsupported('merged function throws')
        conds = []; vals = []
        for o, v in rs:
            for rid, r in o.mem.items():
                if rid in st.mem and r is not st.mem[rid] and (r.cells != st.mem[rid].cells) and r.kind != 'global': raise Unsupported('merged function writes memory')
            d, fs = self.split(o.pcs[n0:]); st.pcs.extend(fs)
            conds.append(z3.And(d) if d else z3.BoolVal(True)); vals.append(v)
        if ins[2] == 'v': return None
        if len(vals) == 1:
            self.assume(st, conds[0]); return vals[0]
        st.pcs.append(z3.Or(conds))
        return self.ite_chain(st, conds, vals, ins[2])
    def eval_bool(self, st, fname, args, extra=()):
        """boolean spec lambda -> (z3 Bool, list of side facts)"""
        f = self.p.fn[fname]; rs, n0 = self.eval_pure(st, f, args, extra)
        parts = []; seen = {c.get_id() for c in st.pcs}
        for o, v in rs:
            b = bool_t(self.asbool(st, self.icmp(o, 'ne', v, 0, 'i32')))
            d, fs = self.split(o.pcs[n0:])
            if extra:
                if fs: b = z3.Implies(z3.And(fs), b)
            else:
                for f in fs:
                    if f.get_id() not in seen: seen.add(f.get_id()); st.pcs.append(f)
            parts.append(z3.And(d + [b]) if d else b)
        if not parts: return z3.BoolVal(True) if not rs else z3.BoolVal(False)
        return z3.simplify(z3.Or(parts)) if len(parts) > 1 else parts[0]
    def specfn(self, st, f, args, ins):
        """recursive specification function: uninterpreted, one unfolding per use"""
        key = [f.name]; targs = []
        for v, a in zip(args, f.args):
            if a[0] == 'p':
                if isinstance(v, Ptr) and v.r is not None and v.r != '?':
                    r = self.reg(st, v.r)
                    if r.arr is not None: key.append(tuple((k, fl[2].get_id()) for k, fl in sorted(r.arr[1].items()))); self.keep.append([fl[2] for fl in r.arr[1].values()])
                    else: key.append(('cells', r.id, tuple(sorted((k, str(c[1])) for k, c in r.cells.items()))))
                    o = v.o
                    targs.append(z3.IntVal(o) if isinstance(o, int) else o.t)
                else: key.append('null')
            elif a[0][0] == 'i':
                w = int(a[0][1:])
                if w == 1: targs.append(bool_t(self.asbool(st, v)))
                else:
                    x = self.sgn(st, self.toint(st, v, w), w); targs.append(z3.IntVal(x) if isinstance(x, int) else x)
            else: targs.append(self.real(v))
        rty = f.ret
        rs = z3.RealSort() if rty == 'd' else (z3.BoolSort() if rty == 'i1' else z3.IntSort())
        kk = tuple(key)
        if kk not in self.defs: self.defs[kk] = z3.Function(f'{f.name}#{len(self.defs)}', *[t.sort() for t in targs], rs)
        F = self.defs[kk]; app = F(*targs)
        def wrap(t):
            if rty == 'd' or rty == 'i1': return t
            w = int(rty[1:]); return SI(t, -(1 << (w - 1)), (1 << (w - 1)) - 1, w)
        uk = ('unf', app.get_id())
        if uk in st.known or getattr(self, '_unf', 0) >= 1: return wrap(app)
        st.known[uk] = True; self.keep.append(app)
        self._unf = getattr(self, '_unf', 0) + 1
        try:
            rs_, n0 = self.eval_pure(st, f, args)
        finally: self._unf -= 1
        for o, v in rs_:
            d, fs = self.split(o.pcs[n0:]); st.pcs.extend(fs)
            if rty == 'd': t = app == self.real(v)
            elif rty == 'i1': t = app == bool_t(self.asbool(st, v))
            else:
                w = int(rty[1:]); x = self.sgn(o, self.toint(st, v, w), w); t = app == x
            self.fact(st, z3.Implies(z3.And(d), t) if d else t)
        return wrap(app)
    # ---- loops
    def lvars(self, st, fr, h, blocks):
        vs = []
        for ins in fr.f.blocks[h]:
            if ins[0] != 'phi': break
            vs.append(('phi', ins[1], ins[2]))
        return vs
    def loop(self, st, fr, h, blocks):
        """cut the loop with header h by an inferred invariant; st is at the
        loop entry edge.  Returns the states continuing after the loop."""
        depth = len(st.frames); self.phis(st, fr)
        entry = st
        phis = self.lvars(st, fr, h, blocks)
        fr.i = len(phis)
        mods = {}     # (rid, off) -> (size, ty)  |  (rid,'arr',f) -> None
        invdepth = getattr(self, 'invdepth', 0)
        self.invdepth = invdepth + 1
        saved = (len(self.obls), len(self.failed))
        signedphi = self.signed_phis(fr.f, blocks)
        try:
            for it in range(8):
                s, vars_ = self.havoc_loop(entry, phis, mods, signedphi)
                s.writes = set()
                self.quiet = getattr(self, 'quiet', 0) + 1
                try: outs = self.explore([PendingJump(s, True)], None, (depth, fr.f.name, h, blocks))
                finally: self.quiet -= 1
                del self.obls[saved[0]:]; del self.failed[saved[1]:]
                new = {}
                for w in s.writes:
                    if w[0] not in entry.mem: continue
                    if w[1] == 'arr': new[(w[0], 'arr', w[2])] = None
                    elif w[3] == 'memset': raise Unsupported('memset in symbolic loop')
                    else: new[(w[0], w[1])] = (w[2], w[3])
                add = {k: v for k, v in new.items() if k not in mods}
                if not add: break
                mods.update(add)
            else: raise Unsupported('loop modifies set did not stabilise')
            # candidates
            cands = self.candidates(entry, vars_, s, fr, h, blocks)
            # Houdini
            cands = [c for c in cands if self.cand_holds(entry, c, self.entry_vals(entry, vars_))]
            for it in range(60):
                s, vars2 = self.havoc_loop(entry, phis, mods, signedphi)
                hv = self.entry_vals(s, vars2)
                for c in cands:
                    e = self.cand_eval(s, c, hv, assume=True)
                    if e is not None and not z3.is_true(e): s.pcs.append(e)
                s.writes = set()
                self.quiet += 1
                try: outs = self.explore([PendingJump(s, True)], None, (depth, fr.f.name, h, blocks))
                finally: self.quiet -= 1
                fl = self.failed[saved[1]:]
                obl = self.obls[saved[0]:]
                del self.obls[saved[0]:]; del self.failed[saved[1]:]
                drop = set()
                for o in outs:
                    if o.done != 'back': continue
                    of = o.frames[-1]; self.phis(o, of)
                    bv = self.entry_vals(o, vars2)
                    for i, c in enumerate(cands):
                        if i in drop: continue
                        if not self.cand_holds(o, c, bv): drop.add(i)
                if not drop: break
                cands = [c for i, c in enumerate(cands) if i not in drop]
            else: raise Unsupported('Houdini did not converge')
        finally:
            self.invdepth = invdepth
        for c in cands:
            self.houdini.append(c.desc)
            self.obls.append(Obl(f'loop invariant {c.desc} ({fr.f.name}:{h})', 'proved', 'z3', 0, None, '', 'invariant'))
        self.obls.extend(obl); self.failed.extend(fl)
        res = []
        for o in outs:
            if o.done == 'exit':
                o.done = None
                o.writes = entry.writes
                if entry.writes is not None:
                    for k, v in mods.items():
                        entry.writes.add((k[0], 'arr', k[2]) if k[1] == 'arr' else (k[0], k[1], v[0], v[1]))
                res.append(PendingJump(o) if o.pend else o)
        return res
    def signed_phis(self, f, blocks):
        s = set()
        for b in blocks:
            for ins in f.blocks[b]:
                if ins[0] == 'icmp' and ins[3][0] == 's': s.update(x for x in ins[4:6] if isinstance(x, int))
                elif ins[0] in ('add', 'sub', 'mul') and ins[4] & 1: s.update(x for x in ins[3] if isinstance(x, int))
                elif ins[0] in ('sext', 'sitofp'): s.add(ins[3]) if isinstance(ins[3], int) else None
        return s
    def havoc_loop(self, entry, phis, mods, signedphi):
        s = entry.fork(); fr = s.frames[-1]; vs = []
        for _, k, ty in phis:
            v = fr.env[k]
            if ty == 'p':
                if isinstance(v, Ptr) and v.r not in (None, '?'):
                    t = self.fresh('lp', z3.IntSort()); nv = Ptr(v.r, SI(t, -(1 << 62), 1 << 62, 64))
                    s.pcs.append(z3.And(t >= -(1 << 62), t <= 1 << 62))
                else: nv = v
            elif isinstance(ty, str): nv = self.havoc(s, ty, 'lv', signed=(k in signedphi))
            else: raise Unsupported('aggregate phi')
            fr.env[k] = nv; vs.append((('phi', k), ty))
        for key, m in mods.items():
            if key[1] == 'arr':
                r = self.wreg(s, key[0]); fl = r.arr[1][key[2]]; r.arr[1][key[2]] = fl[:2] + (self.fresh('la', fl[2].sort()),) + fl[3:]
                vs.append((('arr', key[0], key[2]), 'arr'))
            else:
                size, ty = m; r = self.wreg(s, key[0]); old = r.cells.get(key[1])
                if ty == 'p':
                    v = old[1] if old else None
                    if isinstance(v, Ptr) and v.r not in (None, '?'):
                        t = self.fresh('lp', z3.IntSort()); nv = Ptr(v.r, SI(t, -(1 << 62), 1 << 62, 64)); s.pcs.append(z3.And(t >= -(1 << 62), t <= 1 << 62))
                    elif v is None: nv = Undef('p')
                    else: raise Unsupported('loop changes pointer object')
                else:
                    sg = isinstance(old and old[1], SI) and old[1].lo < 0
                    nv = self.havoc(s, ty, 'lm', signed=sg)
                self.store_c(s, r, key[1], size, nv, ty)
                vs.append((('mem', key[0], key[1], size), ty))
        return s, vs
    def entry_vals(self, st, vars_):
        fr = st.frames[-1]; out = []
        for d, ty in vars_:
            if d[0] == 'phi': out.append((d, ty, fr.env[d[1]]))
            elif d[0] == 'mem':
                c = st.mem[d[1]].cells.get(d[2]) if d[1] in st.mem else None
                out.append((d, ty, c[1] if c is not None and c[0] == d[3] else Undef(ty)))
            else: out.append((d, ty, None))
        return out
    def candidates(self, entry, vars_, hs, fr, h, blocks):
        ev = self.entry_vals(entry, vars_); cs = []
        ints = [i for i, (d, ty, v) in enumerate(ev) if isinstance(ty, str) and ty[0] == 'i' and ty not in ('i1', 'i8') and not isinstance(v, (Undef, PI, Packed))]
        ptrs = [i for i, (d, ty, v) in enumerate(ev) if ty == 'p' and isinstance(v, Ptr) and v.r not in (None, '?')]
        reals = [i for i, (d, ty, v) in enumerate(ev) if ty in ('d', 'f')]
        bools = [i for i, (d, ty, v) in enumerate(ev) if ty in ('i1', 'i8')]
        def T(st, v, ty):
            if isinstance(v, Ptr): return z3.IntVal(v.o) if isinstance(v.o, int) else v.o.t
            w = int(ty[1:]); v = self.toint(st, v, w)
            if isinstance(v, int):
                return z3.IntVal(self.sgn(st, v, w))
            return v.t
        # bounding terms: loop-invariant integers compared in the loop
        bnds = []
        f = fr.f
        defined = {ins[1] for b in blocks for ins in f.blocks[b]}
        for b in blocks:
            for ins in f.blocks[b]:
                if ins[0] == 'icmp':
                    for o in ins[4:6]:
                        if isinstance(o, int) and o not in defined and o in fr.env:
                            v = fr.env[o]
                            if isinstance(v, (SI, Ptr)) or isinstance(v, int): bnds.append(v)
                        elif isinstance(o, list) and o[0] == 'i': bnds.append(o[2])
        # all symbolic sizes / ints in inputs are potential bounds
        for name, idx, t in self.inputs:
            if z3.is_int(t) and len(self.inputs) < 40: bnds.append(SI(t, -(1 << 62), 1 << 62, 64))
        def bt(v):
            if isinstance(v, Ptr): return (v.r, z3.IntVal(v.o) if isinstance(v.o, int) else v.o.t)
            if isinstance(v, int): return (None, z3.IntVal(v))
            return (None, v.t)
        bts = []; seen = set()
        for v in bnds:
            r, t = bt(v)
            if (r, t.get_id()) not in seen: seen.add((r, t.get_id())); bts.append((r, t)); self.keep.append(t)
        for i in ints:
            e = T(entry, ev[i][2], ev[i][1])
            cs.append(Cand(f'v{i}>=init', lambda vs, st, i=i, e=e: T(st, vs[i][2], vs[i][1]) >= e))
            cs.append(Cand(f'v{i}<=init', lambda vs, st, i=i, e=e: T(st, vs[i][2], vs[i][1]) <= e))
            cs.append(Cand(f'v{i}>=0', lambda vs, st, i=i: T(st, vs[i][2], vs[i][1]) >= 0))
            for r, t in bts:
                if r is None: 
                    cs.append(Cand(f'v{i}<={t}', lambda vs, st, i=i, t=t: T(st, vs[i][2], vs[i][1]) <= t))
                    cs.append(Cand(f'v{i}<{t}', lambda vs, st, i=i, t=t: T(st, vs[i][2], vs[i][1]) < t))
        for i in ptrs:
            e = T(entry, ev[i][2], 'p'); reg = ev[i][2].r
            cs.append(Cand(f'p{i}>=init', lambda vs, st, i=i, e=e: T(st, vs[i][2], 'p') >= e))
            cs.append(Cand(f'p{i}<=init', lambda vs, st, i=i, e=e: T(st, vs[i][2], 'p') <= e))
            for r, t in bts:
                if r == reg: cs.append(Cand(f'p{i}<=end', lambda vs, st, i=i, t=t: T(st, vs[i][2], 'p') <= t))
            rg = entry.mem.get(reg)
            if rg is not None and rg.arr is not None and (not ints):
                stx = rg.arr[0]
                cs.append(Cand(f'p{i} aligned', lambda vs, st, i=i, e=e, stx=stx: (T(st, vs[i][2], 'p') - e) % stx == 0))
        # linear relations between variables
        allv = [(i, 'int') for i in ints] + [(i, 'ptr') for i in ptrs]
        for (i, ki), (j, kj) in itertools.permutations(allv, 2):
            ei, ej = T(entry, ev[i][2], ev[i][1]), T(entry, ev[j][2], ev[j][1])
            scales = (1, -1) if ki == kj == 'int' else ((4, 8, 12, 16, 24, 1, 2) if ki == 'ptr' and kj == 'int' else ((1, ) if ki == kj else ()))
            if ki == kj == 'ptr': scales = (1, 2, 3)
            for k in scales:
                cs.append(Cand(f'v{i}-init=={k}*(v{j}-init)', lambda vs, st, i=i, j=j, k=k, ei=ei, ej=ej: T(st, vs[i][2], vs[i][1]) - ei == k * (T(st, vs[j][2], vs[j][1]) - ej)))
        for i in reals + bools:
            v = ev[i][2]
            if isinstance(v, Undef): continue
            if i in reals: cs.append(Cand(f'r{i}==init', lambda vs, st, i=i, v=v: self.real(vs[i][2]) == self.real(v)))
            elif isinstance(v, (int, z3.BoolRef, SI)):
                cs.append(Cand(f'b{i}==init', lambda vs, st, i=i, v=v: bool_t(self.icmp(st, 'eq', vs[i][2], v, vs[i][1]))))
        # user templates
        for (name, sig, fn, ctx) in entry.invs:
            pools = []
            for ch in sig:
                pools.append({'i': ints + ptrs, 'r': reals, 'b': bools}[ch])
            for combo in itertools.product(*pools):
                if len(set(combo)) != len(combo): continue
                cs.append(Cand(f'{name}{list(combo)}', None, tmpl=(fn, ctx, sig, combo)))
        return cs
    def cand_eval(self, st, c, vals, assume=False):
        if c.tmpl is None: return c.f(vals, st)
        fn, ctx, sig, combo = c.tmpl; args = [ctx]
        for ch, i in zip(sig, combo):
            d, ty, v = vals[i]
            if isinstance(v, Undef): return None if assume else z3.BoolVal(False)
            if ch == 'i':
                if isinstance(v, Ptr):
                    o = v.o; base = 0
                    r = st.mem.get(v.r); stride = r.arr[0] if r is not None and r.arr is not None else 8
                    if isinstance(o, int): v2 = (o // stride) & ((1 << 64) - 1)
                    else:
                        cst, ts = self.linear(o.t)
                        if cst % stride == 0 and all(k % stride == 0 for k, _ in ts):
                            q = z3.IntVal(cst // stride)
                            for k, x in ts: q = q + (k // stride) * x
                            v2 = SI(z3.simplify(q), -(1 << 62), 1 << 62, 64)
                        else: v2 = SI(o.t / stride, -(1 << 62), 1 << 62, 64)
                    args.append(v2)
                else:
                    w = int(ty[1:]); v = self.toint(st, v, w)
                    if isinstance(v, int): args.append(self.sgn(st, v, w) & ((1 << 64) - 1))
                    else: args.append(SI(v.t, v.lo, v.hi, 64))
            elif ch == 'b': args.append(self.asbool(st, v))
            else: args.append(v)
        try: return self.eval_bool(st, fn, args)
        except (Unsupported, PathEnd): return None if assume else z3.BoolVal(False)
    def cand_holds(self, st, c, vals):
        s = st.fork()
        n = len(s.pcs)
        e = self.cand_eval(s, c, vals)
        if e is None: return False
        if not z3.is_bool(e): return False
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if c.tmpl is None:
            return self.quick(s, e)
        o = self.prove(s, e, 'cand', '', 'inv', record=False, to=8000)
        return o.status == 'proved'

class Cand:
    __slots__ = ('desc', 'f', 'tmpl')
    def __init__(s, d, f, tmpl=None): s.desc = d; s.f = f; s.tmpl = tmpl

class Ctl:
    def __init__(s, k): s.k = k

class PendingJump:
    """a state positioned at the start of a block (jump not yet processed)"""
    def __init__(s, st, athead=False): s.st = st; s.athead = athead

E = Engine
Engine.dispatch = {'br': E.i_br, 'switch': E.i_switch, 'alloca': E.i_alloca, 'load': E.i_load, 'store': E.i_store, 'getelementptr': E.i_gep,
    'icmp': E.i_icmp, 'fcmp': E.i_fcmp, 'select': E.i_select, 'call': E.i_call, 'invoke': E.i_call, 'ret': E.i_ret, 'extractvalue': E.i_extractvalue,
    'insertvalue': E.i_insertvalue, 'extractelement': E.i_extractelement, 'insertelement': E.i_insertelement, 'shufflevector': E.i_shufflevector,
    'fneg': E.i_fneg, 'freeze': E.i_freeze, 'unreachable': E.i_unreachable, 'atomicrmw': E.i_atomicrmw, 'fence': E.i_fence}
for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'): Engine.dispatch[_o] = E.i_bin
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): Engine.dispatch[_o] = E.i_fbin
for _o in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'): Engine.dispatch[_o] = E.i_cast

from intrinsics import INTR, LLVM  # noqa: E402
