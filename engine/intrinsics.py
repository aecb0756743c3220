"""Models of the functions outside the extracted IR (trusted base)."""
import math
from fractions import Fraction
import z3
from vcgen import *
import vcgen as V

def cstr(E, st, p):
    if isinstance(p, Ptr) and p.r in st.mem:
        r = st.mem[p.r]; o = p.o; s = ''
        while True:
            c = r.cells.get(o)
            if c is None or c[1] == 0: return s
            s += chr(c[1]); o += 1
    return '?'
def idx(E, st, v):
    v = E.sgn(st, v, 64) if isinstance(v, int) else 0
    return v
def in_real(E, st, fr, ins, a, work):
    t = z3.Const(f'{cstr(E, st, a[0])}[{idx(E, st, a[1])}]', z3.RealSort() if E.cfg['real'] else F64)
    if not E.cfg['real']: st.pcs.append(z3.Not(z3.Or(z3.fpIsNaN(t), z3.fpIsInf(t))))
    E.inputs.append((cstr(E, st, a[0]), idx(E, st, a[1]), t))
    return t
def in_real_range(E, st, fr, ins, a, work):
    t = in_real(E, st, fr, ins, a, work); lo, hi = a[2], a[3]
    if E.cfg['real']: st.pcs.append(z3.And(t >= E.real(lo), t <= E.real(hi)))
    else: st.pcs.append(z3.And(z3.fpGEQ(t, E.real(lo)), z3.fpLEQ(t, E.real(hi))))
    return t
def in_int(E, st, fr, ins, a, work):
    name = cstr(E, st, a[0]); i = idx(E, st, a[1])
    lo, hi = a[2], a[3]
    lo = E.sgn(st, lo, 64) if isinstance(lo, int) else lo; hi = E.sgn(st, hi, 64) if isinstance(hi, int) else hi
    if E.cfg['bv']:
        bits = a[4]
        t = z3.BitVec(f'{name}[{i}]', 64); st.pcs.append(z3.And(t >= lo, t <= hi)); E.inputs.append((name, i, t)); return t
    t = z3.Int(f'{name}[{i}]'); E.inputs.append((name, i, t))
    l = lo if isinstance(lo, int) else E.sgn(st, lo, 64); h = hi if isinstance(hi, int) else E.sgn(st, hi, 64)
    st.pcs.append(z3.And(t >= l, t <= h))
    if isinstance(lo, int) and isinstance(hi, int):
        if lo == 0 and hi == 1:
            b = z3.Bool(f'{name}[{i}]b'); st.pcs.append(b == (t == 1)); return SI(t, 0, 1, 64, b)
        if lo == hi: return lo & ((1 << 64) - 1)
    return SI(t, lo if isinstance(lo, int) else lo.lo, hi if isinstance(hi, int) else hi.hi, 64)
def vf_assume(E, st, fr, ins, a, work):
    c = E.icmp(st, 'ne', a[0], 0, 'i32')
    if isinstance(c, int):
        if not c: raise PathEnd()
        return None
    if not E.feasible(st, c): raise PathEnd()
    E.assume(st, c)
def vf_check(E, st, fr, ins, a, work):
    lab = cstr(E, st, a[1]); E.covers[lab] = E.covers.get(lab, 0) + 1
    c = E.icmp(st, 'ne', a[0], 0, 'i32')
    o = E.prove(st, bool_t(c), lab, E.where(st), 'ensures')
    if o.status == 'proved' and not isinstance(c, int): st.pcs.append(z3.simplify(c))
def vf_cover(E, st, fr, ins, a, work):
    lab = cstr(E, st, a[0]); E.covers[lab] = E.covers.get(lab, 0) + 1
def b2i(c):
    if isinstance(c, int): return c
    c = z3.simplify(c)
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return SI(z3.If(c, z3.IntVal(1), z3.IntVal(0)), 0, 1, 32, c)
def vf_eqr(E, st, fr, ins, a, work):
    x, y = a
    if isinstance(x, (Fraction, float)) and isinstance(y, (Fraction, float)):
        if E.cfg['real']: return int(x == y or abs(x - y) < Fraction(1, 10**9)*(1+abs(x)) )
        return int(x == y or (x != x and y != y))
    x, y = E.real(x), E.real(y)
    return b2i(x == y) if E.cfg['real'] else b2i(z3.fpEQ(x, y))
def vf_isint(E, st, fr, ins, a, work):
    x = a[0]
    if isinstance(x, (Fraction, float)): return int(Fraction(x).denominator == 1)
    if not E.cfg['real']: return b2i(z3.fpEQ(x, z3.fpRoundToIntegral(RNE, x)))
    x = E.real(x)
    return b2i(intish(x))
def intish(x):
    """formula for 'x is an integer', pushed through sums and conditionals"""
    x = z3.simplify(x, som=True)
    def go(x):
        if z3.is_rational_value(x): return z3.BoolVal(x.denominator_as_long() == 1)
        if z3.is_to_real(x): return z3.BoolVal(True)
        if z3.is_app_of(x, z3.Z3_OP_ITE): return z3.If(x.arg(0), intish(x.arg(1)), intish(x.arg(2)))
        if z3.is_add(x):
            cs = x.children()
            ites = [c for c in cs if z3.is_app_of(c, z3.Z3_OP_ITE) or (z3.is_mul(c) and c.num_args() == 2 and z3.is_app_of(c.arg(1), z3.Z3_OP_ITE))]
            if ites:
                c = ites[0]; rest = [d for d in cs if not d.eq(c)]; k = z3.RealVal(1)
                if z3.is_mul(c): k = c.arg(0); c = c.arg(1)
                r = z3.Sum(rest) if rest else z3.RealVal(0)
                return z3.If(c.arg(0), intish(r + k * c.arg(1)), intish(r + k * c.arg(2)))
            rest = [c for c in cs if not (z3.is_to_real(c) or (z3.is_mul(c) and c.num_args() == 2 and z3.is_rational_value(c.arg(0)) and c.arg(0).denominator_as_long() == 1 and z3.is_to_real(c.arg(1))))]
            if not rest: return z3.BoolVal(True)
            if len(rest) < len(cs): return go(z3.Sum(rest) if len(rest) > 1 else rest[0])
        if z3.is_mul(x) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and x.arg(0).denominator_as_long() == 1 and z3.is_to_real(x.arg(1)): return z3.BoolVal(True)
        return z3.IsInt(x)
    return go(x)
def vf_try(E, st, fr, ins, a, work):
    fn = a[0]
    f = E.p.fn[fn.n]; nf = Frame(f); nf.kind = 'try'; nf.env[0] = a[1]; st.frames.append(nf); return V.Ctl('call')
def quant(E, st, a, forall):
    lo, hi = a[0], a[1]
    lo = E.sgn(st, lo, 64); hi = E.sgn(st, hi, 64)
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
        acc = []
        for k in range(lo, hi): acc.append(E.eval_bool(st, a[2].n, [a[3], k & ((1 << 64) - 1)]))
        return b2i(z3.And(acc) if forall else z3.Or(acc)) if acc else int(forall)
    E.nfresh += 1; k = z3.Int(f'q!{E.nfresh}')
    kv = SI(k, -(1 << 62), 1 << 62, 64)
    rng = z3.And(k >= lo, k < hi)
    b = E.eval_bool(st, a[2].n, [a[3], kv], extra=[rng])
    # eval_bool's path conditions start after 'extra'
    return b2i(z3.ForAll([k], z3.Implies(rng, b)) if forall else z3.Exists([k], z3.And(rng, b)))
def vf_forall(E, st, fr, ins, a, work): return quant(E, st, a, True)
def vf_exists(E, st, fr, ins, a, work): return quant(E, st, a, False)
def vf_invariant(E, st, fr, ins, a, work):
    st.invs.append((cstr(E, st, a[0]), cstr(E, st, a[1]), a[2].n, a[3]))
def vf_array(E, st, fr, ins, a, work):
    name = cstr(E, st, a[0]); n = E.uns(st, E.toint(st, a[1], 64), 64); es = a[2]; kind = a[3]
    lo, hi = E.sgn(st, a[4], 64), E.sgn(st, a[5], 64)
    if kind == 0: sort = z3.RealSort(); ty = 'd' if es == 8 else 'f'
    else: sort = z3.IntSort(); ty = f'i{8*es}'
    arr = z3.Array(name, z3.IntSort(), sort)
    size = n * es
    sz = size if isinstance(size, int) else SI(z3.simplify(size), 0, 1 << 62, 64)
    r = E.new_region(st, sz, 'heap', name)
    if kind:
        k = z3.Int(f'k!{name}'); 
        st.pcs.append(z3.ForAll([k], z3.And(z3.Select(arr, k) >= lo, z3.Select(arr, k) <= hi), patterns=[z3.Select(arr, k)]))
    r.arr = (es, {0: (es, ty, arr, (lo, hi), False)})
    E.inputs.append((name, -2, arr))
    return Ptr(r.id, 0)
def op_new(E, st, fr, ins, a, work):
    n = E.toint(st, a[0], 64)
    u = E.uns(st, n, 64)
    if not isinstance(u, int): u = z3.simplify(u)
    if not isinstance(u, int) and z3.is_int_value(u): u = u.as_long()
    if isinstance(u, int):
        if u > 1 << 40: return V.Ctl(E.throw(st, 'bad_alloc'))
        r = E.new_region(st, u, 'heap'); return Ptr(r.id, 0)
    r = E.new_region(st, SI(u, 0, 1 << 62, 64), 'heap'); 
    # symbolic size: element type discovered at first access
    return Ptr(r.id, 0)
def op_delete(E, st, fr, ins, a, work):
    p = a[0]
    if isinstance(p, Ptr) and p.r in st.mem and p.r not in (None, '?'): E.wreg(st, p.r).freed = True
def memcpy(E, st, fr, ins, a, work):
    E.memcpy(st, a[0], a[1], a[2], ins[-1]); return a[0]
def memset(E, st, fr, ins, a, work):
    E.memset(st, a[0], a[1], a[2], ins[-1]); return a[0]
def memcmp(E, st, fr, ins, a, work):
    n = a[2]
    if not isinstance(n, int): raise Unsupported('memcmp')
    if n == 0: return 0
    res = []
    p, q = E.deref(st, a[0], ''), E.deref(st, a[1], '')
    r1, r2 = E.reg(st, p.r), E.reg(st, q.r)
    k = 0
    while k < n:
        c = r1.cells.get(p.o + k)
        step = c[0] if c is not None else (8 if n - k >= 8 else 1); ty = c[2] if c is not None else f'i{8*step}'
        x, y = E.load(st, Ptr(p.r, p.o + k), ty), E.load(st, Ptr(q.r, q.o + k), ty)
        if ty[0] != 'i': raise Unsupported('memcmp types')
        e = E.icmp(st, 'eq', x, y, ty); res.append(bool_t(e)); k += step
    c = z3.simplify(z3.And(res))
    if z3.is_true(c): return 0
    t = E.fresh('mc', z3.IntSort()); st.pcs.append(z3.And(t >= -128, t <= 128, (t == 0) == c))
    return SI(t, -128, 128, 32)
def strlen(E, st, fr, ins, a, work): return len(cstr(E, st, a[0]))
def strchr(E, st, fr, ins, a, work):
    s, c = cstr(E, st, a[0]), a[1]
    if not isinstance(c, int): raise Unsupported('strchr of a symbolic character')
    s = s.encode() if isinstance(s, str) else bytes(s); k = (s + b'\0').find(bytes([c & 255]))
    p = E.deref(st, a[0], '')
    return NULL if k < 0 else Ptr(p.r, p.o + k)
def str_disjunct(E, st, fr, ins, a, work):
    # whether a character is outside of the string's buffer; different allocations never overlap
    d, x = E.load(st, a[0], 'p', ins[-1]), E.deref(st, a[1], '')
    if not isinstance(d, Ptr) or not isinstance(x, Ptr): raise Unsupported('_M_disjunct')
    if d.r != x.r: return True
    n = E.load(st, Ptr(a[0].r, E.off_add(st, a[0].o, 8, [])), 'i64', ins[-1])
    if not all(isinstance(y, int) for y in (d.o, x.o, n)): raise Unsupported('_M_disjunct of symbolic positions')
    return x.o < d.o or x.o > d.o + n
def cxa_throw(E, st, fr, ins, a, work): return V.Ctl(E.throw(st, E.where(st)))
def alloc_exc(E, st, fr, ins, a, work):
    r = E.new_region(st, None, 'heap', 'exception'); return Ptr(r.id, 0)
def nop(E, st, fr, ins, a, work): return 0 if ins[2] not in ('v', 'p') else (NULL if ins[2] == 'p' else None)
def one(E, st, fr, ins, a, work): return 1
def abort(E, st, fr, ins, a, work):
    if st.spec: raise PathEnd()
    E.prove(st, z3.BoolVal(False), 'assertion/abort in the code is unreachable', E.where(st), 'safety'); raise PathEnd()
def vf_native(E, st, fr, ins, a, work): return 0

# ---- floating point library
def f1(conc, real, fp=None):
    def h(E, st, fr, ins, a, work):
        x = a[0]
        if isinstance(x, list): return [g(E, st, y) for y in x]
        return g(E, st, x)
    def g(E, st, x):
        if isinstance(x, Undef): x = E.havoc(st, 'd')
        if isinstance(x, (Fraction, float)) and conc is not None:
            r = conc(x)
            return Fraction(r) if E.cfg['real'] and not (isinstance(r, float) and (r != r or abs(r) == float('inf'))) else float(r)
        if E.cfg['real']: return real(E, st, E.real(x))
        if fp is None: raise Unsupported('fp library function')
        return fp(E, st, E.real(x))
    return h
def r_floor(E, st, x): return z3.ToReal(z3.ToInt(x))
def r_ceil(E, st, x): return -z3.ToReal(z3.ToInt(-x))
ZERO = object()
def r_round(E, st, x):
    xs = z3.simplify(x); n = uf_int('round')(xs); k = ('round', n.get_id())
    if k not in st.known:
        st.known[k] = True; E.keep.append(n); r, h = z3.ToReal(n), z3.Q(1, 2)
        E.fact(st, z3.And(r - h <= xs, xs <= r + h, z3.Implies(xs >= 0, xs < r + h), z3.Implies(xs < 0, xs > r - h)))
        if E.quick(st, n == 0): st.known[k] = ZERO
    return Fraction(0) if st.known[k] is ZERO else z3.ToReal(n)
def r_trunc(E, st, x): return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
def r_rint(E, st, x):
    f = z3.ToInt(x + z3.Q(1, 2)); tie = x + z3.Q(1, 2) == z3.ToReal(f)
    return z3.ToReal(z3.If(z3.And(tie, f % 2 != 0), f - 1, f))
def c_round(x): return Fraction(math.floor(x + Fraction(1, 2))) if x >= 0 else -Fraction(math.floor(-x + Fraction(1, 2)))
def c_num(f):
    def g(x):
        if isinstance(x, float) and (x != x or abs(x) == float('inf')): return x
        return f(Fraction(x))
    return g
def r_abs(E, st, x): return z3.If(x >= 0, x, -x)
UF = {}
def uf(name, n=1):
    if name not in UF: UF[name] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return UF[name]
def uf_int(name):
    if name not in UF: UF[name] = z3.Function(name, z3.RealSort(), z3.IntSort())
    return UF[name]
def r_sqrt(E, st, x):
    xs = z3.simplify(x, som=True)
    s = uf('sqrt')(xs)
    k = ('sqrt', s.get_id())
    if k not in st.known:
        st.known[k] = True; E.keep.append(s)
        E.fact(st, z3.Implies(xs >= 0, z3.And(s >= 0, s * s == xs)))
        E.sqrt_rules[s.get_id()] = (s, xs)
        if E.quick(st, xs > 0): E.fact(st, s > 0)
        if not st.spec and not E.quick(st, xs >= 0):
            try:
                P = E.roots(st); ok = s.get_id() in P.subst
            except NotPoly: ok = False
            if ok: E.fact(st, xs >= 0); E.fact(st, z3.And(s >= 0, s * s == xs)); return s
            E.note(st, 'sqrt of a negative number excluded'); st.pcs.append(xs >= 0)
    return s
def c_sqrt(x):
    x = Fraction(x)
    if x < 0: return float('nan')
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
    return math.sqrt(x)
def trig(name):
    def g(E, st, x):
        xs = z3.simplify(x); sg = 1
        if z3.is_mul(xs) and xs.num_args() == 2 and z3.is_rational_value(xs.arg(0)) and xs.arg(0).as_fraction() < 0: xs = z3.simplify(-xs); sg = -1   # even and odd
        c, s = uf('cos')(xs), uf('sin')(xs); k = ('trig', c.get_id())
        if k not in st.known:
            st.known[k] = True; E.keep.append((c, s))
            E.fact(st, c * c + s * s == 1)
            E.sqrt_rules[s.get_id()] = (s, 1 - c * c)   # sin^2 -> 1-cos^2
        return c if name == 'cos' else (s if sg > 0 else -s)
    return g
def atan2_(E, st, fr, ins, a, work):
    """polar coordinates of a point"""
    t = ufn('atan2', 2)(E, st, fr, ins, a, work)
    if not z3.is_expr(t): return t
    y, x = E.real(a[0]), E.real(a[1]); k = ('atan2', t.get_id())
    if k not in st.known:
        st.known[k] = True; c, s = trig('cos')(E, st, t), trig('sin')(E, st, t); r = uf('atan2_radius', 2)(y, x); E.keep.append((t, r))
        E.fact(st, z3.And(r >= 0, r * r == x * x + y * y)); E.fact(st, r * c == x); E.fact(st, r * s == y)
    return t
def acos_(E, st, fr, ins, a, work):
    t = ufn('acos')(E, st, fr, ins, a, work)
    if not z3.is_expr(t): return t
    x = E.real(a[0]); k = ('acos', t.get_id())
    if k not in st.known:
        st.known[k] = True; c, s = trig('cos')(E, st, t), trig('sin')(E, st, t); E.keep.append((t,))
        E.fact(st, z3.Implies(z3.And(x >= -1, x <= 1), z3.And(c == x, s >= 0, t >= 0)))
    return t
def cexp_(E, st, fr, ins, a, work):
    re, im = a[0], a[1]
    if all(isinstance(x, (Fraction, float)) for x in (re, im)):
        e = math.exp(float(re)); return [Fraction(e * math.cos(float(im))), Fraction(e * math.sin(float(im)))]
    if not (isinstance(re, (Fraction, float)) and re == 0): raise Unsupported('exponential of a complex number')
    return [trig('cos')(E, st, E.real(im)), trig('sin')(E, st, E.real(im))]
def ufn(name, n=1):
    def g(E, st, fr, ins, a, work):
        if all(isinstance(x, (Fraction, float)) for x in a):
            try: r = getattr(math, name)(*[float(x) for x in a]); return Fraction(r) if E.cfg['real'] and math.isfinite(r) else r
            except (ValueError, OverflowError): return float('nan')
        return uf(name, n)(*[E.real(x) for x in a])
    return g
def fpow(E, st, fr, ins, a, work):
    x, y = a
    if isinstance(x, (Fraction, float)) and isinstance(y, (Fraction, float)):
        if isinstance(y, Fraction) and y.denominator == 1 and abs(y) < 64 and isinstance(x, Fraction) and (x != 0 or y >= 0): return x ** int(y)
        r = float(x) ** float(y); return Fraction(r) if E.cfg['real'] and isinstance(r, float) and math.isfinite(r) else r
    if isinstance(y, (Fraction, float)) and y == int(y) and 0 <= y <= 8:
        r = Fraction(1)
        for _ in range(int(y)): r = E.fop(st, 'fmul', r, x)
        return r
    return uf('pow', 2)(E.real(x), E.real(y))
def fminmax(mx):
    def g(E, st, fr, ins, a, work):
        x, y = a
        c = E.fcmp(st, 'ogt' if mx else 'olt', x, y)
        return E.ite(st, c if isinstance(c, int) else c, x, y, 'd')
    return g
def fabs_fp(E, st, x): return z3.fpAbs(x)
def rm(mode):
    return lambda E, st, x: z3.fpRoundToIntegral(mode, x)
def fmod_(E, st, fr, ins, a, work):
    x, y = a
    if all(isinstance(v, (Fraction, float)) for v in a): r = math.fmod(float(x), float(y)); return Fraction(r) if E.cfg['real'] else r
    x, y = E.real(x), E.real(y); q = x / y; t = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
    return x - t * y
def remquo_(E, st, fr, ins, a, work):
    x, y, p = a
    if all(isinstance(v, (Fraction, float)) for v in (x, y)):
        X, Y = Fraction(x), Fraction(y); q = X / Y; n = round(q)
        E.store(st, p, n & 0xffffffff, 'i32'); r = X - n * Y; return r if E.cfg['real'] else float(r)
    x, y = E.real(x), E.real(y); q = x / y; f = z3.ToInt(q + z3.Q(1, 2)); tie = q + z3.Q(1, 2) == z3.ToReal(f)
    n = z3.If(z3.And(tie, f % 2 != 0), f - 1, f)
    # the standard only promises the low bits and sign of the quotient; glibc keeps 3 bits
    t = z3.If(n >= 0, n % 8, -((-n) % 8))
    E.store(st, p, SI(t, -7, 7, 32), 'i32'); return x - z3.ToReal(n) * y
def isfin(E, st, fr, ins, a, work): return 1
def copysign(E, st, fr, ins, a, work):
    x, y = a
    if all(isinstance(v, (Fraction, float)) for v in a): return abs(x) if math.copysign(1, y) > 0 else -abs(x)
    x, y = E.real(x), E.real(y); ab = z3.If(x >= 0, x, -x); return z3.If(y >= 0, ab, -ab)
LM = {}
def lm(name, h):
    INTR[name] = h; INTR[name + 'f'] = h; INTR[name + 'l'] = h
INTR = {
 'vf_in_real': in_real, 'vf_in_real_range': in_real_range, 'vf_in_int': in_int, 'vf_assume_': vf_assume, 'vf_check_': vf_check, 'vf_eqr_': vf_eqr, 'vf_isint_': vf_isint,
 'vf_try_': vf_try, 'vf_forall_': vf_forall, 'vf_exists_': vf_exists, 'vf_invariant_': vf_invariant, 'vf_array_': vf_array, 'vf_native': vf_native, 'vf_cover_': vf_cover, 'vf_note_': nop,
 '_Znwm': op_new, '_Znam': op_new, 'malloc': op_new, '_ZdlPv': op_delete, '_ZdlPvm': op_delete, '_ZdaPv': op_delete, '_ZdaPvm': op_delete, 'free': op_delete,
 'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'memcmp': memcmp, 'bcmp': memcmp, '_ZSt21__glibcxx_assert_failPKciS0_S0_': abort, '_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE11_M_disjunctEPKc': str_disjunct, 'strlen': strlen, 'strchr': strchr,
 '__cxa_throw': cxa_throw, '__cxa_rethrow': cxa_throw, '__cxa_allocate_exception': alloc_exc, '__cxa_free_exception': nop, '__cxa_guard_acquire': one, '__cxa_guard_release': nop, '__cxa_guard_abort': nop, '__cxa_atexit': nop,
 'abort': abort, '__assert_fail': abort, '_ZSt9terminatev': abort, '__clang_call_terminate': abort, '__cxa_pure_virtual': abort,
 '_ZNSt8ios_base4InitC1Ev': nop, '_ZNSt8ios_base4InitD1Ev': nop, 'printf': nop, 'omp_set_num_threads': nop, 'omp_get_max_threads': one, 'omp_get_thread_num': nop, 'omp_get_num_threads': one,
}
lm('floor', f1(c_num(lambda x: Fraction(math.floor(x))), r_floor, rm(z3.RTN()))); lm('ceil', f1(c_num(lambda x: Fraction(math.ceil(x))), r_ceil, rm(z3.RTP())))
lm('round', f1(c_num(c_round), r_round, rm(z3.RNA()))); lm('trunc', f1(c_num(lambda x: Fraction(math.trunc(x))), r_trunc, rm(z3.RTZ())))
lm('rint', f1(c_num(lambda x: Fraction(round(x))), r_rint, rm(RNE))); lm('nearbyint', INTR['rint'])
lm('fabs', f1(abs, r_abs, fabs_fp)); lm('sqrt', f1(c_sqrt, r_sqrt, lambda E, st, x: z3.fpSqrt(RNE, x)))
lm('cos', f1(lambda x: math.cos(x), trig('cos'))); lm('sin', f1(lambda x: math.sin(x), trig('sin')))
lm('acos', acos_); INTR['cexp'] = cexp_
for _n in ('tan', 'asin', 'atan', 'exp', 'log', 'log10', 'log2', 'cosh', 'sinh', 'tanh', 'erf', 'tgamma'): lm(_n, ufn(_n))
lm('atan2', atan2_); lm('hypot', ufn('hypot', 2)); lm('pow', fpow); lm('fmin', fminmax(False)); lm('fmax', fminmax(True)); lm('fmod', fmod_); lm('remquo', remquo_); lm('copysign', copysign)
def llv_life(E, st, fr, ins, a, work): return None
def llv_abs(E, st, fr, ins, a, work):
    ty = ins[2]; w = int(ty[1:]); x = E.toint(st, a[0], w)
    if isinstance(x, int): return abs(E.sgn(st, x, w)) & ((1 << w) - 1)
    if isinstance(x, z3.BitVecRef): return z3.If(x < 0, -x, x)
    s = E.sgn(st, x, w); m = max(abs(x.lo), abs(x.hi)); 
    return SI(z3.If(s >= 0, s, -s), 0, min(m, 1 << (w - 1)), w)
def llv_minmax(pred):
    def g(E, st, fr, ins, a, work):
        c = E.icmp(st, pred, a[0], a[1], ins[2]); return E.ite(st, c, a[0], a[1], ins[2])
    return g
def llv_ovf(op, signed):
    def g(E, st, fr, ins, a, work):
        ty = ins[2]['s'][0][1]; w = int(ty[1:])
        f = E.sgn if signed else E.uns
        x, y = (f(st, E.toint(st, v, w), w) for v in a)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if isinstance(r, int): return [r & ((1 << w) - 1), int(not lo <= r <= hi)]
        ov = z3.simplify(z3.Not(z3.And(r >= lo, r <= hi)))
        if E.quick(st, z3.Not(ov)): return [SI(r, lo, hi, w), 0]
        return [SI(r % (1 << w), 0, (1 << w) - 1, w), ov]
    return g
def llv_assume(E, st, fr, ins, a, work): return None
def llv_expect(E, st, fr, ins, a, work): return a[0]
def llv_ctz(E, st, fr, ins, a, work):
    if isinstance(a[0], int): 
        x = a[0]; return (x & -x).bit_length() - 1 if x else int(ins[2][1:])
    raise Unsupported('cttz')
def llv_ctlz(E, st, fr, ins, a, work):
    if isinstance(a[0], int): return int(ins[2][1:]) - a[0].bit_length()
    raise Unsupported('ctlz')
def llv_trap(E, st, fr, ins, a, work): return abort(E, st, fr, ins, a, work)
def llv_fmuladd(E, st, fr, ins, a, work): return E.fop(st, 'fadd', E.fop(st, 'fmul', a[0], a[1]), a[2])
def llv_isconst(E, st, fr, ins, a, work): return 0
def llv_isfpclass(E, st, fr, ins, a, work):
    if isinstance(a[0], Fraction) or E.cfg['real']:
        x = a[0]; m = a[1]
        if isinstance(x, float): 
            return int(bool((x != x and m & 3) or (abs(x) == float('inf') and m & (4 | 512))))
        if m & ~(3 | 4 | 512) == 0: return 0
    raise Unsupported('is.fpclass')
def llv_ptrmask(E, st, fr, ins, a, work): return a[0]
LLVM = {'lifetime': llv_life, 'dbg': llv_life, 'experimental': llv_life, 'invariant': llv_life, 'launder': llv_expect, 'strip': llv_expect, 'abs': llv_abs, 'smax': llv_minmax('sgt'), 'smin': llv_minmax('slt'), 'umax': llv_minmax('ugt'), 'umin': llv_minmax('ult'),
 'sadd': llv_ovf('add', True), 'uadd': llv_ovf('add', False), 'ssub': llv_ovf('sub', True), 'usub': llv_ovf('sub', False), 'smul': llv_ovf('mul', True), 'umul': llv_ovf('mul', False),
 'assume': llv_assume, 'expect': llv_expect, 'cttz': llv_ctz, 'ctlz': llv_ctlz, 'trap': llv_trap, 'memcpy': memcpy, 'memmove': memcpy, 'memset': memset,
 'fabs': INTR['fabs'], 'floor': INTR['floor'], 'ceil': INTR['ceil'], 'round': INTR['round'], 'trunc': INTR['trunc'], 'rint': INTR['rint'], 'nearbyint': INTR['rint'], 'sqrt': INTR['sqrt'], 'pow': fpow, 'cos': INTR['cos'], 'sin': INTR['sin'],
 'fmuladd': llv_fmuladd, 'fma': llv_fmuladd, 'is': llv_isconst, 'is.fpclass': llv_isfpclass, 'minnum': fminmax(False), 'maxnum': fminmax(True), 'copysign': copysign, 'stacksave': nop, 'stackrestore': nop, 'donothing': nop, 'eh': nop, 'prefetch': llv_life}
