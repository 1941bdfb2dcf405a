"""Contracts assumed for code outside /repo: the harness primitives (lv_*),
the C/C++ runtime and the compiler intrinsics.  Everything listed in TRUSTED
is reported as part of the trusted base when a proof uses it."""
import re
import z3
import sym
from sym import (UNDEF, Unsupported, PathEnd, NORETURN, PUSHED, AFF, RCell, base_of, IDSHIFT, isz, tobv, simp, mask,
                 sgn, M64, SMALL_LIMIT)
from ir import *

MODELS = {}
PATTERNS = []
TRUSTED = {}


def model(*names, trusted=None):
    def d(f):
        for n in names:
            MODELS[n] = f
            if trusted:
                TRUSTED[n] = trusted
        return f
    return d


def pattern(rx, trusted=None):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


# ------------------------------------------------------------------ harness
@model('lv_any')
def lv_any(e, st, a, name):
    n = e.cstr(st, a[0])
    v = e.freshvar(n, 64)
    st.inputs.append((n, v))
    return v


@model('lv_len')
def lv_len(e, st, a, name):
    n = e.cstr(st, a[0])
    v = e.freshvar(n, 64)
    AFF.small.add(v.get_id())
    AFF.keep.append(v)
    st.inputs.append((n, v))
    st.lens.append(v)
    st.pc.append(z3.ULT(v, z3.BitVecVal(SMALL_LIMIT, 64)))
    return v


@model('lv_assume')
def lv_assume(e, st, a, name):
    e.assume(st, a[0])


@model('lv_assert')
def lv_assert(e, st, a, name):
    n = e.cstr(st, a[1])
    if n.startswith('ghost-limit-') and not e.quiet:
        # a limit of the ghost state, not a property of the code: if it can be
        # exceeded the contract is undecided
        c = a[0]
        if c is UNDEF:
            raise Unsupported(n)
        if isinstance(c, int):
            if not c & 1:
                raise Unsupported(n)
        elif e.check(st, z3.Not(e.tobool(c)), full=True)[0] != z3.unsat:
            raise Unsupported(n)
        return
    e.obligation(st, a[0], n, 'post')


@model('lv_lemma')
def lv_lemma(e, st, a, name):
    e.obligation(st, a[0], e.cstr(st, a[1]), 'lemma')


@model('lv_cover')
def lv_cover(e, st, a, name):
    n = e.cstr(st, a[0])
    if not e.quiet and n not in e.covered:
        if e.check(st) == z3.sat:
            e.covered.add(n)


@model('lv_uf1', 'lv_uf2', 'lv_uf3', 'lv_uf4')
def lv_uf(e, st, a, name):
    n = e.cstr(st, a[0])
    k = int(name[-1])
    args = [tobv(x, 64) for x in a[1:1 + k]]
    if any(x is UNDEF for x in a[1:1 + k]):
        e.fail(st, 'uninitialised-value', 'safety', 'uninitialised argument of %s' % n)
    f = z3.Function('uf_%s_%d' % (n, k), *([z3.BitVecSort(64)] * (k + 1)))
    r = f(*args)
    st.ufapps.append((n, tuple(args), r))
    return r


@model('lv_ite')
def lv_ite(e, st, a, name):
    c = a[0]
    if isinstance(c, int):
        return a[1] if c & 1 else a[2]
    return simp(z3.If(e.tobool(c), tobv(a[1], 64), tobv(a[2], 64)))


@model('lv_symbolic')
def lv_symbolic(e, st, a, name):
    return 1


@model('lv_skip')
def lv_skip(e, st, a, name):
    raise PathEnd()


@model('lv_region')
def lv_region(e, st, a, name):
    stride, n = a[0], a[1]
    o = st.new_obj(0, 'region', e.cstr(st, a[2]))
    o.stride = stride
    o.n = n
    return base_of(o.id)


@model('lv_region_fill')
def lv_region_fill(e, st, a, name):
    p, inner, width, v0, coef = a
    o = st.wobj(e.getobj(st, p >> IDSHIFT))

    def base(i, v0=v0, coef=coef, w=width):
        r = e.binop('add', I64, v0, e.binop('mul', I64, i, coef))
        if w < 8:
            return r & mask(8 * w) if isinstance(r, int) else simp(z3.Extract(8 * w - 1, 0, r))
        return r
    o.cells[inner] = RCell(width, base)


@model('lv_region_list')
def lv_region_list(e, st, a, name):
    """elements of the region form a circular doubly linked list with the hook at hdr"""
    p, hook, n, hdr, next_off, prev_off = a
    o = st.wobj(e.getobj(st, p >> IDSHIFT))
    stride = o.stride

    def elem(i):
        return e.binop('add', I64, e.binop('mul', I64, i, stride), (p + hook) & M64)

    def pos(i):
        c = e.icmp('ult', I64, i, n)
        if isinstance(c, int):
            return elem(i) if c else hdr
        return z3.If(c, tobv(elem(i), 64), tobv(hdr, 64))

    def nxt(i):
        return pos(e.binop('add', I64, i, 1))

    def prv(i):
        c = e.icmp('eq', I64, i, 0)
        v = elem(e.binop('sub', I64, i, 1))
        if isinstance(c, int):
            return hdr if c else v
        return z3.If(c, tobv(hdr, 64), tobv(v, 64))
    o.cells[hook + next_off] = RCell(8, nxt)
    o.cells[hook + prev_off] = RCell(8, prv)
    st.poss.append(pos)
    # hook the header
    last = simp(z3.If(tobv(n, 64) == 0, tobv(hdr, 64), tobv(elem(e.binop('sub', I64, n, 1)), 64)))
    e.store(st, (hdr + next_off) & M64, pos(0), PTR)
    e.store(st, (hdr + prev_off) & M64, last, PTR)


@model('lv_inv')
def lv_inv(e, st, a, name):
    f = e.idg[a[0] >> IDSHIFT]
    st.invs.append((f, a[1], a[2], (), e.dem.get(f, f), False))


@model('lv_flag')
def lv_flag(e, st, a, name):
    f = e.idg[a[0] >> IDSHIFT]
    st.invs.append((f, a[1], a[2], (), e.dem.get(f, f), True))


@model('lv_inv_pop')
def lv_inv_pop(e, st, a, name):
    st.invs.pop()


@model('lv_guard')
def lv_guard(e, st, a, name):
    p, n, m = a
    oid = p >> IDSHIFT
    off = p - base_of(oid)
    st.guards[oid] = st.guards.get(oid, ()) + ((off, off + n, m),)


@model('lv_unguard')
def lv_unguard(e, st, a, name):
    st.guards.pop(a[0] >> IDSHIFT, None)


@model('lv_before_lock')
def lv_before_lock(e, st, a, name):
    """a[1](a[2]) runs once, right before the next acquisition of mutex a[0] (interference of another thread)"""
    st.ghost[('pre', a[0])] = (a[1], a[2])


@model('lv_locked')
def lv_locked(e, st, a, name):
    return int(bool(st.ghost.get(('lock', a[0]))))


@model('lv_lock_hook')
def lv_lock_hook(e, st, a, name):
    """a[0]: mutex address; a[1]: function void(void*) run right after acquire; a[2]: before release; a[3] ctx"""
    st.ghost[('hook', a[0])] = (a[1], a[2], a[3])


@model('lv_same_object')
def lv_same_object(e, st, a, name):
    """byte-wise equality of two objects of the same type; pointers into the
    objects themselves are compared relative to their own object"""
    p, q, n = a
    op, oq = e.getobj(st, p >> IDSHIFT), e.getobj(st, q >> IDSHIFT)
    po, qo = p - base_of(op.id), q - base_of(oq.id)
    offs = set()
    for o, b in ((op, po), (oq, qo)):
        for off, (w, v) in o.cells.items():
            if b <= off < b + n:
                offs.add((off - b, w))
    conj = []
    for off, w in sorted(offs):
        x, y = e.oread(op, po + off, w), e.oread(oq, qo + off, w)
        if x is UNDEF or y is UNDEF:
            continue
        if w == 8:
            if isinstance(x, int) and isinstance(y, int) and (x >> IDSHIFT) == op.id and (y >> IDSHIFT) == oq.id:
                conj.append(z3.BoolVal(x - p == y - q))
                continue
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return 0
            continue
        conj.append(tobv(x, 8 * w) == tobv(y, 8 * w))
    return simp(z3.And(*conj)) if conj else 1


@model('lv_replace')
def lv_replace(e, st, a, name):
    """calls to lager functions whose demangled name ends in a[0] are checked
    against their contract a[1] (a harness function) instead of their body"""
    f = e.idg[a[1] >> IDSHIFT]
    st.ghost['replace'] = st.ghost.get('replace', ()) + ((e.cstr(st, a[0]), f),)


@model('lv_debug')
def lv_debug(e, st, a, name):
    print('DEBUG', e.cstr(st, a[0]), a[1])


# ------------------------------------------------------------------ memory
def do_new(e, st, a, name):
    n = a[0]
    if isz(n):
        n = simp(n)
    if isz(n):
        af = AFF.get(n)
        if not AFF.is_small(af):
            raise Unsupported('operator new of symbolic size %s' % str(n)[:100])
        import math
        g = af[0]
        for _, k in af[1]:
            g = math.gcd(g, k)
        o = st.new_obj(0, 'heapregion', 'new[]')
        o.stride = g
        o.n = AFF.expr((af[0] // g, tuple((t, k // g) for t, k in af[1])))
        return base_of(o.id)
    o = st.new_obj(n, 'heap', 'new(%d)' % n)
    return base_of(o.id)


for _n in ('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t', '_ZnwmSt11align_val_tRKSt9nothrow_t'):
    MODELS[_n] = do_new
    TRUSTED[_n] = 'operator new/malloc: returns fresh, disjoint, uninitialised memory (never fails)'


@model('calloc')
def do_calloc(e, st, a, name):
    o = st.new_obj(a[0] * a[1], 'heap', 'calloc')
    e.memset(st, base_of(o.id), 0, a[0] * a[1])
    return base_of(o.id)


def do_delete(e, st, a, name):
    p = a[0]
    if p is UNDEF:
        e.fail(st, 'memory-safety', 'safety', 'delete of uninitialised pointer')
    if isz(p):
        r = st.conc.get(p.get_id())
        p = r[1] if r else p
    if isz(p):
        e.split_pointer(st, a[0])
    if p == 0:
        return None
    oid = p >> IDSHIFT
    o = st.objs.get(oid)
    if o is None or not o.alive:
        e.fail(st, 'memory-safety', 'safety', 'double free' if o is not None else 'delete of a non heap pointer')
    if p != base_of(oid) or o.kind not in ('heap', 'heapregion', 'region'):
        e.fail(st, 'memory-safety', 'safety', 'delete of a non heap pointer (%s)' % o.kind)
    o = st.wobj(o)
    o.alive = False
    o.cells = {}
    return None


for _n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t',
           '_ZdlPvRKSt9nothrow_t'):
    MODELS[_n] = do_delete
    TRUSTED[_n] = 'operator delete/free: ends the lifetime of a live heap block'


@model('llvm.memcpy.*', 'llvm.memmove.*', 'memcpy', 'memmove', 'llvm.memcpy.inline.*')
def m_memcpy(e, st, a, name):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model('llvm.memset.*', 'memset')
def m_memset(e, st, a, name):
    e.memset(st, a[0], a[1], a[2])
    return a[0]


@model('memcmp', 'bcmp')
def m_memcmp(e, st, a, name):
    n = a[2]
    if isz(n):
        raise Unsupported('memcmp of symbolic length')
    expr = None
    res = []
    for i in range(n):
        x = e.load(st, e.padd(a[0], i), ('i', 8))
        y = e.load(st, e.padd(a[1], i), ('i', 8))
        res.append((x, y))
    if all(isinstance(x, int) and isinstance(y, int) for x, y in res):
        for x, y in res:
            if x != y:
                return (1 if x > y else -1) & mask(32)
        return 0
    r = z3.BitVecVal(0, 32)
    for x, y in reversed(res):
        X, Y = tobv(x, 8), tobv(y, 8)
        r = z3.If(X == Y, r, z3.If(z3.UGT(X, Y), z3.BitVecVal(1, 32), z3.BitVecVal(mask(32), 32)))
    return simp(r)


@model('strlen')
def m_strlen(e, st, a, name):
    n = 0
    while True:
        b = e.load(st, e.padd(a[0], n), ('i', 8))
        if not isinstance(b, int):
            raise Unsupported('strlen of symbolic string')
        if b == 0:
            return n
        n += 1


@model('strcmp')
def m_strcmp(e, st, a, name):
    if isinstance(a[0], int) and a[0] == a[1]:
        return 0
    x, y = e.cstr(st, a[0]), e.cstr(st, a[1])
    return 0 if x == y else (1 if x > y else -1) & mask(32)


@model('memchr')
def m_memchr(e, st, a, name):
    for i in range(a[2]):
        b = e.load(st, e.padd(a[0], i), ('i', 8))
        if not isinstance(b, int):
            c = tobv(b, 8) == z3.BitVecVal(a[1] & 255, 8)
            if e.check(st, c) == z3.unsat:
                continue
            if e.check(st, z3.Not(c)) == z3.unsat:
                return e.padd(a[0], i)
            raise sym.ForkReq([(c, None), (z3.Not(c), None)])
        if b == (a[1] & 255):
            return e.padd(a[0], i)
    return 0


@model('toupper', 'tolower')
def m_toupper(e, st, a, name):
    c = a[0]
    w = 32
    if isinstance(c, int):
        if name == 'toupper':
            return c - 32 if 97 <= c <= 122 else c
        return c + 32 if 65 <= c <= 90 else c
    if name == 'toupper':
        return simp(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))
    return simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


@model('isalpha', 'isdigit', 'isalnum', trusted='isalpha/isdigit/isalnum: the C locale')
def m_ctype(e, st, a, name):
    c = a[0]
    up, lo, dg = (65, 90), (97, 122), (48, 57)
    rs = {'isalpha': (up, lo), 'isdigit': (dg,), 'isalnum': (up, lo, dg)}[name]
    if isinstance(c, int):
        return int(any(l <= c <= h for l, h in rs))
    return simp(z3.If(z3.Or(*[z3.And(z3.UGE(c, l), z3.ULE(c, h)) for l, h in rs]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))


@model('_ZSt11_Hash_bytesPKvmm', trusted='std::_Hash_bytes: a function of the bytes')
def m_hash_bytes(e, st, a, name):
    if isz(a[1]) or isz(a[2]):
        raise Unsupported('hash of symbolic length')
    h = z3.BitVecVal(a[2] & M64, 64)
    f = z3.Function('hash_bytes', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    for i in range(a[1]):
        b = e.load(st, e.padd(a[0], i), ('i', 8))
        h = f(h, z3.ZeroExt(56, tobv(b, 8)))
    return simp(h)


@model('__cxa_demangle', trusted='__cxa_demangle: distinct type names have distinct spellings')
def m_demangle(e, st, a, name):
    s = e.cstr(st, a[0])
    o = st.new_obj(len(s) + 1, 'heap', 'demangled name')
    for i, ch in enumerate(s + chr(0)):
        e.store(st, base_of(o.id) + i, ord(ch) & 255, ('i', 8))
    if a[3] != 0:
        e.store(st, a[3], 0, ('i', 32))
    return base_of(o.id)


# ------------------------------------------------------------------ intrinsics
@pattern(r'^llvm\.(lifetime|dbg|experimental\.noalias|invariant|prefetch|donothing|stackrestore|var\.annotation|sideeffect)')
def m_nop(e, st, a, name):
    return 0


@model('__lv_unreachable')
def m_unreach(e, st, a, name):
    e.fail(st, 'unreachable', 'safety', 'reaches code the compiler assumes unreachable')


@pattern(r'^__lv_undef_')
def m_undef(e, st, a, name):
    return UNDEF


@model('llvm.assume')
def m_assume(e, st, a, name):
    if a[0] != 1:
        e.obligation(st, a[0], 'compiler-assumption', 'safety')
    return 0


@model('llvm.stacksave.*', 'llvm.stacksave')
def m_ss(e, st, a, name):
    return 0


@model('llvm.expect.*', 'llvm.launder.invariant.group.*', 'llvm.strip.invariant.group.*', 'llvm.threadlocal.address.*',
       'llvm.ssa.copy.*', 'llvm.expect.with.probability.*')
def m_id(e, st, a, name):
    return a[0]


@model('llvm.is.constant.*')
def m_isconst(e, st, a, name):
    return 0


@model('llvm.objectsize.*')
def m_objsize(e, st, a, name):
    return M64


@model('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap')
def m_trap(e, st, a, name):
    e.fail(st, 'no-trap', 'safety', 'trap reached')


@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.*')
def m_typeidfor(e, st, a, name):
    return e.typeid(a[0])


def _w(name):
    return int(re.search(r'\.i(\d+)$', name).group(1))


@model('llvm.umax.*', 'llvm.umin.*', 'llvm.smax.*', 'llvm.smin.*')
def m_minmax(e, st, a, name):
    w = _w(name)
    op = name.split('.')[1]
    c = e.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[op], ('i', w), a[0], a[1])
    if isinstance(c, int):
        return a[0] if c else a[1]
    return simp(z3.If(c, tobv(a[0], w), tobv(a[1], w)))


@model('llvm.umul.with.overflow.*')
def m_umulo(e, st, a, name):
    w = _w(name)
    if isinstance(a[0], int) and isinstance(a[1], int):
        p = a[0] * a[1]
        return [p & mask(w), int(p > mask(w))]
    r = e.binop('mul', ('i', w), a[0], a[1])
    if w == 64 and isz(r) and AFF.is_small(AFF.get(r)):
        return [r, 0]
    X, Y = tobv(a[0], w), tobv(a[1], w)
    return [r, simp(z3.Not(z3.BVMulNoOverflow(X, Y, False)))]


@model('llvm.uadd.with.overflow.*', 'llvm.usub.with.overflow.*', 'llvm.sadd.with.overflow.*', 'llvm.ssub.with.overflow.*')
def m_addo(e, st, a, name):
    w = _w(name)
    sub = 'sub' in name
    r = e.binop('sub' if sub else 'add', ('i', w), a[0], a[1])
    X, Y = tobv(a[0], w), tobv(a[1], w)
    if name.startswith('llvm.u'):
        o = z3.ULT(X, Y) if sub else z3.ULT(tobv(r, w), X)
    else:
        o = z3.Not(z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))) if sub else \
            z3.Not(z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)))
    return [r, simp(o)]


@model('llvm.ctlz.*', 'llvm.cttz.*', 'llvm.ctpop.*')
def m_bits(e, st, a, name):
    w = _w(name)
    x = a[0]
    if not isinstance(x, int):
        if 'ctpop' in name:
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return simp(r)
        raise Unsupported(name)
    if 'ctpop' in name:
        return bin(x).count('1')
    if 'ctlz' in name:
        return w - x.bit_length()
    return w if x == 0 else (x & -x).bit_length() - 1


@model('llvm.abs.*')
def m_abs(e, st, a, name):
    w = _w(name)
    if isinstance(a[0], int):
        return abs(sgn(a[0], w)) & mask(w)
    return simp(z3.If(a[0] < 0, -a[0], a[0]))


@model('llvm.fshl.*', 'llvm.fshr.*', 'llvm.bswap.*')
def m_fsh(e, st, a, name):
    raise Unsupported(name)


# ------------------------------------------------------------------ exceptions
@model('__cxa_allocate_exception')
def cxa_alloc(e, st, a, name):
    o = st.new_obj(a[0], 'exc', 'exception')
    return base_of(o.id)


@model('__cxa_free_exception')
def cxa_free(e, st, a, name):
    return None


@model('__cxa_throw')
def cxa_throw(e, st, a, name):
    st.excinfo[a[0]] = a[1]
    e.unwind(st, a[0], a[1])
    return NORETURN


@model('__cxa_begin_catch')
def cxa_begin(e, st, a, name):
    st.caught.append((a[0], st.excinfo[a[0]]))
    return a[0]


@model('__cxa_end_catch')
def cxa_end(e, st, a, name):
    if st.caught:
        st.caught.pop()
    return None


@model('__cxa_get_exception_ptr')
def cxa_getptr(e, st, a, name):
    return a[0]


@model('__cxa_rethrow')
def cxa_rethrow(e, st, a, name):
    if not st.caught:
        e.fail(st, 'no-terminate', 'safety', 'rethrow without exception')
    p, t = st.caught[-1]
    e.unwind(st, p, t)
    return NORETURN


def throw_std(e, st, tname, size=16, msg=None):
    o = st.new_obj(size, 'exc', tname)
    p = base_of(o.id)
    t = e.gaddr(tname)
    set_message(e, st, p, msg)
    st.excinfo[p] = t
    e.unwind(st, p, t)
    return NORETURN


def set_message(e, st, p, msg):
    """a standard exception: its virtual functions and its message"""
    vt = st.new_obj(24, 'exc', 'vtable of a standard exception')
    for i, f in enumerate(('_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD0Ev', '_ZNKSt13runtime_error4whatEv')):
        e.store(st, base_of(vt.id) + 8 * i, e.gaddr(f), PTR)
    e.store(st, p, base_of(vt.id), PTR)
    if msg is not None:
        e.store(st, p + 8, msg, PTR)


@model('_ZNKSt13runtime_error4whatEv', '_ZNKSt11logic_error4whatEv')
def m_what(e, st, a, name):
    return e.load(st, a[0] + 8, PTR)


for _fn, _ti in {
    '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error',
    '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range',
    '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
    '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call',
    '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
    '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
    '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc',
    '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
    '_ZSt20__throw_system_errori': '_ZTISt12system_error',
    '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
    '_ZSt21__throw_runtime_errorPKc': '_ZTISt13runtime_error',
}.items():
    def _mk(ti):
        return lambda e, st, a, name: throw_std(e, st, ti, 16, a[0] if name.endswith('PKc') and isinstance(a[0], int) else None)
    MODELS[_fn] = _mk(_ti)

sym.Engine.STDBASE['_ZTISt20bad_array_new_length'] = ['_ZTISt9bad_alloc']
sym.Engine.STDBASE['_ZTISt12system_error'] = ['_ZTISt13runtime_error']


@pattern(r'^_ZNSt(13runtime_error|11logic_error|12out_of_range|16invalid_argument|12length_error|9exception|9bad_alloc)(C|D)[0-9]E')
def m_excctor(e, st, a, name):
    p = a[0]
    if re.search(r'C[12]EPKc$', name):
        set_message(e, st, p, a[1])
    elif re.search(r'C[12]ERKNSt7__cxx1112basic_string', name):
        d, n = e.load(st, a[1], PTR), e.load(st, a[1] + 8, ('i', 64))
        msg = None
        if isinstance(n, int) and isinstance(d, int):
            o = st.new_obj(n + 1, 'exc', 'message')
            msg = base_of(o.id)
            e.memcpy(st, msg, d, n)
            e.store(st, msg + n, 0, ('i', 8))
        set_message(e, st, p, msg)
    elif re.search(r'(runtime_error|logic_error|out_of_range|invalid_argument|length_error)C[12]E(RK|O)S_$', name):
        set_message(e, st, p, e.load(st, a[1] + 8, PTR))
    return None


@pattern(r'^_ZNSt(18bad_variant_access|19bad_optional_access|17bad_function_call|10bad_typeid|8bad_cast)(C|D)[0-9]E')
def m_excctor2(e, st, a, name):
    return None


@model('_ZSt9terminatev', '__clang_call_terminate', 'abort', 'exit', '_exit')
def m_term(e, st, a, name):
    e.fail(st, 'no-terminate', 'safety', '%s called' % name)


@model('__assert_fail')
def m_assertfail(e, st, a, name):
    e.fail(st, 'assertion', 'safety', 'assert(%s) fails' % e.cstr(st, a[0]))


@model('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def m_glassert(e, st, a, name):
    e.fail(st, 'assertion', 'safety', 'libstdc++ assertion fails')


# ------------------------------------------------------------------ runtime
@model('__cxa_guard_acquire')
def m_ga(e, st, a, name):
    v = e.load(st, a[0], ('i', 8))
    return 0 if v == 1 else 1


@model('__cxa_guard_release')
def m_gr(e, st, a, name):
    e.store(st, a[0], 1, ('i', 8))


@model('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit', 'atexit')
def m_gx(e, st, a, name):
    return 0


@model('__gthread_active_p', '_ZL18__gthread_active_pv')
def m_gta(e, st, a, name):
    return 1


@model('pthread_mutex_lock', '_ZNSt5mutex4lockEv', trusted='mutex: mutual exclusion (lock/unlock)')
def m_lock(e, st, a, name):
    m = a[0]
    pre = st.ghost.pop(('pre', m), None)
    if pre:
        call_hook(e, st, pre[0], pre[1])
    if st.ghost.get(('lock', m)):
        e.fail(st, 'no-self-deadlock', 'safety', 'locks a mutex it already holds')
    st.ghost[('lock', m)] = True
    h = st.ghost.get(('hook', m))
    if h and h[0]:
        call_hook(e, st, h[0], h[2])
    return 0


@model('pthread_mutex_unlock', '_ZNSt5mutex6unlockEv', trusted='mutex: mutual exclusion (lock/unlock)')
def m_unlock(e, st, a, name):
    m = a[0]
    if not st.ghost.get(('lock', m)):
        e.fail(st, 'lock-discipline', 'safety', 'unlocks a mutex it does not hold')
    h = st.ghost.get(('hook', m))
    if h and h[1]:
        call_hook(e, st, h[1], h[2])
    st.ghost[('lock', m)] = False
    return 0


@model('pthread_mutex_trylock')
def m_trylock(e, st, a, name):
    m = a[0]
    if st.ghost.get(('lock', m)):
        return 16
    st.ghost[('lock', m)] = True
    return 0


def call_hook(e, st, fptr, ctx):
    """run a straight-line harness function to completion in this state (no forks allowed)"""
    name = e.idg[fptr >> IDSHIFT]
    depth = len(st.frames)
    saved_stop = st.stop_depth
    st.stop_depth = depth
    e.call_function(st, name, [ctx])
    try:
        while True:
            w = e.work
            n = len(w)
            e.step(st)
            if len(e.work) != n:
                raise Unsupported('fork inside a lock hook')
    except sym.Returned:
        pass
    finally:
        st.stop_depth = saved_stop


@model('pthread_self')
def m_self(e, st, a, name):
    return st.ghost.get('tid', 4096)


@model('lv_set_thread')
def lv_set_thread(e, st, a, name):
    st.ghost['tid'] = 4096 + 64 * a[0]


@model('lv_hold')
def lv_hold(e, st, a, name):
    st.ghost[('lock', a[0])] = bool(a[1])


@model('_ZNSt15__exception_ptr13exception_ptrC1EPv')
def m_x(e, st, a, name):
    raise Unsupported('exception_ptr')


@model('__dynamic_cast')
def m_dyncast(e, st, a, name):
    src, stype, dtype, hint = a
    if src == 0:
        return 0
    # vtable: [-2] offset to top, [-1] typeinfo
    vp = e.load(st, src, PTR)
    ti = e.load(st, e.padd(vp, -8), PTR)
    off = sgn(e.load(st, e.padd(vp, -16), I64), 64)
    if e.tmatch(ti, dtype):
        if ti == dtype:
            return (src + off) & M64
        raise Unsupported('dynamic_cast to intermediate base')
    return 0


# ------------------------------------------------------------------ n symbolic copies of an object
@model('lv_replicate')
def lv_replicate(e, st, a, name):
    """region of a[2] copies of the a[1] bytes at a[0] (a[1]==0: the whole heap block around a[0]).
    Pointers into the object itself, or into an object replicated before, become pointers into
    the corresponding element."""
    p, size, n = a
    oid = p >> IDSHIFT
    o = e.getobj(st, oid)
    lo = p - base_of(oid)
    if size == 0:
        lo, size = 0, o.size
    r = st.new_obj(0, 'region', 'copies of ' + o.name)
    r.stride = size
    r.n = n
    rb = base_of(r.id)
    reps = dict(st.ghost.get('reps', {}))
    reps[oid] = (rb, size, lo)
    st.ghost['reps'] = reps
    for off, (w, v) in o.cells.items():
        if not (lo <= off and off + w <= lo + size):
            continue
        inner = off - lo
        if w == 8 and isinstance(v, int) and (v >> IDSHIFT) in reps and v > (1 << (IDSHIFT + 1)):
            tb, ts, tlo = reps[v >> IDSHIFT]
            d = v - base_of(v >> IDSHIFT) - tlo

            def base(i, tb=tb, ts=ts, d=d):
                return e.binop('add', I64, e.binop('mul', I64, i, ts), (tb + d) & M64)
            r.cells[inner] = RCell(w, base)
        else:
            r.cells[inner] = RCell(w, lambda i, v=v: v)
    return rb


def _rep(e, st, fieldptr):
    oid = fieldptr >> IDSHIFT
    tb, ts, tlo = st.ghost['reps'][oid]
    inner = fieldptr - base_of(oid) - tlo
    return st.wobj(e.getobj(st, tb >> IDSHIFT)), inner


@model('lv_rep_index')
def lv_rep_index(e, st, a, name):
    """field of the replicated object := c0 + index * c1"""
    r, inner = _rep(e, st, a[0])
    c0, c1 = a[1], a[2]
    r.cells[inner] = RCell(8, lambda i: e.binop('add', I64, e.binop('mul', I64, i, c1), c0))


@model('lv_rep_uf')
def lv_rep_uf(e, st, a, name):
    """field (a[1] bytes) of the replicated object := uf(index) & a[3]"""
    r, inner = _rep(e, st, a[0])
    w, nm, msk = a[1], e.cstr(st, a[2]), a[3]
    for k in list(r.cells):
        if k != inner and k < inner + w and inner < k + r.cells[k].w:
            raise Unsupported('lv_rep_uf overlap')
    f = z3.Function('uf_%s_1' % nm, z3.BitVecSort(64), z3.BitVecSort(64))

    def base(i):
        x = f(tobv(i, 64)) & z3.BitVecVal(msk, 64)
        return simp(x if w == 8 else z3.Extract(8 * w - 1, 0, x))
    r.cells[inner] = RCell(w, base)


@model('lv_set_vector')
def lv_set_vector(e, st, a, name):
    """std::vector object a[0] := {a[1], a[1]+a[2]*a[3], same}   (libstdc++ layout)"""
    v, p, n, sz = a
    end = e.binop('add', I64, e.binop('mul', I64, n, sz), p)
    e.store(st, v, p, PTR)
    e.store(st, v + 8, end, PTR)
    e.store(st, v + 16, end, PTR)


def drop_uninit(x):
    return x


@model('llvm.fmuladd.f32', 'llvm.fmuladd.f64')
def m_fmuladd(e, st, a, name):
    # (not fused: the x86-64 baseline has no such instruction)
    t = ('f', 'float', 4) if name.endswith('32') else ('f', 'double', 8)
    return e.binop('fadd', t, e.binop('fmul', t, a[0], a[1]), a[2])
