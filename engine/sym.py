"""Deductive verification-condition generator for C++ compiled to LLVM IR.

Path-wise weakest-precondition style symbolic execution of the *real* compiled
code, loops cut by inferred / supplied inductive invariants, every obligation
discharged by an SMT solver.  See DESIGN.md."""
import struct
import time
import os
import z3
from ir import *

M64 = (1 << 64) - 1
IDSHIFT = 36
BIAS = 1 << 35
SMALL_LIMIT = 1 << 32


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Part:
    """an integer of which some bytes are uninitialised (padding of a struct that is
    passed in a register)"""

    def __init__(self, bs):
        self.bs = bs

    def __repr__(self):
        return 'Part%s' % self.bs


def assemble(bs):
    if any(b is UNDEF for b in bs):
        return UNDEF if all(b is UNDEF for b in bs) else Part(bs)
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    return simp(z3.Concat(*[tobv(b, 8) for b in reversed(bs)]))


def byteslist(v, n):
    if isinstance(v, Part):
        return list(v.bs) + [0] * (n - len(v.bs)) if len(v.bs) < n else v.bs[:n]
    if isinstance(v, int):
        return [(v >> (8 * i)) & 255 for i in range(n)]
    v = tobv(v, 8 * n)
    return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]


def part_binop(op, w, a, b):
    n = w // 8
    if op in ('lshr', 'shl') and isinstance(b, int) and b % 8 == 0 and isinstance(a, Part):
        k = b // 8
        x = byteslist(a, n)
        return assemble(x[k:] + [0] * k if op == 'lshr' else [0] * k + x[:n - k])
    if op in ('and', 'or'):
        out = []
        for p, q in zip(byteslist(a, n), byteslist(b, n)):
            if p is UNDEF:
                p, q = q, p
            if q is UNDEF:
                z, i = (0, 255) if op == 'and' else (255, 0)
                out.append(z if isinstance(p, int) and p == z else UNDEF)
            elif isinstance(p, int) and isinstance(q, int):
                out.append(p & q if op == 'and' else p | q)
            else:
                P, Q = tobv(p, 8), tobv(q, 8)
                out.append(simp(P & Q if op == 'and' else P | Q))
        return assemble(out)
    return UNDEF


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """this path is finished (assume false, obligation failed, ...)"""


class ForkReq(Exception):
    """re-execute the current instruction under each alternative"""

    def __init__(self, alts):
        self.alts = alts  # list of (constraint, (exprid, expr, replacement) or None)


class CutReq(Exception):
    def __init__(self, snap):
        self.snap = snap


class Budget(Exception):
    pass


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def isz(x):
    return isinstance(x, z3.ExprRef)


def tobv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if x is UNDEF or isinstance(x, Part):
        raise Unsupported('undef in expression')
    return x


def simp(x):
    if not isz(x):
        return x
    y = z3.simplify(x)
    if z3.is_bv_value(y):
        return y.as_long()
    if z3.is_true(y):
        return 1
    if z3.is_false(y):
        return 0
    return y


def width_of(t):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 64
    if t[0] == 'f':
        return t[2] * 8
    raise Unsupported('width of %r' % (t,))


class Affine:
    """linear normal form of a 64 bit term, memoised by ast id"""

    def __init__(self):
        self.memo = {}
        self.keep = []
        self.small = set()  # ast ids of variables known < 2^32

    def get(self, e):
        if isinstance(e, int):
            return (e & M64, ())
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._compute(e)
            self.memo[i] = r
            self.keep.append(e)
        return r

    def _compute(self, e):
        d = e.decl().kind()
        if z3.is_bv_value(e):
            return (e.as_long(), ())
        if d == z3.Z3_OP_BADD:
            c = 0
            t = {}
            for x in e.children():
                cc, tt = self.get(x)
                c += cc
                for (a, k) in tt:
                    o = t.get(a.get_id())
                    t[a.get_id()] = (a, (o[1] if o else 0) + k)
            return self._norm(c, t)
        if d == z3.Z3_OP_BSUB:
            x, y = e.children()
            return self.sub(self.get(x), self.get(y))
        if d == z3.Z3_OP_BNEG:
            return self.sub((0, ()), self.get(e.arg(0)))
        if d == z3.Z3_OP_BMUL and e.num_args() == 2:
            a, b = e.children()
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                return self.scale(self.get(b), a.as_long())
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < 64:
            return self.scale(self.get(e.arg(0)), 1 << e.arg(1).as_long())
        if d == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 0:
            # simplifier writes x << s as concat(extract(63-s,0,x), 0)
            x = e.arg(0)
            s = e.arg(1).size()
            if x.decl().kind() == z3.Z3_OP_EXTRACT and x.params() == [63 - s, 0]:
                return self.scale(self.get(x.arg(0)), 1 << s)
        return (0, ((e, 1),))

    def _norm(self, c, t):
        out = []
        for a, k in t.values():
            k &= M64
            if k:
                out.append((a, k))
        out.sort(key=lambda p: p[0].get_id())
        return (c & M64, tuple(out))

    def add(self, x, y):
        t = {a.get_id(): (a, k) for a, k in x[1]}
        for a, k in y[1]:
            o = t.get(a.get_id())
            t[a.get_id()] = (a, (o[1] if o else 0) + k)
        return self._norm(x[0] + y[0], t)

    def scale(self, x, c):
        return self._norm(x[0] * c, {a.get_id(): (a, k * c) for a, k in x[1]})

    def sub(self, x, y):
        return self.add(x, self.scale(y, M64))

    def expr(self, x):
        c, ts = x
        r = None
        for a, k in ts:
            term = a if k == 1 else a * z3.BitVecVal(k, 64)
            r = term if r is None else r + term
        if r is None:
            return c
        if c:
            r = r + z3.BitVecVal(c, 64)
        return r

    def is_small(self, x):
        """value fits comfortably (no wrap) and non negative"""
        c, ts = x
        if sgn(c, 64) < 0 or c > (1 << 50):
            return False
        tot = c
        for a, k in ts:
            if a.get_id() not in self.small or k > (1 << 20):
                return False
        return True


AFF = Affine()


class Obj:
    __slots__ = ('id', 'size', 'cells', 'owner', 'alive', 'kind', 'name', 'stride', 'n')

    def __init__(self, id, size, owner, kind, name=''):
        self.id = id
        self.size = size
        self.cells = {}
        self.owner = owner
        self.alive = True
        self.kind = kind
        self.name = name
        self.stride = None
        self.n = None

    def clone(self, owner):
        o = Obj(self.id, self.size, owner, self.kind, self.name)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.stride = self.stride
        o.n = self.n
        return o


class RCell:
    """contents of one field (inner offset) of all elements of a region"""
    __slots__ = ('w', 'base', 'writes', 'tag')

    def __init__(self, w, base, writes=(), tag=None):
        self.w = w
        self.base = base      # python callable index-expr -> value
        self.writes = writes  # tuple of (idx, val), later wins
        self.tag = tag

    def read(self, idx):
        r = None
        out = []
        ia = AFF.get(idx)
        for (wi, wv) in reversed(self.writes):
            d = AFF.sub(ia, AFF.get(wi))
            if not d[1]:
                if d[0] == 0:
                    out.append((None, wv))
                    break
                continue
            out.append((tobv(idx, 64) == tobv(wi, 64), wv))
        else:
            out.append((None, self.base(idx)))
        r = out[-1][1]
        for c, v in reversed(out[:-1]):
            if v is UNDEF or r is UNDEF:
                if v is r:
                    continue
                raise Unsupported('undef region cell')
            r = z3.If(c, tobv(v, self.w * 8), tobv(r, self.w * 8))
        return r

    def write(self, idx, val):
        ws = self.writes
        if ws:
            d = AFF.sub(AFF.get(idx), AFF.get(ws[-1][0]))
            if not d[1] and d[0] == 0:
                ws = ws[:-1]
        return RCell(self.w, self.base, ws + ((idx, val),), self.tag)


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'prev', 'locals', 'allocas', 'ret_to', 'snaps', 'iters', 'args', 'byvals')

    def __init__(self, fn):
        self.fn = fn
        self.block = None
        self.ip = 0
        self.prev = None
        self.locals = {}
        self.allocas = []
        self.ret_to = None
        self.snaps = None   # header -> Snap
        self.iters = None

    def copy(self):
        f = Frame(self.fn)
        f.block = self.block
        f.ip = self.ip
        f.prev = self.prev
        f.locals = dict(self.locals)
        f.allocas = list(self.allocas)
        f.ret_to = self.ret_to
        f.snaps = dict(self.snaps) if self.snaps else None
        f.iters = dict(self.iters) if self.iters else None
        return f


class Snap:
    __slots__ = ('state', 'depth', 'header', 'cut', 'sym', 'late')

    def __init__(self, state, depth, header):
        self.late = []   # states after the first iterations, while there is one path only
        self.state = state
        self.depth = depth
        self.header = header
        self.cut = False
        self.sym = 0


class State:
    uid_counter = 0

    def __init__(self):
        State.uid_counter += 1
        self.uid = State.uid_counter
        self.frames = []
        self.objs = {}
        self.next_id = 1 << 20
        self.pc = []
        self.inputs = []
        self.ufapps = []
        self.caught = []
        self.inflight = None
        self.invs = []
        self.poss = []
        self.lens = []
        self.conc = {}
        self.cutstop = None     # (depth, header) while exploring one loop iteration
        self.covers = set()
        self.trace = []
        self.steps = 0
        self.ghost = {}
        self.guards = {}        # objid -> lock
        self.stop_depth = None
        self.retval = None
        self.excinfo = {}
        self.named = {}

    def copy(self):
        s = State.__new__(State)
        State.uid_counter += 1
        s.uid = State.uid_counter
        # the original must also stop owning its objects
        State.uid_counter += 1
        self.uid = State.uid_counter
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        s.next_id = self.next_id
        s.pc = list(self.pc)
        s.inputs = list(self.inputs)
        s.ufapps = list(self.ufapps)
        s.caught = list(self.caught)
        s.inflight = self.inflight
        s.invs = list(self.invs)
        s.poss = list(self.poss)
        s.lens = list(self.lens)
        s.conc = dict(self.conc)
        s.cutstop = self.cutstop
        s.covers = set(self.covers)
        s.trace = list(self.trace)
        s.steps = self.steps
        s.ghost = dict(self.ghost)
        s.guards = dict(self.guards)
        s.stop_depth = self.stop_depth
        s.retval = self.retval
        s.excinfo = dict(self.excinfo)
        s.named = dict(self.named)
        return s

    # --- objects
    def new_obj(self, size, kind, name=''):
        o = Obj(self.next_id, size, self.uid, kind, name)
        self.next_id += 1
        self.objs[o.id] = o
        return o

    def wobj(self, o):
        if o.owner != self.uid:
            o = o.clone(self.uid)
            self.objs[o.id] = o
        return o


def base_of(oid):
    return (oid << IDSHIFT) + BIAS


class Arrival(Exception):
    def __init__(self, state):
        self.state = state


class FailRec:
    def __init__(self, contract, name, kind, state, model, reason):
        self.contract = contract
        self.name = name
        self.kind = kind
        self.reason = reason
        self.inputs = []
        self.uf = []
        self.trace = []
        self.where = ''


class Engine:
    def __init__(self, mod, dem, timeout_ms=20000, verbose=0):
        self.mod = mod
        self.dem = dem            # mangled -> demangled
        self.gid = {}             # global/function name -> id
        self.idg = {}
        self.next_gid = 1
        self.gobjs = {}           # id -> pristine Obj for globals
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.sstack = []
        self.quiet = 0
        self.stats = dict(checks=0, solver_s=0.0, steps=0, paths=0, cuts=0)
        self.fresh = 0
        self.verbose = verbose
        self.executed = set()
        self.covered = set()
        self.deadline = None
        self.unroll = 6
        self.approx = None
        self.maxforkiters = 16
        self.assumed_used = set()
        self.max_steps = 3_000_000
        self.intercepts = {}
        self.cand_log = []
        self.typeids = {}
        from models import MODELS, PATTERNS
        self.models = MODELS
        self.patterns = PATTERNS
        self._model_cache = {}
        self.replaced = set()
        self.init_state = None

    # ------------------------------------------------------------- globals
    def gaddr(self, name):
        if name in self.mod.aliases:
            return self.const(self.mod.aliases[name], PTR)
        i = self.gid.get(name)
        if i is None:
            i = self.next_gid
            self.next_gid += 1
            self.gid[name] = i
            self.idg[i] = name
        return base_of(i)

    def global_obj(self, st, oid):
        name = self.idg.get(oid)
        if name is None:
            return None
        if oid in self.gobjs:
            return self.gobjs[oid]
        if name not in self.mod.globals:
            return None
        ty, init = self.mod.global_info(name)
        if init is None:
            return self.extern_global(oid, name, ty)
        o = Obj(oid, self.mod.sizeof(ty), -1, 'global', name)
        self.init_cells(o, 0, ty, init)
        self.gobjs[oid] = o
        return o

    def extern_global(self, oid, name, ty):
        try:
            sz = self.mod.sizeof(ty)
        except Exception:
            sz = 64
        o = Obj(oid, max(sz, 64), -1, 'global', name)
        if name == '__libc_single_threaded':
            o.cells[0] = (1, 1)
        self.gobjs[oid] = o
        return o

    def init_cells(self, o, off, ty, v):
        mod = self.mod
        k = v[0]
        st = mod.strip(ty)
        if k == 'zero' or (k == 'c' and st[0] in ('st', 'arr')):
            self.zero_cells(o, off, st)
            return
        if k == 'undef':
            return
        if k == 'cstr':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if st[0] == 'st':
                for i, (t, x) in enumerate(v[1]):
                    fo, ft = mod.field_offset(st, i)
                    self.init_cells(o, off + fo, t, x)
            else:
                s = mod.sizeof(st[2])
                for i, (t, x) in enumerate(v[1]):
                    self.init_cells(o, off + i * s, t, x)
            return
        val = self.const(v, st)
        if isinstance(val, float):
            val = struct.unpack('<Q', struct.pack('<d', val))[0] if st[1] == 'double' else \
                struct.unpack('<I', struct.pack('<f', val))[0]
        o.cells[off] = (mod.sizeof(st), val)

    def zero_cells(self, o, off, st):
        mod = self.mod
        st = mod.strip(st)
        if st[0] == 'st':
            for i in range(len(st[1])):
                fo, ft = mod.field_offset(st, i)
                self.zero_cells(o, off + fo, ft)
        elif st[0] == 'arr':
            s = mod.sizeof(st[2])
            for i in range(st[1]):
                self.zero_cells(o, off + i * s, st[2])
        else:
            o.cells[off] = (mod.sizeof(st), 0)

    # ------------------------------------------------------------- operands
    def const(self, op, ty):
        k = op[0]
        if k == 'c':
            return op[1]
        if k == 'g':
            return self.gaddr(op[1])
        if k == 'fp':
            return self.fpconst(op[1], ty)
        if k == 'undef':
            t = self.mod.strip(op[1])
            if t[0] in ('st', 'arr'):
                return self.undef_agg(t)
            return UNDEF
        if k == 'zero':
            return self.zero_agg(self.mod.strip(op[1]))
        if k == 'agg':
            return [self.const(x, t) for t, x in op[1]]
        if k == 'gepc':
            base = self.const(op[2], PTR)
            return self.gep(op[1], base, [(t, self.const(x, t)) for t, x in op[3]])
        if k == 'cast':
            v = self.const(op[3], op[2])
            return self.cast(op[1], op[2], v, op[4])
        if k == 'bin':
            return self.binop(op[1], op[2], self.const(op[3], op[2]), self.const(op[4], op[2]))
        raise Unsupported('const %r' % (op,))

    def fpconst(self, s, ty):
        w = ty[1]
        if s.startswith('0x'):
            if s[2] in 'KMLHR':
                return int(s[3:], 16)
            bits = int(s, 16)
            if w == 'float':
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                return struct.unpack('<I', struct.pack('<f', d))[0]
            return bits
        d = float(s)
        if w == 'float':
            return struct.unpack('<I', struct.pack('<f', d))[0]
        return struct.unpack('<Q', struct.pack('<d', d))[0]

    def undef_agg(self, t):
        t = self.mod.strip(t)
        if t[0] == 'st':
            return [self.undef_agg(f) for f in t[1]]
        if t[0] == 'arr':
            return [self.undef_agg(t[2]) for _ in range(t[1])]
        return UNDEF

    def zero_agg(self, t):
        t = self.mod.strip(t)
        if t[0] == 'st':
            return [self.zero_agg(f) for f in t[1]]
        if t[0] == 'arr':
            return [self.zero_agg(t[2]) for _ in range(t[1])]
        return 0

    def ev(self, f, op, ty=None):
        k = op[0]
        if k == 'l':
            try:
                return f.locals[op[1]]
            except KeyError:
                raise Unsupported('unbound local %s' % op[1])
        if k == 'c':
            return op[1]
        return self.const(op, ty)

    def flop(self, op, w, w2, *args):
        """floating point on symbolic operands: some function, of which nothing is known;
        whatever fails after this is not decided"""
        if any(x is UNDEF or isinstance(x, Part) for x in args):
            return UNDEF
        self.approx = 'floating point %s' % op
        f = z3.Function('%s.%d.%d' % (op, w, w2), *([z3.BitVecSort(w)] * len(args) + [z3.BitVecSort(w2)]))
        return f(*[tobv(x, w) for x in args])

    # ------------------------------------------------------------- arithmetic
    def binop(self, op, ty, a, b):
        if ty[0] == 'vec':
            raise Unsupported('vector op')
        w = width_of(ty)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Part) or isinstance(b, Part):
            return part_binop(op, w, a, b)
        if op[0] == 'f':
            if isinstance(a, int) and isinstance(b, int) and w == 64:
                x = struct.unpack('<d', struct.pack('<Q', a))[0]
                y = struct.unpack('<d', struct.pack('<Q', b))[0]
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                return struct.unpack('<Q', struct.pack('<d', r))[0]
            if isinstance(a, int) and isinstance(b, int) and w == 32 and op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                # (one rounding of the exact double result is the correctly rounded float result)
                x = struct.unpack('<f', struct.pack('<I', a))[0]
                y = struct.unpack('<f', struct.pack('<I', b))[0]
                if op != 'fdiv' or y != 0:
                    r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                    return struct.unpack('<I', struct.pack('<f', r))[0]
            return self.flop(op, w, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            m = mask(w)
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else UNDEF
            if op == 'lshr':
                return a >> b if b < w else UNDEF
            if op == 'ashr':
                return (sgn(a, w) >> b) & m if b < w else UNDEF
            if b == 0:
                raise Unsupported('division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (x - q * y) & m
            raise Unsupported(op)
        if w == 1:
            A = self.tobool(a)
            B = self.tobool(b)
            if op == 'and':
                if (isinstance(a, int) and not a) or (isinstance(b, int) and not b):
                    return 0
                return simp(z3.And(A, B))
            if op == 'or':
                return simp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if op == 'mul':
                if b == 1:
                    return a
                if b == 0:
                    return 0
            if op == 'and':
                if b == 0:
                    return 0
                if b == mask(w):
                    return a
        if isinstance(a, int):
            if a == 0:
                if op in ('add', 'or', 'xor'):
                    return b
                if op in ('mul', 'and', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv'):
                    return 0
        if w == 64 and op in ('add', 'sub', 'mul', 'shl', 'ashr', 'lshr', 'sdiv', 'udiv'):
            if op == 'add':
                return AFF.expr(AFF.add(AFF.get(a), AFF.get(b)))
            if op == 'sub':
                return AFF.expr(AFF.sub(AFF.get(a), AFF.get(b)))
            if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
                if isinstance(a, int):
                    a, b = b, a
                return AFF.expr(AFF.scale(AFF.get(a), b))
            if op == 'shl' and isinstance(b, int) and b < 64:
                return AFF.expr(AFF.scale(AFF.get(a), 1 << b))
            if op in ('ashr', 'lshr', 'sdiv', 'udiv') and isinstance(b, int) and b < 64 or \
                    op in ('sdiv', 'udiv') and isinstance(b, int) and 0 < b < (1 << 20):
                d = (1 << b) if op in ('ashr', 'lshr') else b
                x = AFF.get(a)
                if AFF.is_small(x) and d > 0:
                    if x[0] % d == 0 and all(k % d == 0 for _, k in x[1]):
                        return AFF.expr((x[0] // d, tuple((t, k // d) for t, k in x[1])))
        A = tobv(a, w)
        B = tobv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op == 'udiv':
            r = z3.UDiv(A, B)
        elif op == 'urem':
            r = z3.URem(A, B)
        elif op == 'sdiv':
            r = A / B
        elif op == 'srem':
            r = z3.SRem(A, B)
        else:
            raise Unsupported(op)
        return simp(r)

    def tobool(self, x):
        if isinstance(x, int):
            return z3.BoolVal(bool(x & 1))
        if isinstance(x, z3.BoolRef):
            return x
        if x is UNDEF:
            raise Unsupported('undef bool')
        return z3.Extract(0, 0, x) == 1

    def icmp(self, pred, ty, a, b):
        if ty[0] == 'vec':
            raise Unsupported('vector icmp')
        w = width_of(ty)
        if a is UNDEF or b is UNDEF or isinstance(a, Part) or isinstance(b, Part):
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if w == 1:
            A, B = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return simp(A == B)
            if pred == 'ne':
                return simp(A != B)
            A = tobv(a, 1)
            B = tobv(b, 1)
        elif w == 64:
            d = AFF.sub(AFF.get(a), AFF.get(b))
            if not d[1]:
                if pred in ('eq', 'ne'):
                    return int((d[0] == 0) == (pred == 'eq'))
                if d[0] == 0:
                    return int(pred[1:] in ('le', 'ge'))
            elif pred in ('eq', 'ne'):
                # a == b  with a common factor: keep the difference small for the solver
                g = 0
                import math
                for _, k in d[1]:
                    g = math.gcd(g, min(k, (1 << 64) - k))
                g = math.gcd(g, min(d[0], (1 << 64) - d[0])) if d[0] else g
                if g > 1 and all(t.get_id() in AFF.small for t, _ in d[1]) and \
                        all(abs(sgn(k, 64)) < (1 << 24) for _, k in d[1]) and abs(sgn(d[0], 64)) < (1 << 40):
                    q = (sgn(d[0], 64) // g & M64, tuple((t, sgn(k, 64) // g & M64) for t, k in d[1]))
                    e = tobv(AFF.expr(q), 64) == 0
                    r = simp(e if pred == 'eq' else z3.Not(e))
                    return r
            A, B = tobv(a, 64), tobv(b, 64)
        else:
            A, B = tobv(a, w), tobv(b, w)
        if pred == 'eq':
            r = A == B
        elif pred == 'ne':
            r = A != B
        elif pred == 'ult':
            r = z3.ULT(A, B)
        elif pred == 'ule':
            r = z3.ULE(A, B)
        elif pred == 'ugt':
            r = z3.UGT(A, B)
        elif pred == 'uge':
            r = z3.UGE(A, B)
        elif pred == 'slt':
            r = A < B
        elif pred == 'sle':
            r = A <= B
        elif pred == 'sgt':
            r = A > B
        else:
            r = A >= B
        return simp(r)

    def cast(self, op, t, v, t2):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Part):
            w, w2 = width_of(t), width_of(t2)
            if w == w2:
                return v
            if op in ('trunc', 'zext'):
                return self.fit(assemble(byteslist(v, (w2 + 7) // 8)), t2)
            return UNDEF
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            w, w2 = width_of(t), width_of(t2)
            if w == w2:
                return v
            op = 'zext' if w2 > w else 'trunc'
        elif op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            if isinstance(v, int) and op in ('uitofp', 'sitofp') and t2[1] == 'double':
                x = float(v if op == 'uitofp' else sgn(v, width_of(t)))
                return struct.unpack('<Q', struct.pack('<d', x))[0]
            if isinstance(v, int) and op in ('uitofp', 'sitofp') and t2[1] == 'float':
                x = float(v if op == 'uitofp' else sgn(v, width_of(t)))
                return struct.unpack('<I', struct.pack('<f', x))[0]
            if isinstance(v, int) and op in ('fptoui', 'fptosi') and t[1] in ('double', 'float'):
                import math
                x = struct.unpack('<d', struct.pack('<Q', v))[0] if t[1] == 'double' else struct.unpack('<f', struct.pack('<I', v))[0]
                return int(x) & mask(width_of(t2))
            if isinstance(v, int) and op == 'fpext' and t[1] == 'float' and t2[1] == 'double':
                x = struct.unpack('<f', struct.pack('<I', v))[0]
                return struct.unpack('<Q', struct.pack('<d', x))[0]
            return self.flop(op, width_of(t), width_of(t2), v)
        w, w2 = width_of(t), width_of(t2)
        if isinstance(v, int):
            if op == 'trunc':
                return v & mask(w2)
            if op == 'zext':
                return v
            return sgn(v, w) & mask(w2)
        if op == 'zext':
            if w == 1:
                return tobv(v, w2)
            return z3.ZeroExt(w2 - w, v)
        if op == 'sext':
            if w == 1:
                return z3.If(v, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
            return z3.SignExt(w2 - w, v)
        if op == 'trunc':
            if w2 == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(w2 - 1, 0, v))
        raise Unsupported(op)

    def gep(self, ty, base, idx):
        off = 0          # concrete
        sym = []
        t = ty
        first = True
        for it, iv in idx:
            if first:
                sc = self.mod.sizeof(t)
                first = False
            else:
                t = self.mod.strip(t)
                if t[0] == 'st':
                    o, t = self.mod.field_offset(t, iv)
                    off += o
                    continue
                t = t[2]
                sc = self.mod.sizeof(t)
            if iv is UNDEF:
                raise Unsupported('undef gep index')
            w = width_of(it)
            if isinstance(iv, int):
                off += sgn(iv, w) * sc
            else:
                if w < 64:
                    iv = z3.SignExt(64 - w, iv)
                sym.append(AFF.scale(AFF.get(iv), sc))
        if base is UNDEF:
            raise Unsupported('gep on undef')
        if isinstance(base, int) and not sym:
            return (base + off) & M64
        a = AFF.get(base)
        for s in sym:
            a = AFF.add(a, s)
        a = ((a[0] + off) & M64, a[1])
        return AFF.expr(a)

    # ------------------------------------------------------------- solver
    def sync(self, st):
        pc = st.pc
        ss = self.sstack
        n = 0
        m = min(len(pc), len(ss))
        while n < m and pc[n] is ss[n]:
            n += 1
        if len(ss) > n:
            self.solver.pop(len(ss) - n)
            del ss[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            ss.append(c)

    def check(self, st, extra=None, full=False):
        """sat / unsat / unknown of pc (+ extra)"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        self.sync(st)
        t0 = time.time()
        self.stats['checks'] += 1
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set('timeout', self.timeout_ms * 2)
            s2.add(*st.pc)
            if extra is not None:
                s2.add(extra)
            r = s2.check()
            if r == z3.unknown:
                r = self.cvc5_check(s2)
        m = None
        if full and r == z3.sat:
            try:
                m = self.solver.model()
            except z3.Z3Exception:
                m = None
        if extra is not None:
            self.solver.pop()
        self.stats['solver_s'] += time.time() - t0
        if full:
            return r, m
        return r

    def cvc5_check(self, s):
        import subprocess
        import tempfile
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + s.to_smt2())
            r = subprocess.run(['cvc5', '--tlimit=20000', f.name], capture_output=True, text=True, timeout=30)
            os.unlink(f.name)
            if r.stdout.startswith('unsat'):
                self.stats['cvc5'] = self.stats.get('cvc5', 0) + 1
                return z3.unsat
            if r.stdout.startswith('sat'):
                return z3.sat
        except Exception:
            pass
        return z3.unknown

    def valid(self, st, cond):
        """is cond implied by the path condition?"""
        if isinstance(cond, int):
            return bool(cond)
        return self.check(st, z3.Not(cond)) == z3.unsat

    def freshvar(self, name, w):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), w)

    # ------------------------------------------------------------- obligations
    def fail(self, st, name, kind, reason='', cond=None, model=None):
        """an obligation that is not discharged on this path"""
        if self.quiet:
            raise PathEnd()
        self.undecidable()
        self.on_fail(st, name, kind, reason, cond, model)
        raise PathEnd()

    def undecidable(self):
        if self.approx:
            raise Unsupported('an obligation is not discharged, but %s is not interpreted' % self.approx)

    def obligation(self, st, cond, name, kind='post'):
        if cond is UNDEF:
            return self.fail(st, name, kind, 'depends on an uninitialised value')
        if self.quiet:
            # while searching invariants: just assume it
            if isinstance(cond, int):
                if not cond:
                    raise PathEnd()
            else:
                self.assume(st, cond)
            return
        if isinstance(cond, int):
            ok = bool(cond & 1)
            self.on_obligation(name, kind, ok)
            if not ok:
                r, m = self.check(st, None, full=True)
                if r == z3.unsat:
                    return
                self.undecidable()
                self.on_fail(st, name, kind, 'condition is false on this path' + ('' if r == z3.sat else ' (path feasibility unknown)'), None, m)
                raise PathEnd()
            return
        cond = self.tobool(cond)
        r, m = self.check(st, z3.Not(cond), full=True)
        if r == z3.unsat:
            self.on_obligation(name, kind, True)
            return
        self.undecidable()
        self.on_obligation(name, kind, False)
        self.on_fail(st, name, kind, 'solver: %s' % r, z3.Not(cond), m)
        # continue under the assumption so that later obligations are still examined
        st.pc.append(cond)
        if self.check(st) == z3.unsat:
            raise PathEnd()

    def assume(self, st, cond):
        if cond is UNDEF:
            raise Unsupported('assume undef')
        if isinstance(cond, int):
            if not cond & 1:
                raise PathEnd()
            return
        cond = self.tobool(cond)
        i = cond.get_id()
        if any(c.get_id() == i for c in st.pc):
            return
        st.pc.append(cond)
        if self.check(st) == z3.unsat:
            raise PathEnd()

    # ------------------------------------------------------------- memory
    def getobj(self, st, oid):
        o = st.objs.get(oid)
        if o is None:
            o = self.global_obj(st, oid)
        return o

    def resolve(self, st, ptr, size, what):
        """-> (obj, offset int, index expr or None)"""
        if ptr is UNDEF:
            self.fail(st, 'memory-safety', 'safety', '%s through uninitialised pointer' % what)
        if isinstance(ptr, int):
            a = (ptr, ())
        else:
            ptr = self.follow(st, ptr)
            a = (ptr, ()) if isinstance(ptr, int) else AFF.get(ptr)
        c = a[0]
        oid = c >> IDSHIFT
        if oid == 0 or (a[1] and self.getobj(st, oid) is None):
            if not a[1]:
                self.fail(st, 'memory-safety', 'safety', '%s through null pointer (%#x)' % (what, c))
            self.split_pointer(st, ptr)
        o = self.getobj(st, oid)
        if o is None:
            self.fail(st, 'memory-safety', 'safety', '%s of invalid address %#x' % (what, c))
        if not o.alive:
            self.fail(st, 'memory-safety', 'safety', '%s of freed memory (%s)' % (what, o.name))
        off = c - base_of(oid)
        if o.stride is not None:
            inner = off % o.stride
            ts = []
            for t, k in a[1]:
                k = sgn(k, 64)
                if k % o.stride:
                    self.split_pointer(st, ptr)
                ts.append((t, (k // o.stride) & M64))
            idx = AFF.expr((((off - inner) // o.stride) & M64, tuple(ts)))
            if inner + size > o.stride:
                raise Unsupported('access straddles region elements')
            if isinstance(idx, int) and isinstance(o.n, int):
                inb = int(idx < o.n)
            else:
                inb = z3.ULT(tobv(idx, 64), tobv(o.n, 64))
            if isinstance(inb, int):
                if not inb:
                    self.fail(st, 'memory-safety', 'safety', '%s out of bounds (%s)' % (what, o.name))
            elif not self.known(st, inb):
                self.obligation(st, inb, 'memory-safety', 'safety')
            return o, inner, idx
        if a[1]:
            self.split_pointer(st, ptr)
        if off < 0 or off + size > o.size:
            self.fail(st, 'memory-safety', 'safety', '%s out of bounds: offset %d size %d of %s[%d]' % (what, off, size, o.name, o.size))
        return o, off, None

    def known(self, st, c):
        i = c.get_id()
        g = st.ghost.get('known')
        if g and i in g:
            return True
        if self.check(st, z3.Not(c)) == z3.unsat:
            g = dict(g or {})
            g[i] = c
            st.ghost['known'] = g
            if not self.quiet:
                self.on_obligation('memory-safety', 'safety', True)
            return True
        return False

    def follow(self, st, ptr):
        while not isinstance(ptr, int):
            r = st.conc.get(ptr.get_id())
            if r is None:
                return ptr
            ptr = r[1]
        return ptr

    def split_pointer(self, st, ptr):
        """ptr is symbolic: split the path on its possible values"""
        ptr = self.follow(st, ptr)
        key = ptr
        it = self.find_ite(ptr)
        if it is not None:
            c, x, y = it.children()
            pa = simp(z3.substitute(ptr, (it, x)))
            pb = simp(z3.substitute(ptr, (it, y)))
            raise ForkReq([(c, (key, pa)), (z3.Not(c), (key, pb))])
        # enumerate concrete values
        vals = []
        s = None
        self.sync(st)
        self.solver.push()
        try:
            while True:
                if self.solver.check() != z3.sat:
                    break
                v = self.solver.model().eval(ptr, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > 40:
                    raise Unsupported('pointer with too many values: %s' % str(ptr)[:120])
                self.solver.add(ptr != v)
        finally:
            self.solver.pop()
        if not vals:
            raise PathEnd()
        raise ForkReq([(ptr == v, (key, v)) for v in vals])

    def find_ite(self, e):
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and isinstance(x, z3.BitVecRef):
                return x
            stack.extend(x.children())
        return None

    def load(self, st, ptr, ty):
        ty = self.mod.strip(ty)
        if ty[0] in ('st', 'arr'):
            out = []
            n = len(ty[1]) if ty[0] == 'st' else ty[1]
            for i in range(n):
                if ty[0] == 'st':
                    fo, ft = self.mod.field_offset(ty, i)
                else:
                    fo, ft = i * self.mod.sizeof(ty[2]), ty[2]
                out.append(self.load(st, self.padd(ptr, fo), ft))
            return out
        if ty[0] == 'vec':
            raise Unsupported('vector load')
        size = (width_of(ty) + 7) // 8
        o, off, idx = self.resolve(st, ptr, size, 'read')
        self.lockcheck(st, o, off, size, 'read')
        if idx is not None:
            return self.fit(self.rread(st, o, off, idx, size), ty)
        v = self.oread(o, off, size)
        return self.fit(v, ty)

    def fit(self, v, ty):
        if v is UNDEF or isinstance(v, Part):
            return UNDEF if v is UNDEF or width_of(ty) % 8 else v
        w = width_of(ty)
        if w % 8:
            if isinstance(v, int):
                return v & mask(w)
            if w == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return z3.Extract(w - 1, 0, v)
        return v

    def padd(self, p, off):
        if off == 0:
            return p
        if isinstance(p, int):
            return (p + off) & M64
        if p is UNDEF:
            return p
        r = p
        a = AFF.get(p)
        return AFF.expr(((a[0] + off) & M64, a[1]))

    def oread(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # assemble bytes
        return assemble([self.obyte(o, off + i) for i in range(size)])

    def obyte(self, o, off):
        c = o.cells.get(off)
        if c is not None:
            v = c[1]
            if isinstance(v, int):
                return v & 255
            if v is UNDEF:
                return UNDEF
            if c[0] == 1:
                return v
            return z3.Extract(7, 0, v)
        for d in range(1, 16):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    v = c[1]
                    if isinstance(v, int):
                        return (v >> (8 * d)) & 255
                    if v is UNDEF:
                        return UNDEF
                    return z3.Extract(8 * d + 7, 8 * d, v)
                return UNDEF
        return UNDEF

    def oclear(self, o, off, size):
        """remove/split cells overlapping [off, off+size) ; o is owned"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            del cells[off]
            return
        for s in range(off - 15, off + size):
            c = cells.get(s)
            if c is None or s + c[0] <= off:
                continue
            w, v = c
            if s >= off and s + w <= off + size:
                del cells[s]
                continue
            # partial: split into bytes
            bs = [(s + i, self.obyte(o, s + i)) for i in range(w)]
            del cells[s]
            for p, b in bs:
                if not (off <= p < off + size) and b is not UNDEF:
                    cells[p] = (1, b)

    def store(self, st, ptr, v, ty):
        ty = self.mod.strip(ty)
        if ty[0] in ('st', 'arr'):
            n = len(ty[1]) if ty[0] == 'st' else ty[1]
            for i in range(n):
                if ty[0] == 'st':
                    fo, ft = self.mod.field_offset(ty, i)
                else:
                    fo, ft = i * self.mod.sizeof(ty[2]), ty[2]
                self.store(st, self.padd(ptr, fo), v[i] if v is not UNDEF else UNDEF, ft)
            return
        if ty[0] == 'vec':
            raise Unsupported('vector store')
        w = width_of(ty)
        size = (w + 7) // 8
        if isinstance(v, z3.BoolRef):
            v = tobv(v, 8 * size)
        elif isz(v) and v.size() != 8 * size:
            v = z3.ZeroExt(8 * size - v.size(), v)
        o, off, idx = self.resolve(st, ptr, size, 'write')
        self.lockcheck(st, o, off, size, 'write')
        self.put(st, o, off, idx, size, v)

    def put(self, st, o, off, idx, size, v):
        if o.kind == 'const':
            self.fail(st, 'memory-safety', 'safety', 'write to constant')
        o = st.wobj(o)
        if idx is not None:
            self.rwrite(st, o, off, idx, size, UNDEF if isinstance(v, Part) else v)
            return
        self.oclear(o, off, size)
        if isinstance(v, Part):
            for i, b in enumerate(v.bs):
                if b is not UNDEF:
                    o.cells[off + i] = (1, b)
        elif v is not UNDEF:
            o.cells[off] = (size, v)

    def lockcheck(self, st, o, off, size, what):
        g = st.guards.get(o.id)
        if g:
            for (lo, hi, lockaddr) in g:
                if off < hi and off + size > lo:
                    if not st.ghost.get(('lock', lockaddr)):
                        self.fail(st, 'guarded-by-lock', 'safety', '%s of lock protected state without holding the lock' % what)

    # region cells
    def rread(self, st, o, inner, idx, size):
        c = o.cells.get(inner)
        if c is None:
            for k, x in o.cells.items():
                if k < inner + size and inner < k + x.w:
                    # sub-read of a wider cell
                    if k <= inner and inner + size <= k + x.w:
                        v = x.read(idx)
                        sh = (inner - k) * 8
                        if isinstance(v, int):
                            return (v >> sh) & mask(size * 8)
                        return simp(z3.Extract(sh + size * 8 - 1, sh, v))
                    raise Unsupported('region cell width mismatch')
            if o.kind == 'heapregion':
                return UNDEF
            arr = self.freshfun('%s+%d' % (o.name, inner), size * 8)
            o = st.wobj(o)
            o.cells[inner] = RCell(size, arr)
            # contents are an input of the contract: must be the same on every fork
            return o.cells[inner].read(idx)
        if c.w != size:
            if c.w < size:
                parts = []
                p = inner
                while p < inner + size:
                    x = o.cells.get(p)
                    if x is None:
                        raise Unsupported('region cell width mismatch')
                    v = x.read(idx)
                    if v is UNDEF:
                        return UNDEF
                    parts.append(tobv(v, x.w * 8))
                    p += x.w
                if p != inner + size:
                    raise Unsupported('region cell width mismatch')
                return simp(z3.Concat(*reversed(parts)))
            if c.w > size:
                v = c.read(idx)
                if isinstance(v, int):
                    return v & mask(size * 8)
                return simp(z3.Extract(size * 8 - 1, 0, v))
            raise Unsupported('region cell width mismatch')
        return c.read(idx)

    def freshfun(self, name, w):
        self.fresh += 1
        f = z3.Function('%s!%d' % (name, self.fresh), z3.BitVecSort(64), z3.BitVecSort(w))
        return lambda i, f=f: f(tobv(i, 64))

    def rwrite(self, st, o, inner, idx, size, v):
        c = o.cells.get(inner)
        if c is None:
            for k, x in o.cells.items():
                if k < inner + size and inner < k + x.w:
                    raise Unsupported('region cell width mismatch (write)')
            if o.kind == 'heapregion':
                c = RCell(size, lambda i: UNDEF)
            else:
                c = RCell(size, self.freshfun('%s+%d' % (o.name, inner), size * 8))
        if c.w != size:
            raise Unsupported('region cell width mismatch (write)')
        o.cells[inner] = c.write(idx, v)

    def memcpy(self, st, d, s, n):
        if isz(n):
            n = simp(n)
        if isz(n):
            return self.memcpy_sym(st, d, s, n)
        if n == 0:
            return
        so, soff, sidx = self.resolve(st, s, 1, 'read')
        do, doff, didx = self.resolve(st, d, 1, 'write')
        if sidx is None and soff + n > so.size or didx is None and doff + n > do.size:
            self.fail(st, 'memory-safety', 'safety', 'memcpy out of bounds')
        self.lockcheck(st, so, soff, n, 'read')
        self.lockcheck(st, do, doff, n, 'write')
        if sidx is None and didx is None:
            if n > 4096 or len(so.cells) < n:
                items = [(o2, c) for o2, c in so.cells.items() if o2 < soff + n and o2 + c[0] > soff]
            else:
                items = []
                for p in range(soff - 15, soff + n):
                    c = so.cells.get(p)
                    if c is not None and p + c[0] > soff:
                        items.append((p, c))
            new = {}
            for p, (w, v) in items:
                if p >= soff and p + w <= soff + n:
                    new[p - soff + doff] = (w, v)
                else:
                    for i in range(w):
                        if soff <= p + i < soff + n:
                            b = self.obyte(so, p + i)
                            if b is not UNDEF:
                                new[p + i - soff + doff] = (1, b)
            do = st.wobj(do)
            self.oclear_range(do, doff, n)
            do.cells.update(new)
            return
        # region <-> object: word wise
        i = 0
        while i < n:
            step = 8 if n - i >= 8 else 1
            # find natural cell width in source
            v = self.load(st, self.padd(s, i), ('i', 8 * step))
            self.store(st, self.padd(d, i), v, ('i', 8 * step))
            i += step

    def oclear_range(self, o, off, n):
        if n <= 64:
            self.oclear(o, off, n)
            return
        for p, (w, v) in list(o.cells.items()):
            if p < off + n and p + w > off:
                if p >= off and p + w <= off + n:
                    del o.cells[p]
                else:
                    self.oclear(o, max(p, off), min(p + w, off + n) - max(p, off))

    def memcpy_sym(self, st, d, s, n):
        so, soff, sidx = self.resolve_region(st, s)
        do, doff, didx = self.resolve_region(st, d)
        if so is None or do is None or soff or doff or so.stride != do.stride:
            raise Unsupported('memcpy of symbolic length')
        # element-wise copy of cnt elements starting at index sidx -> didx
        cnt = AFF.get(n)
        if cnt[0] % so.stride or any(k % so.stride for _, k in cnt[1]):
            raise Unsupported('memcpy of symbolic length (stride)')
        c = AFF.expr((cnt[0] // so.stride, tuple((t, k // so.stride) for t, k in cnt[1])))
        do = st.wobj(do)
        for inner, cell in so.cells.items():
            old = do.cells.get(inner)
            oldread = old.read if old else (lambda i: UNDEF)
            def base(i, cell=cell, oldread=oldread, c=c, w=cell.w):
                inn = z3.ULT(tobv(i, 64) - tobv(didx, 64), tobv(c, 64))
                v = cell.read(AFF.expr(AFF.add(AFF.sub(AFF.get(i), AFF.get(didx)), AFF.get(sidx))))
                o2 = oldread(i)
                if o2 is UNDEF:
                    return v
                return simp(z3.If(inn, tobv(v, 8 * w), tobv(o2, 8 * w)))
            do.cells[inner] = RCell(cell.w, base)

    def resolve_region(self, st, ptr):
        a = AFF.get(ptr)
        oid = a[0] >> IDSHIFT
        o = self.getobj(st, oid)
        if o is None or o.stride is None:
            return None, 0, 0
        off = a[0] - base_of(oid)
        inner = off % o.stride
        ts = tuple((t, (sgn(k, 64) // o.stride) & M64) for t, k in a[1])
        return o, inner, AFF.expr((((off - inner) // o.stride) & M64, ts))

    def memset(self, st, d, v, n):
        if isz(n):
            raise Unsupported('memset of symbolic length')
        if n == 0:
            return
        do, doff, didx = self.resolve(st, d, 1, 'write')
        if didx is not None:
            if isz(v) or n % 8:
                raise Unsupported('memset region')
            for q in range(0, n, 8):
                self.store(st, self.padd(d, q), (v & 255) * 0x0101010101010101, ('i', 64))
            return
        if doff + n > do.size:
            self.fail(st, 'memory-safety', 'safety', 'memset out of bounds')
        do = st.wobj(do)
        self.oclear_range(do, doff, n)
        if isinstance(v, int):
            i = 0
            while i < n:
                w = 8 if n - i >= 8 and (doff + i) % 8 == 0 else (4 if n - i >= 4 and (doff + i) % 4 == 0 else 1)
                x = 0
                for _ in range(w):
                    x = (x << 8) | (v & 255)
                do.cells[doff + i] = (w, x)
                i += w
        else:
            for i in range(n):
                do.cells[doff + i] = (1, v)

    def cstr(self, st, ptr):
        o, off, _ = self.resolve(st, ptr, 1, 'read')
        out = bytearray()
        while True:
            b = self.oread(o, off, 1)
            if b == 0:
                return out.decode('latin1')
            if not isinstance(b, int):
                return out.decode('latin1') + '?'
            out.append(b)
            off += 1

    # ------------------------------------------------------------- execution
    def call_function(self, st, name, args, ret_to=None):
        fn = self.mod.funcs[name]
        fn.parse()
        self.executed.add(name)
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        fr = Frame(fn)
        fr.ret_to = ret_to
        for (t, nm, col), a in zip(fn.params, args):
            fr.locals[nm] = a
        st.frames.append(fr)
        self.goto(st, fr, fn.entry)

    def goto(self, st, fr, lab):
        prev = fr.block
        fn = fr.fn
        instrs = fn.blocks[lab]
        # phis
        ip = 0
        if instrs and instrs[0][0] == 'phi':
            vals = []
            for ins in instrs:
                if ins[0] != 'phi':
                    break
                vals.append((ins[1], self.ev(fr, ins[3][prev], ins[2])))
                ip += 1
            for n, v in vals:
                fr.locals[n] = v
        fr.prev = prev
        fr.block = lab
        fr.ip = ip
        loops = fn.loops if fn.loops is not None else fn.compute_loops()
        if not loops:
            return
        if st.cutstop and st.cutstop[0] == len(st.frames) and lab not in loops[st.cutstop[1]]:
            raise PathEnd()   # left the loop under analysis
        if fr.snaps:
            # leaving loops drops their snapshots
            for h in list(fr.snaps):
                if lab not in loops[h]:
                    del fr.snaps[h]
                    del fr.iters[h]
        if lab in loops:
            body = loops[lab]
            if prev is not None and prev in body:
                # back edge
                if fr.snaps and isinstance(fr.snaps.get(lab), ClosedSnap):
                    raise PathEnd()   # inductive step already proved
                if st.cutstop == (len(st.frames), lab):
                    raise Arrival(st)
                if fr.snaps and lab in fr.snaps:
                    fr.iters[lab] += 1
                    snap = fr.snaps[lab]
                    if snap.sym > self.unroll:
                        raise CutReq(snap)
                    if fr.iters[lab] > self.maxforkiters and len(st.pc) - len(snap.state.pc) > fr.iters[lab] // 2:
                        # every iteration forks, and there is no end to it
                        raise CutReq(snap)
                    if fr.iters[lab] > 20000:
                        raise Unsupported('loop does not terminate within 20000 concrete iterations')
                    if snap.sym == 0 and fr.iters[lab] <= 3 and len(st.pc) == len(snap.state.pc):
                        snap.late.append(st.copy())
            else:
                if fr.snaps is None:
                    fr.snaps = {}
                    fr.iters = {}
                c = st.copy()
                snap = Snap(c, len(st.frames), lab)
                fr.snaps[lab] = snap
                fr.iters[lab] = 0

    def branch(self, st, fr, cond, a, b):
        """two-way branch; returns list of extra states"""
        if cond is UNDEF:
            self.fail(st, 'uninitialised-value', 'safety', 'branch on an uninitialised value')
        if isinstance(cond, int):
            self.goto(st, fr, a if cond & 1 else b)
            return None
        cond = self.tobool(cond)
        fa = self.check(st, cond) != z3.unsat
        if not fa:
            self.goto(st, fr, b)
            return None
        fb = self.check(st, z3.Not(cond)) != z3.unsat
        if not fb:
            self.goto(st, fr, a)
            return None
        # both feasible
        first, second, c1, c2 = a, b, cond, z3.Not(cond)
        if fr.snaps:
            loops = fr.fn.loops
            for h, snap in fr.snaps.items():
                ina, inb = a in loops[h], b in loops[h]
                if ina != inb:
                    snap.sym += 1
                    if inb and not ina:
                        first, second, c1, c2 = b, a, z3.Not(cond), cond
        other = st.copy()
        other.pc.append(c2)
        st.pc.append(c1)
        # goto may raise Arrival/CutReq : schedule the other side first
        self.work.append((other, second))
        self.goto(st, fr, first)
        return None

    def unwind(self, st, exc, tinfo, popfirst=False):
        """propagate an exception: top frame's current instruction is the throwing call"""
        st.inflight = (exc, tinfo)
        while True:
            if not st.frames or (st.stop_depth is not None and len(st.frames) <= st.stop_depth):
                self.fail(st, 'no-uncaught-exception', 'safety', 'exception %s escapes' % self.tname(tinfo))
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.ip - 1] if fr.ip else None
            if ins is not None and ins[0] == 'call' and ins[6] is not None:
                lab = ins[6]
                if self.pad_matches(fr.fn, lab, tinfo):
                    self.goto(st, fr, lab)
                    return
            self.pop_frame(st)
            if st.cutstop and len(st.frames) < st.cutstop[0]:
                raise PathEnd()

    def pad_matches(self, fn, lab, tinfo):
        for ins in fn.blocks[lab]:
            if ins[0] == 'landingpad':
                if ins[2]:
                    return True
                for kind, op in ins[3]:
                    if kind == 'filter':
                        return True
                    if self.tmatch(tinfo, self.const(op, PTR)):
                        return True
                return False
        return True

    def tname(self, t):
        n = self.idg.get(t >> IDSHIFT, '?')
        return self.dem.get(n, n)

    STDBASE = {
        '_ZTISt13runtime_error': ['_ZTISt9exception'],
        '_ZTISt11logic_error': ['_ZTISt9exception'],
        '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
        '_ZTISt12length_error': ['_ZTISt11logic_error'],
        '_ZTISt9bad_alloc': ['_ZTISt9exception'],
        '_ZTISt8bad_cast': ['_ZTISt9exception'],
        '_ZTISt17bad_function_call': ['_ZTISt9exception'],
    }

    def tbases(self, name):
        if name in self.STDBASE:
            return self.STDBASE[name]
        if name in self.mod.globals:
            ty, init = self.mod.global_info(name)
            if init and init[0] == 'agg':
                out = []
                for t, v in init[1][2:]:
                    if v[0] == 'g' and v[1].startswith('_ZTI'):
                        out.append(v[1])
                return out
        return []

    def tmatch(self, thrown, catch):
        if catch == 0:
            return True
        a = self.idg[thrown >> IDSHIFT]
        b = self.idg[catch >> IDSHIFT]
        todo = [a]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            todo += self.tbases(x)
        return False

    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = st.objs.get(oid)
            if o is not None:
                o = st.wobj(o)
                o.alive = False
                o.cells = {}
                del st.objs[oid]
        return fr

    def ret(self, st, val):
        if st.cutstop and len(st.frames) == st.cutstop[0]:
            raise PathEnd()
        fr = self.pop_frame(st)
        if st.stop_depth is not None and len(st.frames) == st.stop_depth:
            st.retval = val
            raise Returned(st)
        if not st.frames:
            st.retval = val
            raise Returned(st)
        caller = st.frames[-1]
        ins = caller.fn.blocks[caller.block][caller.ip - 1]
        if ins[0] == 'call':
            if ins[1] is not None:
                caller.locals[ins[1]] = val
            if ins[5] is not None:
                self.goto(st, caller, ins[5])

    def finish_call(self, st, fr, ins, val):
        """result of a modelled call"""
        if ins[1] is not None:
            fr.locals[ins[1]] = val
        if ins[5] is not None:
            self.goto(st, fr, ins[5])

    def model_for(self, name):
        if name in self._model_cache:
            return self._model_cache[name]
        m = self.models.get(name)
        if m is None:
            for rx, f in self.patterns:
                if rx.search(name):
                    m = f
                    break
        if m is None and name.startswith('llvm.'):
            base = name
            while m is None and '.' in base:
                base = base.rsplit('.', 1)[0]
                m = self.models.get(base + '.*')
        self._model_cache[name] = m
        return m

    def do_call(self, st, fr, ins):
        op, dst, rt, callee, args, norm, unw = ins
        k = callee[0]
        if k == 'g':
            name = callee[1]
            if name in self.mod.aliases:
                a = self.mod.aliases[name]
                name = a[1] if a[0] == 'g' else name
        else:
            v = self.ev(fr, callee, PTR)
            name = self.fn_from_ptr(st, v)
        vals = []
        for t, o, byval in args:
            v = self.ev(fr, o, t) if t[0] != 'meta' else 0
            if byval is not None:
                sz = self.mod.sizeof(byval)
                ob = st.new_obj(sz, 'stack', 'byval')
                fr.allocas.append(ob.id)
                self.memcpy(st, base_of(ob.id), v, sz)
                v = base_of(ob.id)
            vals.append(v)
        m = self.model_for(name)
        if m is not None:
            fr.ip += 1
            try:
                depth = len(st.frames)
                r = m(self, st, vals, name)
            except ForkReq:
                fr.ip -= 1
                raise
            if r is NORETURN:
                return
            if r is PUSHED:
                return
            self.finish_call(st, fr, ins, r)
            return
        rep = st.ghost.get('replace')
        if rep:
            dn = self.dem.get(name, name)
            for sub, f in rep:
                if sub in dn and dn.split('(')[0].endswith(sub.split('(')[0]):
                    self.replaced.add((dn, f))
                    name = f
                    break
        fn = self.mod.funcs.get(name)
        if fn is None:
            raise Unsupported('call to external function %s' % self.dem.get(name, name))
        fr.ip += 1
        self.call_function(st, name, vals)

    def fn_from_ptr(self, st, v):
        if v is UNDEF:
            self.fail(st, 'memory-safety', 'safety', 'call through uninitialised pointer')
        if isz(v):
            v = self.follow(st, v)
            if isz(v):
                v2 = simp(v)
                if isz(v2):
                    self.split_pointer(st, v)
                v = v2
        if isz(v):
            self.split_pointer(st, v)
        name = self.idg.get(v >> IDSHIFT)
        if name is None or v != base_of(v >> IDSHIFT):
            self.fail(st, 'memory-safety', 'safety', 'call through invalid function pointer %#x' % v)
        if name == '__cxa_pure_virtual':
            self.fail(st, 'memory-safety', 'safety', 'pure virtual call')
        return name

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block][fr.ip]
        op = ins[0]
        self.stats['steps'] += 1
        L = fr.locals
        if op == 'load':
            L[ins[1]] = self.load(st, self.ev(fr, ins[3], PTR), ins[2])
        elif op == 'store':
            self.store(st, self.ev(fr, ins[4], PTR), self.ev(fr, ins[3], ins[2]), ins[2])
        elif op == 'gep':
            L[ins[1]] = self.gep(ins[2], self.ev(fr, ins[3], PTR), [(t, self.ev(fr, o, t)) for t, o in ins[4]])
        elif op == 'call':
            self.do_call(st, fr, ins)
            return
        elif op == 'br':
            self.goto(st, fr, ins[2])
            return
        elif op == 'cbr':
            self.branch(st, fr, self.ev(fr, ins[2], I1), ins[3], ins[4])
            return
        elif op == 'icmp':
            L[ins[1]] = self.icmp(ins[2], ins[3], self.ev(fr, ins[4], ins[3]), self.ev(fr, ins[5], ins[3]))
        elif op == 'bin':
            vb = self.ev(fr, ins[5], ins[3])
            if ins[2] in ('udiv', 'sdiv', 'urem', 'srem') and not (isinstance(vb, int) and vb) and ins[3][0] == 'i':
                if isz(vb):
                    self.obligation(st, simp(vb != 0), 'no-division-by-zero', 'safety')
                else:
                    self.fail(st, 'no-division-by-zero', 'safety', 'divides by %s' % vb)
            L[ins[1]] = self.binop(ins[2], ins[3], self.ev(fr, ins[4], ins[3]), vb)
        elif op == 'cast':
            L[ins[1]] = self.cast(ins[2], ins[3], self.ev(fr, ins[4], ins[3]), ins[5])
        elif op == 'ret':
            v = None if ins[3] is None else self.ev(fr, ins[3], ins[2])
            fr.ip += 1
            self.ret(st, v)
            return
        elif op == 'alloca':
            n = self.ev(fr, ins[3], I64)
            if not isinstance(n, int):
                raise Unsupported('dynamic alloca')
            o = st.new_obj(self.mod.sizeof(ins[2]) * n, 'stack', '%s' % ins[1])
            fr.allocas.append(o.id)
            L[ins[1]] = base_of(o.id)
        elif op == 'extractvalue':
            v = self.ev(fr, ins[3], ins[2])
            for i in ins[4]:
                v = v[i]
            L[ins[1]] = v
        elif op == 'insertvalue':
            v = self.ev(fr, ins[3], ins[2])
            x = self.ev(fr, ins[5], ins[4])
            L[ins[1]] = self.insertv(v, ins[6], x)
        elif op == 'select':
            c = self.ev(fr, ins[2], I1)
            a = self.ev(fr, ins[4], ins[3])
            b = self.ev(fr, ins[5], ins[3])
            if c is UNDEF:
                L[ins[1]] = UNDEF
            elif isinstance(c, int):
                L[ins[1]] = a if c & 1 else b
            elif a is UNDEF or b is UNDEF or isinstance(a, (list, Part)) or isinstance(b, Part):
                cb = self.tobool(c)
                other = st.copy()
                other.pc.append(z3.Not(cb))
                other.frames[-1].locals[ins[1]] = b
                other.frames[-1].ip += 1
                if self.check(other) != z3.unsat:
                    self.work.append((other, None))
                st.pc.append(cb)
                if self.check(st) == z3.unsat:
                    raise PathEnd()
                L[ins[1]] = a
            else:
                w = width_of(ins[3])
                cb = self.tobool(c)
                if w == 1:
                    L[ins[1]] = simp(z3.If(cb, self.tobool(a), self.tobool(b)))
                else:
                    L[ins[1]] = simp(z3.If(cb, tobv(a, w), tobv(b, w)))
        elif op == 'switch':
            self.do_switch(st, fr, ins)
            return
        elif op == 'landingpad':
            exc, tinfo = st.inflight
            sel = None
            for kind, o in ins[3]:
                if kind == 'filter':
                    raise Unsupported('filter clause')
                t = self.const(o, PTR)
                if self.tmatch(tinfo, t):
                    sel = self.typeid(t)
                    break
            if sel is None:
                sel = 0
            L[ins[1]] = [exc, sel]
        elif op == 'resume':
            v = self.ev(fr, ins[2])
            exc, tinfo = st.inflight if st.inflight and st.inflight[0] == v[0] else (v[0], st.excinfo[v[0]])
            self.pop_frame(st)
            if st.cutstop and len(st.frames) < st.cutstop[0]:
                raise PathEnd()
            self.unwind(st, exc, tinfo)
            return
        elif op == 'unreachable':
            self.fail(st, 'unreachable', 'safety', 'reaches code the compiler assumes unreachable')
        elif op == 'freeze':
            v = self.ev(fr, ins[3], ins[2])
            L[ins[1]] = v
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            p = self.ev(fr, ins[4], PTR)
            old = self.load(st, p, ins[3])
            v = self.ev(fr, ins[5], ins[3])
            o = ins[2]
            if o == 'xchg':
                new = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(o, ins[3], old, v)
            else:
                raise Unsupported('atomicrmw ' + o)
            self.store(st, p, new, ins[3])
            L[ins[1]] = old
        elif op == 'cmpxchg':
            p = self.ev(fr, ins[3], PTR)
            old = self.load(st, p, ins[2])
            exp = self.ev(fr, ins[4], ins[2])
            new = self.ev(fr, ins[5], ins[2])
            eq = self.icmp('eq', ins[2], old, exp)
            if isinstance(eq, int):
                if eq:
                    self.store(st, p, new, ins[2])
            else:
                w = width_of(ins[2])
                self.store(st, p, simp(z3.If(eq, tobv(new, w), tobv(old, w))), ins[2])
            L[ins[1]] = [old, eq]
        elif op == 'fcmp':
            a, b = self.ev(fr, ins[4], ins[3]), self.ev(fr, ins[5], ins[3])
            if isinstance(a, int) and isinstance(b, int):
                if ins[3][1] == 'double':
                    a, b = [struct.unpack('<d', struct.pack('<Q', x))[0] for x in (a, b)]
                else:
                    a, b = [struct.unpack('<f', struct.pack('<I', x))[0] for x in (a, b)]
                p = ins[2][1:] if ins[2][0] in 'ou' else ins[2]
                L[ins[1]] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
            else:
                L[ins[1]] = simp(self.flop('fcmp' + ins[2], width_of(ins[3]), 8, a, b) == 1)
        elif op == 'phi':
            raise Unsupported('phi in the middle')
        else:
            raise Unsupported('instruction %s' % (ins[2] if op == 'unsupported' else op))
        fr.ip += 1

    def insertv(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insertv(v[idx[0]], idx[1:], x)
        return v

    def typeid(self, t):
        if t == 0:
            return 1 << 30
        return self.typeids.setdefault(t, len(self.typeids) + 1)

    def do_switch(self, st, fr, ins):
        v = self.ev(fr, ins[3], ins[2])
        if v is UNDEF:
            self.fail(st, 'uninitialised-value', 'safety', 'switch on an uninitialised value')
        if isinstance(v, int):
            for c, lab in ins[5]:
                if c == v:
                    self.goto(st, fr, lab)
                    return
            self.goto(st, fr, ins[4])
            return
        w = width_of(ins[2])
        alts = []
        neg = []
        v = tobv(v, w)
        for c, lab in ins[5]:
            e = v == z3.BitVecVal(c, w)
            neg.append(z3.Not(e))
            if self.check(st, e) != z3.unsat:
                alts.append((e, lab))
        d = z3.And(*neg) if neg else z3.BoolVal(True)
        if self.check(st, d) != z3.unsat:
            alts.append((d, ins[4]))
        if not alts:
            raise PathEnd()
        for e, lab in alts[1:]:
            o = st.copy()
            o.pc.append(e)
            self.work.append((o, lab))
        st.pc.append(alts[0][0])
        self.goto(st, fr, alts[0][1])

    # ------------------------------------------------------------- drivers
    def dead(self, st):
        """is some loop snapshot of this state already covered by a cut?"""
        for f in st.frames:
            if f.snaps:
                for s in f.snaps.values():
                    if s.cut:
                        return True
        return False

    def explore(self, st, on_return=None, on_arrival=None):
        """run st and everything it forks to completion"""
        saved = getattr(self, 'work', None)
        self.work = [(st, None)]
        try:
            while self.work:
                s, lab = self.work.pop()
                if self.dead(s):
                    continue
                try:
                    if lab is not None:
                        self.goto(s, s.frames[-1], lab)
                    n = 0
                    while True:
                        try:
                            self.step(s)
                        except ForkReq as fq:
                            for c, rep in fq.alts:
                                o = s.copy()
                                o.pc.append(c)
                                if rep is not None:
                                    key, val = rep
                                    o.conc[key.get_id()] = (key, val)
                                if self.check(o) != z3.unsat:
                                    self.work.append((o, None))
                            raise PathEnd()
                        n += 1
                        if n & 1023 == 0:
                            if self.deadline and time.time() > self.deadline:
                                raise Budget('time budget exhausted')
                            if n > self.max_steps:
                                raise Budget('step budget exhausted')
                except PathEnd:
                    self.stats['paths'] += 1
                except Returned as r:
                    self.stats['paths'] += 1
                    if on_return:
                        on_return(r.state)
                except Arrival as a:
                    self.stats['paths'] += 1
                    if on_arrival is None:
                        raise Unsupported('unexpected arrival')
                    on_arrival(a.state)
                except CutReq as cr:
                    # (the loop may belong to this exploration only)
                    if cr.snap.cut:
                        continue
                    cr.snap.cut = True
                    self.stats['cuts'] += 1
                    self.work = [(x, l) for x, l in self.work if not self.dead(x)]
                    try:
                        self.cut(cr.snap)
                    except Unsupported:
                        # the first iterations may be of another kind than the
                        # rest: let them run, as long as they are the only path
                        for late in cr.snap.late:
                            f = late.frames[-1]
                            f.snaps.pop(cr.snap.header, None)
                            f.iters.pop(cr.snap.header, None)
                            try:
                                self.cut(Snap(late, cr.snap.depth, cr.snap.header))
                                break
                            except Unsupported as e:
                                self.cand_log.append('later cut: %s' % e)
                        else:
                            raise
        finally:
            self.work = saved

    # ---- loop cutting
    def cut(self, snap):
        S0 = snap.state.copy()
        fr0 = S0.frames[-1]
        fn = fr0.fn
        header = snap.header
        depth = snap.depth
        assert len(S0.frames) == depth
        phis = [(i[1], i[2]) for i in fn.blocks[header] if i[0] == 'phi']
        phin = {n: (width_of(t) if t[0] in ('i', 'ptr', 'f') else 0) for n, t in phis}
        where = '%s:%s' % (self.dem.get(fn.name, fn.name), header)
        # write set: key -> dict(kind, cand)
        W = {}
        dropped = set()
        invdrop = set()
        klim = set()
        rounds = 0

        def mk(k):
            S = S0.copy()
            f = S.frames[-1]
            if f.snaps and header in f.snaps:
                del f.snaps[header]
                del f.iters[header]
            S.pc.append(z3.ULT(k, z3.BitVecVal(SMALL_LIMIT, 64)))
            for key, info in W.items():
                v = self.cand_value(S0, key, info, k)
                self.setloc(S, key, v)
            for li in range(len(S.lens)):
                if ('len', li) not in invdrop:
                    S.pc.append(z3.ULE(k, tobv(S.lens[li], 64)))
            for ii, inv in enumerate(S.invs):
                if inv[5]:
                    for key, info in W.items():
                        if self.flagged(key, info) and ('flag', ii, key) not in invdrop:
                            c = self.flag_inv(S, inv, key, k)
                            if c is not None:
                                S.pc.append(c)
                    continue
                if ('inv', ii) not in invdrop:
                    for j in [inv[2], k] + list(inv[3]):
                        c = self.eval_inv(S, inv, k, j)
                        if c is not None and not isinstance(c, int):
                            S.pc.append(c)
                        elif c == 0:
                            S.pc.append(z3.BoolVal(False))
            return S
        # initial candidates must hold at entry
        for li in range(len(S0.lens)):
            pass  # 0 <= n always
        for ii, inv in enumerate(S0.invs):
            if inv[5]:
                continue
            c = self.eval_inv(S0, inv, 0, inv[2])
            if c is None or not self.valid(S0, c):
                invdrop.add(('inv', ii))
                self.cand_log.append('%s: invariant %s does not hold on entry' % (where, inv[4]))
        k = None
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported('loop invariant inference does not converge')
            first = rounds == 1
            self.fresh += 1
            k = z3.BitVec('k!%d' % self.fresh, 64)
            AFF.small.add(k.get_id())
            AFF.keep.append(k)
            if first:
                S = S0.copy()
                f = S.frames[-1]
                if f.snaps and header in f.snaps:
                    del f.snaps[header]
                    del f.iters[header]
                kk, k1 = 0, 1
            else:
                S = mk(k)
                kk, k1 = k, k + 1
                AFF.small.add(k1.get_id())
                AFF.keep.append(k1)
            start = S.copy()
            S.cutstop = (depth, header)
            arrivals = []
            self.quiet += 1
            saved_stop = S.stop_depth
            try:
                if not first and self.check(S) == z3.unsat:
                    break
                self.explore(S, on_return=lambda s: None, on_arrival=lambda s: arrivals.append(s))
            finally:
                self.quiet -= 1
            changed = False
            for A in arrivals:
                for key in self.diff(start, A, phin):
                    if key in W:
                        continue
                    if key[0] == 'c':
                        lo, hi = key[2], key[2] + key[3]
                        if all(('c', key[1], i, 1) in W for i in range(lo, hi)):
                            continue
                        over = [q for q in W if q[0] == 'c' and q[1] == key[1] and q[2] < hi and lo < q[2] + q[3]]
                        if over:
                            # the same bytes, differently divided: byte by byte
                            for q in over:
                                del W[q]
                            for q in over + [key]:
                                for i in range(q[2], q[2] + q[3]):
                                    W[('c', key[1], i, 1)] = dict(cand=None)
                            changed = True
                            continue
                    W[key] = dict(cand=self.guess(S0, start, A, key, kk))
                    changed = True
            if changed or first:
                if first and not W and not S0.invs:
                    # nothing changes: still need a second look with k symbolic
                    pass
                if changed or first:
                    continue
            for A in arrivals:
                for key, info in W.items():
                    if info['cand'] is None:
                        continue
                    want = self.cand_value(S0, key, info, k1)
                    have = self.getloc(A, key, want)
                    if not self.same(A, key, have, want):
                        old = info['cand']
                        info['cand'] = None
                        if key[0] == 'r' and old == ('same',) and isinstance(have, RCell):
                            # element k gets a constant in iteration k?
                            s0 = self.getloc(S0, key, None)
                            nw = have.writes[len(s0.writes):] if s0 is not None and have.base is s0.base else ()
                            if len(nw) == 1 and isinstance(nw[0][1], int):
                                d = AFF.sub(AFF.get(nw[0][0]), AFF.get(kk))
                                if not d[1] and d[0] < 16:
                                    info['cand'] = ('pw', nw[0][1], d[0])
                        changed = True
                        self.cand_log.append('%s: drop linear candidate for %s' % (where, key))
                for li in range(len(S0.lens)):
                    if ('len', li) in invdrop:
                        continue
                    if not self.valid(A, z3.ULE(tobv(k1, 64), tobv(S0.lens[li], 64))):
                        invdrop.add(('len', li))
                        changed = True
                for ii, inv in enumerate(S0.invs):
                    if inv[5]:
                        for key, info in W.items():
                            if self.flagged(key, info) and ('flag', ii, key) not in invdrop:
                                c0 = self.flag_inv(S0, inv, key, 0)
                                c = self.flag_inv(A, inv, key, k1)
                                if c0 is None or c is None or not self.valid(S0, c0) or not self.valid(A, c):
                                    invdrop.add(('flag', ii, key))
                                    changed = True
                                    self.cand_log.append('%s: flag %s is not %s' % (where, key, inv[4]))
                        continue
                    if ('inv', ii) in invdrop:
                        continue
                    c = self.eval_inv(A, inv, k1, inv[2])
                    if c is None or not self.valid(A, c):
                        invdrop.add(('inv', ii))
                        changed = True
                        self.cand_log.append('%s: invariant %s not preserved' % (where, inv[4]))
                if changed:
                    break
            if not changed:
                break
        # final, noisy, run
        if not self.quiet:
            self.on_cut(where, W, invdrop, S0)
        S = mk(k)
        S.ghost['cut'] = S.ghost.get('cut', ()) + (where,)
        if self.check(S) == z3.unsat:
            return
        outer = S0.cutstop
        # arrivals of THIS header are discarded (already proved); arrivals of an outer cut propagate:
        # mark by giving the frame a "closed" snapshot
        closed = ClosedSnap(depth, header)
        f = S.frames[-1]
        if f.snaps is None:
            f.snaps = {}
            f.iters = {}
        f.snaps[header] = closed
        f.iters[header] = 0
        self.work.append((S, None))

    def cand_value(self, S0, key, info, k):
        c = info['cand']
        if c is None:
            # full havoc
            if key[0] == 'r':
                w = key[3]
                return RCell(w, self.freshfun('havoc', w * 8))
            w = info.get('w')
            v0 = self.getloc(S0, key, None)
            if v0 is UNDEF:
                return UNDEF
            if isinstance(v0, list):
                raise Unsupported('aggregate phi in loop')
            ww = self.locw(key)
            if ww == 1:
                self.fresh += 1
                return z3.Bool('havoc!%d' % self.fresh)
            return self.freshvar('havoc', ww)
        kind = c[0]
        if kind == 'lin':
            v0 = self.getloc(S0, key, None)
            if c[1] == 0:
                return v0
            w = c[2]
            if w == 64:
                return AFF.expr(AFF.add(AFF.get(v0), AFF.scale(AFF.get(k), c[1])))
            kx = k if isinstance(k, int) else z3.Extract(w - 1, 0, k)
            if isinstance(k, int):
                return self.binop('add', ('i', w), v0, (c[1] * k) & mask(w))
            return simp(tobv(v0, w) + z3.BitVecVal(c[1], w) * kx)
        if kind == 'pos':
            return c[1](AFF.expr(AFF.add(AFF.get(k), (c[2], ()))))
        if kind == 'same':
            return self.getloc(S0, key, None)
        if kind == 'pw':
            s0 = self.getloc(S0, key, None)
            val, w8, off = c[1], key[3] * 8, c[2]

            def base(idx):
                # elements off .. off + k - 1 were written
                d = AFF.sub(AFF.get(idx), AFF.get(k))
                if not d[1]:
                    d0 = (d[0] - off) & M64
                    if d0 < (1 << 32):
                        return s0.read(idx)
                    if d0 > M64 - (1 << 32) and not off:
                        return val
                old = s0.read(idx)
                if old is UNDEF:
                    return UNDEF
                i = tobv(idx, 64) - z3.BitVecVal(off, 64) if off else tobv(idx, 64)
                return simp(z3.If(z3.ULT(i, tobv(k, 64)), z3.BitVecVal(val, w8), tobv(old, w8)))
            return RCell(key[3], base)
        raise AssertionError

    def guess(self, S0, start, A, key, kk):
        v0 = self.getloc(start, key, None)
        v1 = self.getloc(A, key, None)
        if key[0] == 'r':
            return ('same',)
        w = self.locw(key)
        if v0 is UNDEF or v1 is UNDEF or isinstance(v0, (list, Part)) or isinstance(v1, Part):
            return None
        s0 = self.getloc(S0, key, None)
        if w == 64:
            d = AFF.sub(AFF.get(v1), AFF.get(v0))
            if not d[1] and (d[0] < (1 << 24) or d[0] > M64 - (1 << 24)):
                return ('lin', d[0], 64)
            for pos in S0.poss:
                for c in (0, 1):
                    p0 = pos(c)
                    e0 = simp(tobv(s0, 64) == tobv(p0, 64))
                    if (e0 if isinstance(e0, int) else self.valid(S0, e0)):
                        return ('pos', pos, c)
            if self.same(A, key, v1, v0):
                return ('lin', 0, 64)
            return None
        if w == 1:
            return None
        if isinstance(v0, int) and isinstance(v1, int):
            return ('lin', (v1 - v0) & mask(w), w) if w > 8 or v1 == v0 else None
        d = simp(tobv(v1, w) - tobv(v0, w))
        if isinstance(d, int) and (w > 8 or d == 0):
            return ('lin', d, w)
        return None

    def diff(self, a, b, phin):
        out = []
        fa, fb = a.frames[-1], b.frames[-1]
        for n in phin:
            x, y = fa.locals.get(n), fb.locals.get(n)
            if not self.ident(x, y):
                out.append(('l', len(a.frames), n, phin[n]))
        for oid, ob in b.objs.items():
            oa = a.objs.get(oid)
            if oa is None:
                oa = self.gobjs.get(oid)
            if oa is ob:
                continue
            if oa is None:
                if ob.alive and ob.kind != 'exc':
                    raise Unsupported('allocation escapes a loop iteration (%s)' % ob.name)
                continue
            if oa.alive != ob.alive:
                raise Unsupported('object freed in loop iteration (%s)' % ob.name)
            if oa.stride is not None:
                for inner in set(oa.cells) | set(ob.cells):
                    ca, cb = oa.cells.get(inner), ob.cells.get(inner)
                    if ca is cb:
                        continue
                    w = (cb or ca).w
                    out.append(('r', oid, inner, w))
                continue
            for off in set(oa.cells) | set(ob.cells):
                ca, cb = oa.cells.get(off), ob.cells.get(off)
                if ca is cb:
                    continue
                if ca is not None and cb is not None and ca[0] == cb[0] and self.ident(ca[1], cb[1]):
                    continue
                w = (cb or ca)[0]
                if ca is not None and cb is not None and ca[0] != cb[0]:
                    out += [('c', oid, off + i, 1) for i in range(max(ca[0], cb[0]))]
                    continue
                out.append(('c', oid, off, w))
        for oid in a.objs:
            if oid not in b.objs:
                raise Unsupported('object disappears in loop iteration')
        return out

    def ident(self, x, y):
        if x is y:
            return True
        if isinstance(x, int) and isinstance(y, int):
            return x == y
        if isz(x) and isz(y):
            return x.eq(y)
        if isinstance(x, list) and isinstance(y, list):
            return len(x) == len(y) and all(self.ident(a, b) for a, b in zip(x, y))
        return False

    def getloc(self, S, key, like):
        if key[0] == 'l':
            return S.frames[key[1] - 1].locals.get(key[2], UNDEF)
        o = S.objs.get(key[1])
        if o is None:
            o = self.gobjs.get(key[1])
        if key[0] == 'c':
            return self.oread(o, key[2], key[3])
        c = o.cells.get(key[2])
        return c

    def setloc(self, S, key, v):
        if key[0] == 'l':
            S.frames[key[1] - 1].locals[key[2]] = v
            return
        o = S.objs.get(key[1])
        if o is None:
            o = self.gobjs.get(key[1])
        o = S.wobj(o)
        if key[0] == 'c':
            self.oclear(o, key[2], key[3])
            if v is not UNDEF:
                o.cells[key[2]] = (key[3], v)
        else:
            if v is None:
                o.cells.pop(key[2], None)
            else:
                o.cells[key[2]] = v

    def same(self, A, key, have, want):
        if key[0] == 'r':
            if have is want:
                return True
            if have is None or want is None:
                return False
            j = self.freshvar('idx', 64)
            x, y = have.read(j), want.read(j)
            if x is UNDEF or y is UNDEF:
                return x is y
            o = self.getobj(A, key[1])
            e = tobv(x, key[3] * 8) == tobv(y, key[3] * 8)
            return self.valid(A, z3.Implies(z3.ULT(j, tobv(o.n, 64)), e))
        if have is UNDEF or want is UNDEF:
            return have is want
        if isinstance(have, Part) or isinstance(want, Part):
            if not isinstance(have, Part) or not isinstance(want, Part):
                return False
            return all((x is y) if x is UNDEF or y is UNDEF else self.same(A, key, x, y)
                       for x, y in zip(have.bs, want.bs))
        if self.ident(have, want):
            return True
        if isinstance(have, z3.BoolRef) or isinstance(want, z3.BoolRef):
            return self.valid(A, self.tobool(have) == self.tobool(want))
        w = self.locw(key)
        return self.valid(A, tobv(have, w) == tobv(want, w))

    def flagged(self, key, info):
        return info['cand'] is None and key[0] != 'r' and self.locw(key) in (1, 8)

    def flag_inv(self, S, inv, key, k):
        """condition ==> the location is set"""
        v = self.getloc(S, key, None)
        if v is UNDEF or isinstance(v, (list, Part)):
            return None
        c = self.eval_inv(S, inv, k, inv[2])
        if c is None:
            return None
        f = v if isinstance(v, z3.ExprRef) and z3.is_bool(v) else tobv(v, self.locw(key)) == 1
        return z3.Implies(self.tobool(c), f)

    def eval_inv(self, S, inv, k, j):
        """symbolically evaluate bool f(ctx,k,j) in state S -> condition"""
        fname, ctx, J, extra, nm = inv[:5]
        T = S.copy()
        T.cutstop = None
        base = len(T.frames)
        T.stop_depth = base
        npc = len(T.pc)
        res = []
        self.quiet += 1
        saved = getattr(self, 'work', None)
        try:
            try:
                self.call_function(T, fname, [ctx, k, j])
            except (PathEnd,):
                return None
            self.explore(T, on_return=lambda s: res.append(s))
        finally:
            self.quiet -= 1
            self.work = saved
        parts = []
        for s in res:
            c = z3.And(*s.pc[npc:]) if len(s.pc) > npc else z3.BoolVal(True)
            v = s.retval
            if v is UNDEF:
                return None
            parts.append(z3.And(c, self.tobool(v)))
        if not parts:
            return None
        return simp(z3.Or(*parts))

    # hooks
    def on_obligation(self, name, kind, ok):
        pass

    def on_fail(self, st, name, kind, reason, cond, model):
        pass

    def on_cut(self, where, W, invdrop, S0):
        pass

    def locw(self, key):
        return key[3] if key[0] == 'l' else key[3] * 8


class ClosedSnap(Snap):
    def __init__(self, depth, header):
        self.late = []
        self.state = None
        self.depth = depth
        self.header = header
        self.cut = False
        self.sym = 0


class Returned(Exception):
    def __init__(self, state):
        self.state = state


NORETURN = object()
PUSHED = object()
