"""Path-forking symbolic executor for LLVM IR with a byte-precise memory model.

Every value is either a Python int (concrete) or a z3 expression; i1 values are
0/1 or a z3 Bool.  Aggregates and vectors are tuples.  Branches on symbolic
values are decided by the solver; both feasible sides are explored.
"""
import time, struct
import z3
from ir import Module, IRError

MASK = [(1 << i) - 1 for i in range(0, 257)]

class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind; self.msg = msg
class Unsupported(Exception):
    pass
class Limit(Exception):
    pass

STACK0 = 0x00007ffd00000000
HEAP0 = 0x0000602000000000
GLOB0 = 0x0000555555600000
FUNC0 = 0x0000555550000000
PAGE = 12

class Obj:
    __slots__ = ('base', 'size', 'data', 'kind', 'name', 'owner', 'const', 'note')
    def __init__(self, base, size, data, kind, name, owner, const=False):
        self.base = base; self.size = size; self.data = data; self.kind = kind
        self.name = name; self.owner = owner; self.const = const; self.note = None
    def clone(self, owner):
        o = Obj(self.base, self.size, list(self.data), self.kind, self.name, owner, self.const)
        o.note = self.note
        return o

class Frame:
    __slots__ = ('fn', 'instrs', 'ip', 'bname', 'regs', 'allocas', 'call', 'onret', 'varargs')
    def __init__(self, fn):
        self.fn = fn; self.instrs = None; self.ip = 0; self.bname = None
        self.regs = {}; self.allocas = []; self.call = None; self.onret = None
    def clone(self):
        f = Frame(self.fn)
        f.instrs = self.instrs; f.ip = self.ip; f.bname = self.bname
        f.regs = dict(self.regs); f.allocas = list(self.allocas); f.call = self.call; f.onret = self.onret
        return f

class State:
    __slots__ = ('id', 'frames', 'mem', 'pc', 'model', 'inputs', 'obs', 'stackp', 'heapp', 'globp', 'gaddr', 'caught',
                 'trap_ok', 'concr', 'steps', 'asserts', 'live_heap', 'noleak', 'uninit_used', 'tags', 'depth', 'cur_exc', 'forks', 'known')
    ctr = 0
    def __init__(self):
        State.ctr += 1
        self.id = State.ctr
        self.frames = []; self.mem = {}; self.pc = []; self.model = None
        self.inputs = []; self.obs = []; self.stackp = STACK0; self.heapp = HEAP0
        self.caught = []; self.trap_ok = False; self.concr = {}; self.steps = 0; self.asserts = 0
        self.live_heap = {}; self.noleak = False; self.uninit_used = False; self.tags = []
        self.depth = 0; self.cur_exc = {}; self.forks = 0; self.known = {}
    def clone(self):
        s = State()
        State.ctr += 1
        self.id = State.ctr
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.model = self.model
        s.inputs = list(self.inputs); s.obs = list(self.obs)
        s.stackp = self.stackp; s.heapp = self.heapp
        s.caught = list(self.caught); s.trap_ok = self.trap_ok; s.concr = dict(self.concr)
        s.steps = self.steps; s.asserts = self.asserts; s.live_heap = dict(self.live_heap); s.noleak = self.noleak
        s.uninit_used = self.uninit_used; s.tags = list(self.tags); s.cur_exc = dict(self.cur_exc)
        s.forks = self.forks; s.known = dict(self.known)
        return s

class Violation:
    def __init__(self, kind, msg, inputs, obs, where, uninit=False):
        self.kind = kind; self.msg = msg; self.inputs = inputs; self.obs = obs; self.where = where; self.uninit = uninit

def is_int(v):
    return type(v) is int

def bv(v, w):
    return z3.BitVecVal(v, w) if type(v) is int else v

def b2bool(v):
    return v if not is_int(v) else z3.BoolVal(bool(v))

def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e

def simpb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

class Stats:
    def __init__(self):
        self.queries = 0; self.sat = 0; self.unsat = 0; self.unknown = 0; self.solver_s = 0.0
        self.instrs = 0; self.paths = 0; self.assume_cut = 0; self.asserts = 0; self.assert_queries = 0
        self.forks = 0; self.traps = 0; self.folded = 0; self.known = 0
        self.functions = set()
    def merge(self, o):
        for k in ('queries', 'sat', 'unsat', 'unknown', 'solver_s', 'instrs', 'paths', 'assume_cut', 'asserts',
                  'assert_queries', 'forks', 'traps', 'folded', 'known'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.functions |= o.functions

NOP_INTRINSICS = ('llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias', 'llvm.invariant.', 'llvm.prefetch',
                  'llvm.donothing', 'llvm.var.annotation', 'llvm.sideeffect', 'llvm.stackrestore', 'llvm.va_')

class Executor:
    def __init__(self, mod, opts=None):
        self.mod = mod
        o = opts or {}
        self.max_steps = o.get('max_steps', 3000000)
        self.max_paths = o.get('max_paths', 1000000)
        self.max_concr = o.get('max_concr', 2000)
        self.deadline = None
        self.check_ub = o.get('check_ub', True)     # nsw etc. as violations
        self.solver_timeout = o.get('solver_timeout', 60000)
        self.witness_cap = o.get('witness_cap', 8)
        self.compiled = {}
        self.gaddr = {}
        self.faddr = {}
        self.fbyaddr = {}
        self.gmem = {}
        self.gnext = GLOB0
        self.fnext = FUNC0
        self.typeids = {}
        self.uninit_n = 0
        self.stats = Stats()
        self.solver = None
        self.sstack = []
        self.uf = {}
        self.keep = []
        self.uninit_memo = {}
        self.builtins = build_builtins()
        self.gconst = {}

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        if self.solver is None:
            self.solver = z3.SimpleSolver()
            self.solver.set('timeout', self.solver_timeout)
            self.sstack = []
        s = self.sstack
        n = 0
        m = min(len(s), len(pc))
        while n < m and s[n] is pc[n]:
            n += 1
        if len(s) > n:
            self.solver.pop(len(s) - n)
            del s[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            s.append(c)

    def check(self, pc, extra=None):
        """returns model or None"""
        t = time.perf_counter()
        self._sync(pc)
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        r = self.solver.check()
        self.stats.queries += 1
        m = None
        if r == z3.sat:
            self.stats.sat += 1
            m = self.solver.model()
        elif r == z3.unsat:
            self.stats.unsat += 1
        if extra is not None:
            self.solver.pop()
        if r == z3.unknown:
            # retry once with a fresh full solver
            s2 = z3.Solver()
            s2.set('timeout', self.solver_timeout)
            for c in pc:
                s2.add(c)
            if extra is not None:
                s2.add(extra)
            r = s2.check()
            if r == z3.sat:
                self.stats.sat += 1
                m = s2.model()
            elif r == z3.unsat:
                self.stats.unsat += 1
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            raise Limit('solver returned unknown')
        return m

    def get_model(self, st):
        if st.model is None:
            st.model = self.check(st.pc)
            if st.model is None:
                raise PathEnd('infeasible')
        return st.model

    def has_uninit(self, e):
        memo = self.uninit_memo
        todo = [e]
        seen = set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            r = memo.get(i)
            if r is False:
                continue
            if r is True:
                return True
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('uninit'):
                    memo[i] = True
                    self.keep.append(x)
                    return True
            else:
                todo.extend(x.children())
        memo[e.get_id()] = False
        self.keep.append(e)
        return False

    def branch(self, st, cond):
        """decide a symbolic Bool: returns (value for st, clone with the opposite decision or None)"""
        c = simpb(cond)
        if is_int(c):
            return c, None
        # facts already implied by this path (the path condition only grows)
        base, flip = (c.arg(0), 1) if z3.is_not(c) else (c, 0)
        k = st.known.get(base.get_id())
        if k is not None:
            self.stats.known += 1
            return k[1] ^ flip, None
        if self.has_uninit(c):
            st.uninit_used = True
            self.violate(st, 'uninit', 'control flow depends on uninitialised memory')
        m = self.get_model(st)
        v = z3.is_true(m.eval(c, model_completion=True))
        pos = c if v else z3.Not(c)
        neg = z3.Not(c) if v else c
        m2 = self.check(st.pc, neg)
        st.known[base.get_id()] = (base, (1 if v else 0) ^ flip)
        if m2 is None:
            return (1 if v else 0), None
        cl = st.clone()
        cl.known[base.get_id()] = (base, (0 if v else 1) ^ flip)
        self.stats.forks += 1
        cl.forks += 1; st.forks += 1
        cl.pc.append(neg); cl.model = m2
        st.pc.append(pos)
        return (1 if v else 0), cl

    def assume(self, st, cond):
        c = simpb(b2bool(cond)) if not is_int(cond) else cond
        if is_int(c):
            if not c:
                raise PathEnd('assume')
            return
        m = st.model
        st.pc.append(c)
        if m is not None and z3.is_true(m.eval(c, model_completion=True)):
            return
        st.model = None
        m2 = self.check(st.pc)
        if m2 is None:
            raise PathEnd('assume')
        st.model = m2

    def concretize(self, st, e, what='value'):
        """make a symbolic BV concrete, forking over every feasible value (complete enumeration, capped)."""
        if is_int(e):
            return e
        e = simp(e)
        if is_int(e):
            return e
        k = st.concr.get(e.get_id())
        if k is not None and k[0].eq(e):
            return k[1]
        if self.has_uninit(e):
            st.uninit_used = True
            self.violate(st, 'uninit', 'address or size depends on uninitialised memory')
        m = self.get_model(st)
        v = m.eval(e, model_completion=True).as_long()
        w = e.size()
        m2 = self.check(st.pc, e != z3.BitVecVal(v, w))
        if m2 is not None:
            self.nconcr += (what != 'vp_split')
            if self.nconcr > self.max_concr:

                raise Limit('too many concretisations of ' + what)
            cl = st.clone()
            cl.frames[-1].ip -= 1     # re-execute the instruction
            cl.pc.append(e != z3.BitVecVal(v, w)); cl.model = m2
            self.work.append(cl)
            self.stats.forks += 1
        st.pc.append(e == z3.BitVecVal(v, w))
        st.concr[e.get_id()] = (e, v)
        return v

    # ------------------------------------------------------------ violations
    def where(self, st):
        return [f.fn.name for f in st.frames[-6:]]

    def model_inputs(self, st, m):
        out = []
        for (name, width, var) in st.inputs:
            out.append((name, width, m.eval(var, model_completion=True).as_long()))
        return out

    def eval_obs(self, st, m):
        out = []
        for (name, v, w) in st.obs:
            if is_int(v):
                out.append((name, v))
            else:
                if z3.is_bool(v):
                    x = 1 if z3.is_true(m.eval(v, model_completion=True)) else 0
                else:
                    x = m.eval(v, model_completion=True).as_long()
                out.append((name, None if self.has_uninit(v) else x))
        return out

    def violate(self, st, kind, msg, model=None):
        if model is None:
            model = self.get_model(st)
        un = st.uninit_used or any(self.has_uninit(c) for c in st.pc)
        self.violations.append(Violation(kind, msg, self.model_inputs(st, model), self.eval_obs(st, model), self.where(st), un))
        raise PathEnd('violation', msg)

    def do_assert(self, st, cond, msg):
        st.asserts += 1
        self.stats.asserts += 1
        c = simpb(cond) if not is_int(cond) else cond
        if is_int(c):
            self.stats.folded += 1
            if not c:
                self.violate(st, 'assert', msg)
            return
        base, flip = (c.arg(0), 1) if z3.is_not(c) else (c, 0)
        k = st.known.get(base.get_id())
        if k is not None and k[1] ^ flip:
            self.stats.known += 1
            return
        self.stats.assert_queries += 1
        if self.has_uninit(c):
            st.uninit_used = True
        m = self.check(st.pc, z3.Not(c))
        if m is not None:
            self.violate(st, 'assert', msg, m)
        st.known[base.get_id()] = (base, 1 ^ flip)

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name, data=None, align=16):
        if kind == 'stack':
            base = st.stackp
            st.stackp = (base + ((size + 64) >> PAGE) * (1 << PAGE)) + (1 << PAGE)
            base += 0x40
        else:
            base = st.heapp
            st.heapp = (base + ((size + 64) >> PAGE) * (1 << PAGE)) + (1 << PAGE)
            base += 0x40
        o = Obj(base, size, data if data is not None else [None] * size, kind, name, st.id)
        for pg in range(base >> PAGE, ((base + max(size, 1) - 1) >> PAGE) + 1):
            st.mem[pg] = o
        return o

    def kill(self, st, o):
        for pg in range(o.base >> PAGE, ((o.base + max(o.size, 1) - 1) >> PAGE) + 1):
            st.mem.pop(pg, None)

    def find(self, st, addr, n, what):
        pg = addr >> PAGE
        o = st.mem.get(pg)
        if o is None:
            o = self.gmem.get(pg)
            if o is not None and not o.const:
                # materialise a mutable global in this state
                o2 = o.clone(st.id)
                for q in range(o.base >> PAGE, ((o.base + max(o.size, 1) - 1) >> PAGE) + 1):
                    st.mem[q] = o2
                o = o2
        if o is None:
            self.violate(st, 'memory', '%s of %d bytes at invalid address 0x%x (null, dangling or wild pointer)' % (what, n, addr))
        off = addr - o.base
        if off < 0 or off + n > o.size:
            self.violate(st, 'memory', '%s of %d bytes out of bounds of %s (offset %d, size %d)' % (what, n, o.name, off, o.size))
        return o, off

    def fresh_uninit(self, o, off):
        self.uninit_n += 1
        return z3.BitVec('uninit_%d' % self.uninit_n, 8)

    def load_bytes(self, st, addr, n):
        o, off = self.find(st, addr, n, 'read')
        return o.data[off:off + n]

    def wobj(self, st, addr, n, what='write'):
        o, off = self.find(st, addr, n, what)
        if o.const:
            self.violate(st, 'memory', 'write to constant ' + o.name)
        if o.owner != st.id:
            o2 = o.clone(st.id)
            for pg in range(o.base >> PAGE, ((o.base + max(o.size, 1) - 1) >> PAGE) + 1):
                st.mem[pg] = o2
            o = o2
        return o, off

    def store_bytes(self, st, addr, data):
        n = len(data)
        if n == 0:
            return
        o, off = self.wobj(st, addr, n)
        o.data[off:off + n] = data

    def load_int(self, st, addr, n):
        o, off = self.find(st, addr, n, 'read')
        d = o.data[off:off + n]
        try:
            return int.from_bytes(d, 'little')
        except TypeError:
            pass
        # symbolic or uninit
        if None in d:
            if o.owner != st.id:
                o, off = self.wobj(st, addr, n, 'read') if not o.const else (o, off)
            for i in range(n):
                if d[i] is None:
                    b = (self.fresh_uninit(o, off + i), 0)
                    d[i] = b
                    o.data[off + i] = b
        return self.combine(d)

    def combine(self, d):
        n = len(d)
        parts = []   # low to high
        i = 0
        while i < n:
            x = d[i]
            if type(x) is int:
                j = i + 1
                while j < n and type(d[j]) is int:
                    j += 1
                parts.append(z3.BitVecVal(int.from_bytes(d[i:j], 'little'), 8 * (j - i)))
                i = j
            else:
                e, k = x
                j = i + 1
                while j < n and type(d[j]) is tuple and d[j][0] is e and d[j][1] == k + (j - i):
                    j += 1
                m = j - i
                if k == 0 and e.size() == 8 * m:
                    parts.append(e)
                else:
                    parts.append(z3.Extract(8 * (k + m) - 1, 8 * k, e))
                i = j
        if len(parts) == 1:
            r = parts[0]
            if z3.is_bv_value(r):
                return r.as_long()
            if z3.is_app_of(r, z3.Z3_OP_EXTRACT):
                return simp(r)
            return r
        return simp(z3.Concat(*reversed(parts)))

    def split(self, v, n):
        """value -> list of n byte entries"""
        if is_int(v):
            return list((v & MASK[8 * n]).to_bytes(n, 'little'))
        if z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
        s = v.size()
        if s != 8 * n:
            v = z3.ZeroExt(8 * n - s, v)
        return [(v, k) for k in range(n)]

    def store_val(self, st, addr, ty, v):
        k = ty[0]
        if k == 'n':
            ty = self.mod.resolve(ty); k = ty[0]
        if k == 'i' or k == 'p' or k == 'f':
            n = 8 if k == 'p' else (ty[1] + 7) // 8
            if v is None:
                self.store_bytes(st, addr, [None] * n)
            else:
                self.store_bytes(st, addr, self.split(v, n))
        elif k == 's':
            offs = self.mod.layout(ty)[0]
            for off, t, x in zip(offs, ty[1], v):
                if x is not None:
                    self.store_val(st, addr + off, t, x)
        elif k in ('a', 'vec'):
            if k == 'vec' and ty[2][0] == 'i' and ty[2][1] < 8:
                raise Unsupported('store of sub-byte vector')
            s = self.mod.sizeof(ty[2])
            for i, x in enumerate(v):
                if x is not None:
                    self.store_val(st, addr + i * s, ty[2], x)
        else:
            raise Unsupported('store type %r' % (ty,))

    def load_val(self, st, addr, ty):
        k = ty[0]
        if k == 'n':
            ty = self.mod.resolve(ty); k = ty[0]
        if k == 'i':
            w = ty[1]
            if w == 1:
                v = self.load_int(st, addr, 1)
                if is_int(v):
                    return v & 1
                return simpb(z3.Extract(0, 0, v) == 1)
            n = (w + 7) // 8
            v = self.load_int(st, addr, n)
            if w & 7:
                v = v & MASK[w] if is_int(v) else simp(z3.Extract(w - 1, 0, v))
            return v
        if k == 'p':
            return self.load_int(st, addr, 8)
        if k == 'f':
            return self.load_int(st, addr, (ty[1] + 7) // 8)
        if k == 's':
            offs = self.mod.layout(ty)[0]
            return tuple(self.load_val(st, addr + o, t) for o, t in zip(offs, ty[1]))
        if k in ('a', 'vec'):
            s = self.mod.sizeof(ty[2])
            return tuple(self.load_val(st, addr + i * s, ty[2]) for i in range(ty[1]))
        raise Unsupported('load type %r' % (ty,))

    # ------------------------------------------------------------ globals
    def func_addr(self, name):
        a = self.faddr.get(name)
        if a is None:
            a = self.fnext
            self.fnext += 16
            self.faddr[name] = a
            self.fbyaddr[a] = name
        return a

    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.functions or name in self.mod.declares:
            a = self.func_addr(name)
            self.gaddr[name] = a
            return a
        raw = self.mod.raw_globals.get(name)
        if raw is None:
            raise Unsupported('unknown global ' + name)
        from ir import P, tokenize, strip_meta
        p = P(tokenize(strip_meta(raw)), self.mod)
        p.expect('=')
        external = False
        const = False
        while True:
            w = p.peek()
            if w in ('global', 'constant'):
                const = (p.next() == 'constant')
                break
            if w == 'alias':
                p.next()
                p.type(); p.expect(','); t = p.type(); v = p.value(t)
                a = self.const_eval(v, t)
                self.gaddr[name] = a
                return a
            if w in ('external', 'extern_weak'):
                external = True
            if w == 'thread_local':
                pass
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        ty = p.type()
        if external:
            size = max(self.mod.sizeof(ty), 64) if ty[0] != 'opaque' else 64
            # glibc's flag for "no second thread was ever started" (read by std::shared_ptr): true here
            known = {'@__libc_single_threaded': 1}
            o = self._place_global(name, size, [known[name]] + [0] * (size - 1) if name in known else [None] * size, False)
            o.note = 'external'
            return o.base
        size = self.mod.sizeof(ty)
        o = self._place_global(name, size, [0] * size, const)
        init = p.value(ty)
        self._init(o, 0, ty, init)
        return o.base

    def _place_global(self, name, size, data, const):
        base = self.gnext + 0x40
        self.gnext += (((size + 64) >> PAGE) + 1) << PAGE
        o = Obj(base, size, data, 'global', name, -1, const)
        for pg in range(base >> PAGE, ((base + max(size, 1) - 1) >> PAGE) + 1):
            self.gmem[pg] = o
        self.gaddr[name] = base
        return o

    def _init(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == 'zero':
            return
        if k in ('undef', 'poison'):
            n = self.mod.sizeof(ty)
            o.data[off:off + n] = [None] * n if not o.const else [0] * n
            return
        if k == 'str':
            o.data[off:off + len(v[1])] = list(v[1])
            return
        if k == 'agg':
            if ty[0] == 's':
                offs = self.mod.layout(ty)[0]
                for x, of, t in zip(v[1], offs, ty[1]):
                    self._init(o, off + of, t, x)
            else:
                s = self.mod.sizeof(ty[2])
                for i, x in enumerate(v[1]):
                    self._init(o, off + i * s, ty[2], x)
            return
        x = self.const_eval(v, ty)
        n = self.mod.sizeof(ty) if ty[0] != 'f' else (ty[1] + 7) // 8
        o.data[off:off + n] = list((x & MASK[8 * n]).to_bytes(n, 'little'))

    def const_eval(self, v, ty):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_addr(v[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef' or k == 'poison':
            ty = self.mod.resolve(ty)
            if ty[0] in ('s', 'a', 'vec'):
                n = len(ty[1]) if ty[0] == 's' else ty[1]
                return tuple(self.const_eval(v, (ty[1][i] if ty[0] == 's' else ty[2])) for i in range(n))
            if ty[0] in ('i', 'p', 'f'):
                # an undefined value: pick an arbitrary but fixed symbolic value
                self.uninit_n += 1
                w = 64 if ty[0] == 'p' else ty[1]
                if w == 1:
                    return z3.Bool('undef_%d' % self.uninit_n)
                return z3.BitVec('undef_%d' % self.uninit_n, w)
            return None
        if k == 'agg':
            ty = self.mod.resolve(ty)
            if ty[0] == 's':
                return tuple(self.const_eval(x, t) for x, t in zip(v[1], ty[1]))
            return tuple(self.const_eval(x, ty[2]) for x in v[1])
        if k == 'str':
            return tuple(v[1])
        if k == 'expr':
            op = v[1]
            if op == 'gep':
                base = self.const_eval(v[3], ('p',))
                off = self.gep_const(v[2], [(t, self.const_eval(x, t)) for t, x in v[4]])
                return (base + off) & MASK[64]
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                x = self.const_eval(v[3], v[2])
                w = 64 if v[4][0] == 'p' else v[4][1]
                return x & MASK[w] if is_int(x) else x
            if op in ('trunc', 'zext', 'sext'):
                x = self.const_eval(v[3], v[2])
                if op == 'sext':
                    return sgn(x, v[2][1]) & MASK[v[4][1]]
                return x & MASK[v[4][1]]
            if op == 'bin':
                a = self.const_eval(v[4], v[3]); b = self.const_eval(v[5], v[3])
                w = 64 if v[3][0] == 'p' else v[3][1]
                return conc_bin(v[2], a, b, w)
            if op == 'icmp':
                a = self.const_eval(v[4], v[3]); b = self.const_eval(v[5], v[3])
                return conc_icmp(v[2], a, b, 64 if v[3][0] == 'p' else v[3][1])
            if op == 'select':
                c = self.const_eval(v[2], ('i', 1))
                return self.const_eval(v[3] if c else v[4], ty)
        raise Unsupported('constant %r' % (v,))

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 's':
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] in ('a', 'vec'):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        return 0

    def gep_const(self, bt, idx):
        """all-constant gep offset"""
        off = sgn(idx[0][1], idx[0][0][1]) * self.mod.sizeof(bt)
        t = self.mod.resolve(bt)
        for it, i in idx[1:]:
            if t[0] == 's':
                off += self.mod.layout(t)[0][i]
                t = self.mod.resolve(t[1][i])
            else:
                off += sgn(i, it[1]) * self.mod.sizeof(t[2])
                t = self.mod.resolve(t[2])
        return off

    # ------------------------------------------------------------ compile
    def operand(self, v, ty):
        """returns (is_const, value_or_regname)"""
        if v[0] == 'r':
            return (False, v[1])
        if v[0] in ('undef', 'poison'):
            rt = self.mod.resolve(ty)
            if rt[0] in ('s', 'a', 'vec'):
                return (True, self.undef_agg(rt))
        return (True, self.const_eval(v, ty))

    def undef_agg(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 's':
            return tuple(self.undef_agg(t) for t in ty[1])
        if ty[0] in ('a', 'vec'):
            return tuple(self.undef_agg(ty[2]) for _ in range(ty[1]))
        return None

    def getter(self, v, ty):
        c, x = self.operand(v, ty)
        if c:
            return lambda regs, x=x: x
        return lambda regs, x=x: regs[x]

    def get_compiled(self, fn):
        c = self.compiled.get(fn.name)
        if c is None:
            self.mod.parse_function(fn)
            c = {}
            for nm, instrs in fn.blocks.items():
                phis = []
                ops = []
                for d in instrs:
                    if d['op'] == 'phi':
                        inc = {}
                        for v, b in d['inc']:
                            inc[b] = self.getter(v, d['ty'])
                        phis.append((d['res'], inc))
                    else:
                        try:
                            ops.append(self.compile(d, fn))
                        except Unsupported as e:
                            msg = str(e)
                            def bad(st, fr, msg=msg):
                                raise Unsupported(msg)
                            ops.append(bad)
                c[nm] = (phis, ops)
            self.compiled[fn.name] = c
        return c

    def jump(self, st, fr, dest):
        phis, ops = self.compiled[fr.fn.name][dest]
        if phis:
            regs = fr.regs
            prev = fr.bname
            vals = [(r, inc[prev](regs)) for r, inc in phis]
            for r, v in vals:
                regs[r] = v
        fr.bname = dest
        fr.instrs = ops
        fr.ip = 0

    def width(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'p':
            return 64
        if ty[0] in ('i', 'f'):
            return ty[1]
        return None

    def compile(self, d, fn):
        op = d['op']
        if 'unsupported' in d:
            raise Unsupported(d['unsupported'])
        m = getattr(self, 'c_' + op, None)
        if m is None:
            raise Unsupported('instruction ' + op)
        return m(d, fn)

    def c_alloca(self, d, fn):
        size = self.mod.sizeof(d['ty'])
        res = d['res']
        n = None
        if d['n'] is not None:
            n = self.getter(d['n'][1], d['n'][0])
        name = fn.name + ':' + res
        def f(st, fr):
            s = size
            if n is not None:
                s = size * self.concretize(st, n(fr.regs), 'alloca size')
            o = self.new_obj(st, s, 'stack', name)
            fr.allocas.append(o)
            fr.regs[res] = o.base
        return f

    def c_load(self, d, fn):
        ty = self.mod.resolve(d['ty']); res = d['res']
        c, p = self.operand(d['ptr'], ('p',))
        k = ty[0]
        if not c and (k == 'p' or (k in 'if' and ty[1] % 8 == 0)):
            n = 8 if k == 'p' else ty[1] // 8
            def f(st, fr):
                regs = fr.regs
                a = regs[p]
                if type(a) is not int:
                    a = self.concretize(st, a, 'load address')
                regs[res] = self.load_int(st, a, n)
            return f
        g = self.getter(d['ptr'], ('p',))
        def f2(st, fr):
            a = self.concretize(st, g(fr.regs), 'load address')
            fr.regs[res] = self.load_val(st, a, ty)
        return f2

    def c_store(self, d, fn):
        ty = self.mod.resolve(d['ty'])
        gv = self.getter(d['val'], ty); gp = self.getter(d['ptr'], ('p',))
        undefv = d['val'][0] in ('undef', 'poison')
        def f(st, fr):
            regs = fr.regs
            a = gp(regs)
            if type(a) is not int:
                a = self.concretize(st, a, 'store address')
            v = gv(regs)
            if undefv:
                self.store_bytes(st, a, [None] * self.mod.sizeof(ty))
            else:
                self.store_val(st, a, ty, v)
        return f

    def c_getelementptr(self, d, fn):
        res = d['res']
        gp = self.getter(d['ptr'], ('p',))
        t = self.mod.resolve(d['ty'])
        off = 0
        dyn = []
        first = True
        for it, iv in d['idx']:
            c, x = self.operand(iv, it)
            if first:
                scale = self.mod.sizeof(d['ty'])
                first = False
                nt = t
            elif t[0] == 's':
                off += self.mod.layout(t)[0][x]
                t = self.mod.resolve(t[1][x])
                continue
            else:
                scale = self.mod.sizeof(t[2])
                nt = self.mod.resolve(t[2])
            if c:
                off += sgn(x, it[1]) * scale
            else:
                dyn.append((x, it[1], scale))
            t = nt
        off &= MASK[64]
        if not dyn:
            c, p = self.operand(d['ptr'], ('p',))
            if not c:
                def f(st, fr):
                    a = fr.regs[p]
                    if type(a) is int:
                        fr.regs[res] = (a + off) & 0xffffffffffffffff
                    else:
                        fr.regs[res] = simp(a + z3.BitVecVal(off, 64)) if off else a
                return f
            v = (p + off) & MASK[64]
            def f(st, fr):
                fr.regs[res] = v
            return f
        def f(st, fr):
            a = gp(fr.regs)
            o = off
            sym = None
            for (x, w, scale) in dyn:
                i = fr.regs[x]
                if type(i) is int:
                    o += sgn(i, w) * scale
                else:
                    e = i if w == 64 else z3.SignExt(64 - w, i)
                    e = e * scale if scale != 1 else e
                    sym = e if sym is None else sym + e
            if sym is None and type(a) is int:
                fr.regs[res] = (a + o) & 0xffffffffffffffff
            else:
                r = bv(a, 64) + z3.BitVecVal(o & MASK[64], 64)
                if sym is not None:
                    r = r + sym
                fr.regs[res] = simp(r)
        return f

    def c_br(self, d, fn):
        if 'dest' in d:
            dest = d['dest']
            return lambda st, fr: self.jump(st, fr, dest)
        g = self.getter(d['cond'], ('i', 1)); t = d['t']; f_ = d['f']
        def f(st, fr):
            c = g(fr.regs)
            if type(c) is not int:
                c, cl = self.branch(st, c)
                if cl is not None:
                    self.jump(cl, cl.frames[-1], f_ if c else t)
                    self.work.append(cl)
            self.jump(st, fr, t if c else f_)
        return f

    def c_switch(self, d, fn):
        g = self.getter(d['val'], d['ty']); w = d['ty'][1]
        tab = dict(d['cases']); default = d['default']
        def f(st, fr):
            v = g(fr.regs)
            if type(v) is not int:
                v = simpb(v) if w == 1 else simp(v)
            if type(v) is int:
                self.jump(st, fr, tab.get(v, default)); return
            if self.has_uninit(v):
                st.uninit_used = True
                self.violate(st, 'uninit', 'switch on uninitialised memory')
            # explore each case
            cases = []
            bvv = v if w != 1 else z3.If(v, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            rest = z3.And(*[bvv != z3.BitVecVal(k, w) for k in tab]) if tab else z3.BoolVal(True)
            for k, dest in tab.items():
                cases.append((bvv == z3.BitVecVal(k, w), dest))
            cases.append((rest, default))
            feas = []
            for c, dest in cases:
                m = self.check(st.pc, c)
                if m is not None:
                    feas.append((c, dest, m))
            if not feas:
                raise PathEnd('infeasible')
            for c, dest, m in feas[1:]:
                cl = st.clone()
                self.stats.forks += 1
                cl.pc.append(c); cl.model = m
                self.jump(cl, cl.frames[-1], dest)
                self.work.append(cl)
            c, dest, m = feas[0]
            st.pc.append(c); st.model = m
            self.jump(st, fr, dest)
        return f

    def c_unreachable(self, d, fn):
        def f(st, fr):
            self.violate(st, 'ub', 'unreachable code reached')
        return f

    def c_fence(self, d, fn):
        return lambda st, fr: None

    def c_freeze(self, d, fn):
        g = self.getter(d['a'], d['ty']); res = d['res']
        def f(st, fr):
            fr.regs[res] = g(fr.regs)
        return f

    def c_icmp(self, d, fn):
        ty = self.mod.resolve(d['ty'])
        res = d['res']; pred = d['pred']
        ga = self.getter(d['a'], ty); gb = self.getter(d['b'], ty)
        if ty[0] == 'vec':
            w = self.width(ty[2])
            def fv(st, fr):
                fr.regs[res] = tuple(do_icmp(pred, x, y, w) for x, y in zip(ga(fr.regs), gb(fr.regs)))
            return fv
        w = self.width(ty)
        def f(st, fr):
            regs = fr.regs
            a = ga(regs); b = gb(regs)
            if type(a) is int and type(b) is int:
                regs[res] = conc_icmp(pred, a, b, w)
            else:
                regs[res] = do_icmp(pred, a, b, w)
        return f

    def c_fcmp(self, d, fn):
        ty = self.mod.resolve(d['ty'])
        if ty[0] != 'f' or ty[1] not in (32, 64):
            raise Unsupported('fcmp type')
        w = ty[1]; res = d['res']; pred = d['pred']
        ga = self.getter(d['a'], ty); gb = self.getter(d['b'], ty)
        def f(st, fr):
            fr.regs[res] = do_fcmp(pred, ga(fr.regs), gb(fr.regs), w)
        return f

    def binop(self, d, fn):
        ty = self.mod.resolve(d['ty'])
        op = d['op']; res = d['res']
        ga = self.getter(d['a'], ty); gb = self.getter(d['b'], ty)
        if ty[0] == 'vec':
            w = self.width(ty[2])
            def fv(st, fr):
                fr.regs[res] = tuple(do_bin(op, x, y, w) for x, y in zip(ga(fr.regs), gb(fr.regs)))
            return fv
        w = ty[1]
        nsw = 'nsw' in d['flags'] and self.check_ub and op in ('add', 'sub', 'mul')
        div = op in ('udiv', 'sdiv', 'urem', 'srem')
        def f(st, fr):
            regs = fr.regs
            a = ga(regs); b = gb(regs)
            if nsw:
                self.check_nsw(st, op, a, b, w)
            if div:
                if is_int(b):
                    if b == 0:
                        self.violate(st, 'ub', 'division by zero')
                else:
                    m = self.check(st.pc, b == 0)
                    if m is not None:
                        self.violate(st, 'ub', 'division by zero', m)
            if type(a) is int and type(b) is int:
                regs[res] = conc_bin(op, a, b, w)
            else:
                regs[res] = do_bin(op, a, b, w)
        return f
    c_add = c_sub = c_mul = c_udiv = c_sdiv = c_urem = c_srem = c_and = c_or = c_xor = c_shl = c_lshr = c_ashr = binop

    def check_nsw(self, st, op, a, b, w):
        if is_int(a) and is_int(b):
            x, y = sgn(a, w), sgn(b, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            if not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                self.violate(st, 'ub', 'signed overflow in %s' % op)
            return
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
        elif op == 'sub':
            ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
        else:
            ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        ok = simpb(ok)
        if is_int(ok) and ok:
            return
        m = self.check(st.pc, z3.Not(b2bool(ok)))
        if m is not None:
            self.violate(st, 'ub', 'signed overflow in %s' % op, m)

    def fbin(self, d, fn):
        ty = self.mod.resolve(d['ty'])
        op = d['op']; res = d['res']
        ga = self.getter(d['a'], ty); gb = self.getter(d['b'], ty)
        if ty[0] == 'vec':
            w = ty[2][1]
            def fv(st, fr):
                fr.regs[res] = tuple(do_fbin(op, x, y, w) for x, y in zip(ga(fr.regs), gb(fr.regs)))
            return fv
        w = ty[1]
        def f(st, fr):
            fr.regs[res] = do_fbin(op, ga(fr.regs), gb(fr.regs), w)
        return f
    c_fadd = c_fsub = c_fmul = c_fdiv = fbin

    def c_fneg(self, d, fn):
        ty = self.mod.resolve(d['ty']); w = ty[1]; res = d['res']
        g = self.getter(d['a'], ty)
        def f(st, fr):
            a = g(fr.regs)
            fr.regs[res] = a ^ (1 << (w - 1)) if is_int(a) else simp(a ^ z3.BitVecVal(1 << (w - 1), w))
        return f

    def cast(self, d, fn):
        ty = self.mod.resolve(d['ty']); to = self.mod.resolve(d['to'])
        g = self.getter(d['a'], ty); op = d['op']; res = d['res']
        if ty[0] == 'vec' or to[0] == 'vec':
            if op == 'bitcast':
                def fb(st, fr):
                    v = g(fr.regs)
                    fr.regs[res] = self.recast(v, ty, to)
                return fb
            if ty[0] == 'vec' and to[0] == 'vec':
                wa = self.width(ty[2]); wb = self.width(to[2])
                def fv(st, fr):
                    fr.regs[res] = tuple(do_cast(op, x, wa, wb) for x in g(fr.regs))
                return fv
            raise Unsupported('vector cast')
        wa = self.width(ty); wb = self.width(to)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if wa == wb:
                def f0(st, fr):
                    fr.regs[res] = g(fr.regs)
                return f0
            op2 = 'trunc' if wb < wa else 'zext'
            def f1(st, fr):
                fr.regs[res] = do_cast(op2, g(fr.regs), wa, wb)
            return f1
        if op in ('trunc', 'zext', 'sext'):
            def f2(st, fr):
                fr.regs[res] = do_cast(op, g(fr.regs), wa, wb)
            return f2
        def f3(st, fr):
            fr.regs[res] = do_fcast(op, g(fr.regs), wa, wb)
        return f3
    c_trunc = c_zext = c_sext = c_ptrtoint = c_inttoptr = c_bitcast = c_addrspacecast = cast
    c_fptrunc = c_fpext = c_fptoui = c_fptosi = c_uitofp = c_sitofp = cast

    def recast(self, v, ty, to):
        def tobytes(v, ty):
            if ty[0] == 'vec':
                out = []
                n = self.mod.sizeof(ty[2])
                for x in v:
                    out += self.split(x, n) if x is not None else [0] * n
                return out
            return self.split(v, self.width(ty) // 8)
        b = tobytes(v, ty)
        if to[0] == 'vec':
            n = self.mod.sizeof(to[2])
            return tuple(self.comb(b[i * n:(i + 1) * n]) for i in range(to[1]))
        return self.comb(b)

    def comb(self, d):
        try:
            return int.from_bytes(d, 'little')
        except TypeError:
            return self.combine(d)

    def c_select(self, d, fn):
        ty = self.mod.resolve(d['ty']); res = d['res']
        gc = self.getter(d['c'], d['cty']); ga = self.getter(d['a'], ty); gb = self.getter(d['b'], ty)
        if d['cty'][0] == 'vec':
            w = self.width(ty[2])
            def fv(st, fr):
                r = fr.regs
                r[res] = tuple(sel(c, x, y, w) for c, x, y in zip(gc(r), ga(r), gb(r)))
            return fv
        if ty[0] in ('s', 'a', 'vec'):
            def fa(st, fr):
                r = fr.regs
                c = gc(r)
                if not is_int(c):
                    c, cl = self.branch(st, c)
                    if cl is not None:
                        cr = cl.frames[-1].regs
                        cr[res] = gb(cr) if c else ga(cr)
                        self.work.append(cl)
                r[res] = ga(r) if c else gb(r)
            return fa
        w = self.width(ty)
        def f(st, fr):
            r = fr.regs
            c = gc(r)
            if type(c) is int:
                r[res] = ga(r) if c else gb(r)
            else:
                r[res] = sel(c, ga(r), gb(r), w)
        return f

    def c_extractvalue(self, d, fn):
        g = self.getter(d['a'], d['ty']); idx = d['idx']; res = d['res']
        def f(st, fr):
            v = g(fr.regs)
            for i in idx:
                v = v[i]
            fr.regs[res] = v
        return f

    def c_insertvalue(self, d, fn):
        g = self.getter(d['a'], d['ty']); idx = d['idx']; res = d['res']
        gb = self.getter(d['b'], d['ety'])
        def ins(v, ix, x):
            if not ix:
                return x
            l = list(v)
            l[ix[0]] = ins(l[ix[0]], ix[1:], x)
            return tuple(l)
        def f(st, fr):
            fr.regs[res] = ins(g(fr.regs), idx, gb(fr.regs))
        return f

    def c_extractelement(self, d, fn):
        g = self.getter(d['a'], d['ty']); gi = self.getter(d['i'], ('i', 64)); res = d['res']
        def f(st, fr):
            fr.regs[res] = g(fr.regs)[self.concretize(st, gi(fr.regs), 'vector index')]
        return f

    def c_insertelement(self, d, fn):
        ty = self.mod.resolve(d['ty'])
        g = self.getter(d['a'], ty); gb = self.getter(d['b'], ty[2]); gi = self.getter(d['i'], ('i', 64)); res = d['res']
        def f(st, fr):
            l = list(g(fr.regs))
            l[self.concretize(st, gi(fr.regs), 'vector index')] = gb(fr.regs)
            fr.regs[res] = tuple(l)
        return f

    def c_shufflevector(self, d, fn):
        ty = self.mod.resolve(d['ty'])
        g = self.getter(d['a'], ty); gb = self.getter(d['b'], ty); res = d['res']
        mt = self.mod.resolve(d['mty'])
        m = d['mask']
        if m[0] == 'zero':
            mask = [0] * mt[1]
        elif m[0] in ('poison', 'undef'):
            mask = [None] * mt[1]
        else:
            mask = [x[1] if x[0] == 'c' else (0 if x[0] == 'zero' else None) for x in m[1]]
        def f(st, fr):
            l = list(g(fr.regs)) + list(gb(fr.regs))
            fr.regs[res] = tuple(None if i is None else l[i] for i in mask)
        return f

    def c_ret(self, d, fn):
        g = self.getter(d['val'], d['ty']) if d['val'] is not None else None
        def f(st, fr):
            v = g(fr.regs) if g is not None else None
            st.frames.pop()
            for o in fr.allocas:
                self.kill(st, o)
            if fr.onret is not None:
                fr.onret(st, v)
                return
            if not st.frames:
                raise PathEnd('ok')
            caller = st.frames[-1]
            res, normal = caller.call
            if res is not None:
                caller.regs[res] = v
            if normal is not None:
                self.jump(st, caller, normal)
        return f

    def c_resume(self, d, fn):
        g = self.getter(d['a'], d['ty'])
        def f(st, fr):
            v = g(fr.regs)
            exc = self.concretize(st, v[0], 'exception pointer')
            self.unwind(st, exc, pop_first=True)
        return f

    def c_landingpad(self, d, fn):
        def f(st, fr):
            raise Unsupported('landingpad executed directly')
        f.lp = d
        f.clauses = None
        return f

    def c_call(self, d, fn):
        return self._call(d, fn, None, None)
    def c_invoke(self, d, fn):
        return self._call(d, fn, d['normal'], d['unwind'])

    def _call(self, d, fn, normal, unwind):
        res = d['res']
        if d['fn'][0] == 'asm':
            if d['fn'][1] == '""':
                return lambda st, fr: None
            raise Unsupported('inline asm')
        args = []
        for t, at, v in d['args']:
            rt = t if t[0] == 'metadata' else self.mod.resolve(t)
            if t[0] == 'metadata':
                args.append((lambda regs: None, None, 0))
                continue
            args.append((self.getter(v, rt), at.get('byval'), rt))
        getters = [a[0] for a in args]
        byvals = [(i, a[1]) for i, a in enumerate(args) if a[1] is not None]
        rty = d['ty']
        callinfo = (res, normal)
        if d['fn'][0] == 'g':
            name = d['fn'][1]
            # resolve alias
            target = self.mod.functions.get(name)
            if target is None and name not in self.mod.declares:
                a = self.global_addr(name)
                name = self.fbyaddr.get(a, name)
                target = self.mod.functions.get(name)
            b = self.builtins.get(name)
            if b is None and name.startswith('@llvm.'):
                b = intrinsic(name)
            if b is None and target is None:
                b = prefix_builtin(name)
            if b is not None:
                def fb(st, fr):
                    a = [g(fr.regs) for g in getters]
                    fr.call = callinfo
                    r = b(self, st, fr, a, d)
                    if r is PUSHED:
                        return
                    if res is not None:
                        fr.regs[res] = r
                    if normal is not None:
                        self.jump(st, fr, normal)
                return fb
            if target is None:
                def fu(st, fr):
                    raise Unsupported('call to external function ' + name)
                return fu
            def fc(st, fr):
                regs = fr.regs
                a = [g(regs) for g in getters]
                fr.call = callinfo
                self.push(st, target, a, byvals)
            return fc
        gf = self.getter(d['fn'], ('p',))
        def fi(st, fr):
            a = self.concretize(st, gf(fr.regs), 'call target')
            nm = self.fbyaddr.get(a)
            if nm is None:
                self.violate(st, 'memory', 'call through an invalid function pointer 0x%x' % a)
            args_ = [g(fr.regs) for g in getters]
            fr.call = callinfo
            t = self.mod.functions.get(nm)
            if t is None:
                b = self.builtins.get(nm) or prefix_builtin(nm)
                if b is None:
                    raise Unsupported('indirect call to external ' + nm)
                r = b(self, st, fr, args_, d)
                if r is PUSHED:
                    return
                if res is not None:
                    fr.regs[res] = r
                if normal is not None:
                    self.jump(st, fr, normal)
                return
            self.push(st, t, args_, byvals)
        return fi

    def push(self, st, target, args, byvals=()):
        c = self.get_compiled(target)
        if len(st.frames) > 400:
            raise Limit('call depth')
        nf = Frame(target)
        ps = target.params
        regs = nf.regs
        for i, (t, at, nm) in enumerate(ps):
            regs[nm] = args[i]
        for i, bt in byvals:
            size = self.mod.sizeof(bt)
            src = self.concretize(st, args[i], 'byval')
            o = self.new_obj(st, size, 'stack', target.name + ':byval', self.load_bytes(st, src, size))
            nf.allocas.append(o)
            if i < len(ps):
                regs[ps[i][2]] = o.base
        nf.bname = target.entry
        nf.instrs = c[target.entry][1]
        st.frames.append(nf)
        self.stats.functions.add(target.name)
        return nf

    # ------------------------------------------------------------ exceptions
    def throw(self, st, exc):
        self.unwind(st, exc, pop_first=False)

    def ti_matches(self, st, thrown, want):
        """does a handler for type_info `want` match an exception of type_info `thrown`?"""
        if thrown == want:
            return True
        si = self.gaddr.get('@_ZTVN10__cxxabiv120__si_class_type_infoE')
        vmi = self.gaddr.get('@_ZTVN10__cxxabiv121__vmi_class_type_infoE')
        o = self.gmem.get(thrown >> PAGE)
        if o is None or o.note == 'external' or o.size < 24:
            return False
        vt = int.from_bytes(o.data[0:8], 'little')
        if si is not None and vt == si + 16:
            base = int.from_bytes(o.data[16:24], 'little')
            return self.ti_matches(st, base, want)
        if vmi is not None and vt == vmi + 16:
            n = int.from_bytes(o.data[20:24], 'little')
            for i in range(n):
                base = int.from_bytes(o.data[24 + 16 * i:32 + 16 * i], 'little')
                if self.ti_matches(st, base, want):
                    return True
        return False

    def typeid(self, ti):
        if ti == 0:
            return 0x7fff
        if ti not in self.typeids:
            self.typeids[ti] = len(self.typeids) + 1
        return self.typeids[ti]

    def lp_lookup(self, st, lp, ti):
        """selector for landingpad: >0 handler, 0 cleanup, None not entered"""
        for kind, t, v in lp['clauses']:
            if kind == 'catch':
                a = self.const_eval(v, ('p',))
                if a == 0 or self.ti_matches(st, ti, a):
                    return self.typeid(a)
            else:
                # filter: entered (terminates) if the type is not listed
                els = v[1] if v[0] == 'agg' else []
                if not any(self.ti_matches(st, ti, self.const_eval(x, ('p',))) for x in els):
                    return (-1) & MASK[32]
        if lp['cleanup']:
            return 0
        return None

    def find_lp(self, fr):
        """landingpad description of the frame's pending invoke or None"""
        ins = fr.instrs[fr.ip - 1]
        u = getattr(ins, 'unwind', None)
        return u

    def unwind(self, st, exc, pop_first):
        ti = st.cur_exc[exc][0]
        frames = st.frames
        start = len(frames) - 1
        if pop_first:
            start -= 1
        # phase 1: is there a handler at all?
        found = False
        for i in range(start, -1, -1):
            fr = frames[i]
            if fr.onret is not None and i != start and False:
                pass
            u = self.pending_unwind(fr)
            if u is not None:
                lp = self.lp_of(fr, u)
                r = self.lp_lookup(st, lp, ti)
                if r is not None and r != 0:
                    found = True
                    break
        if not found:
            self.violate(st, 'terminate', 'exception escapes: std::terminate')
        while frames:
            fr = frames[-1]
            idx = len(frames) - 1
            if idx <= start:
                u = self.pending_unwind(fr)
                if u is not None:
                    lp = self.lp_of(fr, u)
                    r = self.lp_lookup(st, lp, ti)
                    if r is not None:
                        # jump into the landing pad
                        self.jump(st, fr, u)
                        # skip the landingpad instruction itself
                        fr.regs[lp['res']] = (exc, r)
                        fr.ip = 1
                        return
            frames.pop()
            for o in fr.allocas:
                self.kill(st, o)
            if fr.onret is not None:
                self.violate(st, 'terminate', 'exception thrown by a destructor during exception handling')
        raise PathEnd('uncaught')

    def pending_unwind(self, fr):
        """unwind label if the instruction before fr.ip is an invoke"""
        d = self.fdesc(fr)
        return d

    def fdesc(self, fr):
        blk = fr.fn.blocks[fr.bname]
        nphi = len(self.compiled[fr.fn.name][fr.bname][0])
        k = fr.ip - 1 + nphi
        if k < 0 or k >= len(blk):
            return None
        d = blk[k]
        return d['unwind'] if d['op'] == 'invoke' else None

    def lp_of(self, fr, label):
        for d in fr.fn.blocks[label]:
            if d['op'] == 'landingpad':
                return d
            if d['op'] != 'phi':
                break
        raise Unsupported('no landingpad in ' + label)

    # ------------------------------------------------------------ driver
    def run(self, entry, time_limit=None):
        """explore every path of harness `entry`. Returns dict with results."""
        self.work = []
        self.violations = []
        self.witnesses = []
        self.nconcr = 0
        self.ends = {}
        self.trunc = None
        st = State()
        fn = self.mod.functions['@' + entry]
        t0 = time.time()
        self.deadline = t0 + time_limit if time_limit else None
        s = self.stats
        try:
            self.push(st, fn, [])
            self.run_ctors(st)
            self.work.append(st)
            npaths = 0
            while self.work:
                st = self.work.pop()
                kind = self.run_path(st)
                self.ends[kind] = self.ends.get(kind, 0) + 1
                npaths += 1
                s.paths += 1
                if npaths > self.max_paths:
                    raise Limit('more than %d paths' % self.max_paths)
                if len(self.violations) >= 20:
                    break
        except (Unsupported, Limit, IRError) as e:
            self.trunc = '%s: %s' % (type(e).__name__, e)
        except z3.Z3Exception as e:
            self.trunc = 'z3: %s' % e
        return dict(entry=entry, ends=self.ends, violations=self.violations, witnesses=self.witnesses,
                    error=self.trunc, wall=time.time() - t0)

    def run_ctors(self, st):
        raw = self.mod.raw_globals.get('@llvm.global_ctors')
        if raw is None:
            return
        a = self.global_addr('@llvm.global_ctors')
        o = self.gmem[a >> PAGE]
        n = o.size // 24
        fns = []
        for i in range(n):
            p = int.from_bytes(o.data[24 * i + 8:24 * i + 16], 'little')
            pr = int.from_bytes(o.data[24 * i:24 * i + 4], 'little')
            fns.append((pr, i, self.fbyaddr[p]))
        # executed first: push in reverse order on top of the entry frame
        for pr, i, nm in sorted(fns, reverse=True):
            nf = self.push(st, self.mod.functions[nm], [])
            nf.onret = lambda st, v: None

    def run_path(self, st):
        s = self.stats
        n = 0
        try:
            try:
                while True:
                    fr = st.frames[-1]
                    ip = fr.ip
                    fr.ip = ip + 1
                    fr.instrs[ip](st, fr)
                    n += 1
                    if not n & 0x3fff:
                        if st.steps + n > self.max_steps:
                            raise Limit('step limit')
                        if self.deadline and time.time() > self.deadline:
                            raise Limit('time limit')
            finally:
                st.steps += n
                s.instrs += n
        except PathEnd as e:
            if e.kind == 'ok':
                return self.finish(st)
            if e.kind == 'trap':
                s.traps += 1
                self.witness(st, 'trap')
            if e.kind == 'assume':
                s.assume_cut += 1
            return e.kind

    def finish(self, st):
        if not st.noleak and st.live_heap:
            try:
                self.violate(st, 'leak', '%d heap block(s) never freed' % len(st.live_heap))
            except PathEnd:
                return 'violation'
        self.witness(st, 'ok')
        return 'ok'

    def witness(self, st, kind):
        # the path is feasible: keep a concrete input that drives it (vacuity witness and translator validation)
        if len(self.witnesses) < self.witness_cap:
            m = self.get_model(st)
            un = any(self.has_uninit(c) for c in st.pc)
            self.witnesses.append(dict(kind=kind, inputs=self.model_inputs(st, m), obs=self.eval_obs(st, m),
                                       asserts=st.asserts, uninit=un))

PUSHED = object()

# ---------------------------------------------------------------- scalar ops
def conc_bin(op, a, b, w):
    M = MASK[w]
    if op == 'add':
        return (a + b) & M
    if op == 'sub':
        return (a - b) & M
    if op == 'mul':
        return (a * b) & M
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return (a << b) & M if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return (sgn(a, w) >> min(b, w - 1)) & M
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    x, y = sgn(a, w), sgn(b, w)
    q = abs(x) // abs(y)
    if (x < 0) != (y < 0):
        q = -q
    if op == 'sdiv':
        return q & M
    if op == 'srem':
        return (x - q * y) & M
    raise Unsupported('binop ' + op)

def do_bin(op, a, b, w):
    if is_int(a) and is_int(b):
        return conc_bin(op, a, b, w)
    if a is None or b is None:
        return None
    if w == 1:
        x, y = b2bool(a), b2bool(b)
        if op == 'and':
            return simpb(z3.And(x, y))
        if op == 'or':
            return simpb(z3.Or(x, y))
        if op in ('xor', 'add', 'sub'):
            return simpb(z3.Xor(x, y))
        raise Unsupported('i1 ' + op)
    x, y = bv(a, w), bv(b, w)
    if op == 'add':
        r = x + y
    elif op == 'sub':
        r = x - y
    elif op == 'mul':
        r = x * y
    elif op == 'and':
        r = x & y
    elif op == 'or':
        r = x | y
    elif op == 'xor':
        r = x ^ y
    elif op == 'shl':
        r = x << y
    elif op == 'lshr':
        r = z3.LShR(x, y)
    elif op == 'ashr':
        r = x >> y
    elif op == 'udiv':
        r = z3.UDiv(x, y)
    elif op == 'urem':
        r = z3.URem(x, y)
    elif op == 'sdiv':
        r = x / y
    elif op == 'srem':
        r = z3.SRem(x, y)
    else:
        raise Unsupported('binop ' + op)
    return simp(r)

def conc_icmp(p, a, b, w):
    if p == 'eq':
        return int(a == b)
    if p == 'ne':
        return int(a != b)
    if p[0] == 's':
        a = sgn(a, w); b = sgn(b, w)
    q = p[1:]
    if q == 'lt':
        return int(a < b)
    if q == 'le':
        return int(a <= b)
    if q == 'gt':
        return int(a > b)
    return int(a >= b)

def do_icmp(p, a, b, w):
    if is_int(a) and is_int(b):
        return conc_icmp(p, a, b, w)
    if w == 1:
        x, y = b2bool(a), b2bool(b)
        if p == 'eq':
            return simpb(x == y)
        if p == 'ne':
            return simpb(z3.Xor(x, y))
        x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); y = z3.If(y, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    else:
        x, y = bv(a, w), bv(b, w)
    r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
         'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
         'sgt': lambda: x > y, 'sge': lambda: x >= y}[p]()
    return simpb(r)

FS = {32: z3.Float32, 64: z3.Float64}
def tofp(v, w):
    return z3.fpBVToFP(bv(v, w), FS[w]())

def cfloat(v, w):
    return struct.unpack('<f' if w == 32 else '<d', v.to_bytes(w // 8, 'little'))[0]

def do_fcmp(p, a, b, w):
    if p == 'true':
        return 1
    if p == 'false':
        return 0
    if is_int(a) and is_int(b):
        x, y = cfloat(a, w), cfloat(b, w)
        un = x != x or y != y
        if p == 'ord':
            return int(not un)
        if p == 'uno':
            return int(un)
        if un:
            return int(p[0] == 'u')
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]])
    x, y = tofp(a, w), tofp(b, w)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if p == 'ord':
        return simpb(z3.Not(un))
    if p == 'uno':
        return simpb(un)
    c = {'eq': z3.fpEQ(x, y), 'ne': z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y),
         'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y)}[p[1:]]
    if p[0] == 'o':
        return simpb(z3.And(z3.Not(un), c))
    return simpb(z3.Or(un, c))

def do_fbin(op, a, b, w):
    rm = z3.RNE()
    x, y = tofp(a, w), tofp(b, w)
    r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, x, y)
    return simp(z3.fpToIEEEBV(r))

def do_fcast(op, a, wa, wb):
    rm = z3.RNE()
    if op in ('fptrunc', 'fpext'):
        return simp(z3.fpToIEEEBV(z3.fpFPToFP(rm, tofp(a, wa), FS[wb]())))
    if op == 'uitofp':
        return simp(z3.fpToIEEEBV(z3.fpUnsignedToFP(rm, bv(a, wa), FS[wb]())))
    if op == 'sitofp':
        return simp(z3.fpToIEEEBV(z3.fpSignedToFP(rm, bv(a, wa), FS[wb]())))
    if op == 'fptoui':
        return simp(z3.fpToUBV(z3.RTZ(), tofp(a, wa), z3.BitVecSort(wb)))
    if op == 'fptosi':
        return simp(z3.fpToSBV(z3.RTZ(), tofp(a, wa), z3.BitVecSort(wb)))
    raise Unsupported(op)

def do_cast(op, v, wa, wb):
    if v is None:
        return None
    if type(v) is int:
        if op == 'trunc':
            return v & MASK[wb]
        if op == 'zext':
            return v
        return sgn(v, wa) & MASK[wb]
    if op == 'trunc':
        if wb == 1:
            return simpb(z3.Extract(0, 0, v) == 1)
        return simp(z3.Extract(wb - 1, 0, v))
    if wa == 1:
        one = 1 if op == 'zext' else MASK[wb]
        return z3.If(v, z3.BitVecVal(one, wb), z3.BitVecVal(0, wb))
    return simp(z3.ZeroExt(wb - wa, v) if op == 'zext' else z3.SignExt(wb - wa, v))

def sel(c, a, b, w):
    if is_int(c):
        return a if c else b
    if a is None:
        return b
    if b is None:
        return a
    if w == 1:
        return simpb(z3.If(c, b2bool(a), b2bool(b)))
    return simp(z3.If(c, bv(a, w), bv(b, w)))

# ---------------------------------------------------------------- builtins
def cstring(ex, st, a):
    a = ex.concretize(st, a, 'string')
    out = []
    while True:
        b = ex.load_bytes(st, a, 1)[0]
        if not is_int(b) or b == 0:
            break
        out.append(chr(b))
        a += 1
        if len(out) > 300:
            break
    return ''.join(out)

def new_input(ex, st, name, w):
    var = z3.BitVec('in%d_%s' % (len(st.inputs), name), w)
    st.inputs.append((name, w, var))
    return var

def build_builtins():
    B = {}
    def reg(*names):
        def deco(f):
            for n in names:
                B['@' + n] = f
            return f
        return deco

    for w in (8, 16, 32, 64):
        def mk(w):
            def f(ex, st, fr, a, d):
                return new_input(ex, st, cstring(ex, st, a[0]), w)
            return f
        B['@vp_u%d' % w] = mk(w)

    @reg('vp_bytes')
    def _(ex, st, fr, a, d):
        p = ex.concretize(st, a[0]); n = ex.concretize(st, a[1])
        name = cstring(ex, st, a[2])
        for i in range(n):
            v = new_input(ex, st, name, 8)
            ex.store_bytes(st, p + i, [(v, 0)])
    @reg('vp_assume_')
    def _(ex, st, fr, a, d):
        c = a[0]
        c = (1 if c else 0) if is_int(c) else simpb(c != 0)
        ex.assume(st, c)
    @reg('vp_assert_')
    def _(ex, st, fr, a, d):
        c = a[0]
        c = (1 if c else 0) if is_int(c) else simpb(c != 0)
        ex.do_assert(st, c, cstring(ex, st, a[1]))
    @reg('vp_observe_')
    def _(ex, st, fr, a, d):
        st.obs.append((cstring(ex, st, a[0]), a[1], 64))
    @reg('vp_expect_trap')
    def _(ex, st, fr, a, d):
        st.trap_ok = True
    @reg('vp_no_leak_check')
    def _(ex, st, fr, a, d):
        st.noleak = True
    @reg('vp_split_')
    def _(ex, st, fr, a, d):
        # force a case split on a symbolic value
        return ex.concretize(st, a[0], 'vp_split')
    @reg('vp_fork_')
    def _(ex, st, fr, a, d):
        c = a[0]
        if is_int(c):
            return 1 if c else 0
        v, cl = ex.branch(st, c != 0)
        if cl is not None:
            f2 = cl.frames[-1]
            res, normal = f2.call
            f2.regs[res] = 1 - v
            if normal is not None:
                ex.jump(cl, f2, normal)
            ex.work.append(cl)
        return v
    @reg('vp_addr_live_')
    def _(ex, st, fr, a, d):
        p = ex.concretize(st, a[0])
        return 1 if (p >> PAGE) in st.mem or (p >> PAGE) in ex.gmem else 0
    @reg('vp_is_symbolic_engine')
    def _(ex, st, fr, a, d):
        return 1

    def do_new(ex, st, fr, a, d):
        n = ex.concretize(st, a[0], 'allocation size')
        if n > (1 << 24):
            raise Limit('huge allocation')
        o = ex.new_obj(st, n, 'heap', 'heap block of %d bytes' % n)
        st.live_heap[o.base] = n
        return o.base
    for nm in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t'):
        B['@' + nm] = do_new
    def do_delete(ex, st, fr, a, d):
        p = ex.concretize(st, a[0], 'freed pointer')
        if p == 0:
            return None
        if p not in st.live_heap:
            ex.violate(st, 'memory', 'free of a pointer that is not a live heap block (double free or wild free): 0x%x' % p)
        del st.live_heap[p]
        ex.kill(st, st.mem[p >> PAGE])
    for nm in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
        B['@' + nm] = do_delete

    @reg('memcpy', 'memmove')
    def memcpy(ex, st, fr, a, d):
        n = ex.concretize(st, a[2], 'memcpy size')
        dst = ex.concretize(st, a[0], 'memcpy dest'); src = ex.concretize(st, a[1], 'memcpy src')
        if n:
            ex.store_bytes(st, dst, ex.load_bytes(st, src, n))
        return dst
    @reg('memset')
    def memset(ex, st, fr, a, d):
        n = ex.concretize(st, a[2], 'memset size'); dst = ex.concretize(st, a[0], 'memset dest')
        v = a[1]
        if is_int(v):
            b = v & 255
        else:
            b = (simp(z3.Extract(7, 0, v)) if v.size() > 8 else v)
            b = (b, 0) if not is_int(b) else b
        if n:
            ex.store_bytes(st, dst, [b] * n)
        return dst
    @reg('memcmp', 'bcmp')
    def memcmp(ex, st, fr, a, d):
        n = ex.concretize(st, a[2], 'memcmp size')
        if n == 0:
            return 0
        p = ex.concretize(st, a[0]); q = ex.concretize(st, a[1])
        r = z3.BitVecVal(0, 32)
        for i in reversed(range(n)):
            x = bv(ex.load_int(st, p + i, 1), 8); y = bv(ex.load_int(st, q + i, 1), 8)
            r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(MASK[32], 32), z3.BitVecVal(1, 32)))
        return simp(r)
    @reg('strlen')
    def strlen(ex, st, fr, a, d):
        p = ex.concretize(st, a[0])
        n = 0
        while True:
            b = ex.load_int(st, p + n, 1)
            if not is_int(b):
                raise Unsupported('strlen of symbolic data')
            if b == 0:
                return n
            n += 1
    @reg('memchr')
    def memchr(ex, st, fr, a, d):
        n = ex.concretize(st, a[2]); p = ex.concretize(st, a[0])
        c = ex.concretize(st, a[1]) & 255
        r = z3.BitVecVal(0, 64)
        for i in reversed(range(n)):
            x = bv(ex.load_int(st, p + i, 1), 8)
            r = z3.If(x == c, z3.BitVecVal(p + i, 64), r)
        return simp(r)

    @reg('fprintf', 'fflush', 'printf', 'fputs', 'fwrite', 'puts')
    def _(ex, st, fr, a, d):
        return 0

    # exceptions
    @reg('__cxa_allocate_exception')
    def _(ex, st, fr, a, d):
        n = ex.concretize(st, a[0])
        return ex.new_obj(st, max(n, 1), 'heap', 'exception object').base
    @reg('__cxa_free_exception')
    def _(ex, st, fr, a, d):
        ex.kill(st, st.mem[ex.concretize(st, a[0]) >> PAGE])
    @reg('__cxa_throw')
    def _(ex, st, fr, a, d):
        p = ex.concretize(st, a[0]); ti = ex.concretize(st, a[1]); dt = ex.concretize(st, a[2])
        st.cur_exc[p] = (ti, dt)
        ex.throw(st, p)
        return PUSHED
    @reg('__cxa_begin_catch')
    def _(ex, st, fr, a, d):
        p = ex.concretize(st, a[0])
        st.caught.append(p)
        return p
    @reg('__cxa_get_exception_ptr')
    def _(ex, st, fr, a, d):
        return ex.concretize(st, a[0])
    @reg('__cxa_end_catch')
    def _(ex, st, fr, a, d):
        if not st.caught:
            raise Unsupported('end_catch without catch')
        p = st.caught.pop()
        if p < 0:
            return None    # rethrown, still in flight
        if p in st.caught:
            return None
        ti, dt = st.cur_exc[p]
        def fin(st, v):
            st.cur_exc.pop(p, None)
            o = st.mem.get(p >> PAGE)
            if o is not None:
                ex.kill(st, o)
        if dt:
            nm = ex.fbyaddr[dt]
            t = ex.mod.functions.get(nm)
            if t is not None:
                callinfo = fr.call
                def onret(st, v):
                    fin(st, v)
                    c = st.frames[-1]
                    res, normal = callinfo
                    if normal is not None:
                        ex.jump(st, c, normal)
                nf = ex.push(st, t, [p])
                nf.onret = onret
                return PUSHED
        fin(st, None)
        return None
    @reg('__cxa_rethrow')
    def _(ex, st, fr, a, d):
        if not st.caught:
            ex.violate(st, 'terminate', 'rethrow without exception')
        p = st.caught[-1]
        st.caught[-1] = -1
        ex.throw(st, p)
        return PUSHED
    @reg('_Unwind_Resume')
    def _(ex, st, fr, a, d):
        ex.unwind(st, ex.concretize(st, a[0]), pop_first=True)
        return PUSHED
    @reg('_ZSt9terminatev', 'abort', '__clang_call_terminate', '_ZSt17__terminate_handlerv')
    def _(ex, st, fr, a, d):
        ex.violate(st, 'terminate', 'std::terminate/abort called')
    @reg('__cxa_pure_virtual')
    def _(ex, st, fr, a, d):
        ex.violate(st, 'memory', 'pure virtual call')
    @reg('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD0Ev')
    def _(ex, st, fr, a, d):
        return None
    @reg('__cxa_guard_acquire')
    def _(ex, st, fr, a, d):
        p = ex.concretize(st, a[0])
        return 1 if ex.load_int(st, p, 1) == 0 else 0
    @reg('__cxa_guard_release')
    def _(ex, st, fr, a, d):
        p = ex.concretize(st, a[0])
        ex.store_bytes(st, p, [1])
    @reg('__cxa_guard_abort', '__cxa_atexit', 'atexit')
    def _(ex, st, fr, a, d):
        return 0
    @reg('_ZSt11_Hash_bytesPKvmm')
    def _(ex, st, fr, a, d):
        n = ex.concretize(st, a[1])
        seed = bv(a[2], 64)
        if n == 0:
            return simp(ex.get_uf('hash0', [64])(seed)) 
        p = ex.concretize(st, a[0])
        v = bv(ex.load_int(st, p, n), 8 * n)
        return ex.get_uf('hash%d' % n, [8 * n, 64])(v, seed)
    @reg('_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_length_errorPKc', '_ZSt19__throw_logic_errorPKc',
         '_ZSt20__throw_out_of_rangePKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
         '_ZSt25__throw_bad_function_callv', '_ZSt16__throw_bad_castv')
    def _(ex, st, fr, a, d):
        ex.violate(st, 'stdthrow', 'the standard library throws: ' + d['fn'][1])
    @reg('_ZSt21__glibcxx_assert_failPKciS0_S0_')
    def _(ex, st, fr, a, d):
        ex.violate(st, 'stdassert', 'standard library precondition violated: ' + cstring(ex, st, a[3]))
    return B

def get_uf(self, name, ws):
    f = self.uf.get(name)
    if f is None:
        f = z3.Function(name, *[z3.BitVecSort(w) for w in ws], z3.BitVecSort(64))
        self.uf[name] = f
    return f
Executor.get_uf = get_uf

def prefix_builtin(name):
    return None

def i_nop(ex, st, fr, a, d):
    return None

def trap(ex, st, fr, a, d):
    nm = d['fn'][1]
    if nm == '@llvm.ubsantrap':
        ex.violate(st, 'ub', 'undefined behaviour check failed (ubsan kind %s)' % (a[0],))
    if st.trap_ok:
        raise PathEnd('trap')
    ex.violate(st, 'trap', 'debug assertion (OPTION_VERIFY) or trap hit')

def intrinsic(name):
    n = name[1:]
    for p in NOP_INTRINSICS:
        if n.startswith(p):
            return i_nop
    B = build_builtins_cached()
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
        return B['@memcpy']
    if n.startswith('llvm.memset'):
        return B['@memset']
    if n in ('llvm.trap', 'llvm.debugtrap', 'llvm.ubsantrap'):
        return trap
    if n == 'llvm.assume':
        def f(ex, st, fr, a, d):
            c = a[0]
            if is_int(c):
                if not c:
                    ex.violate(st, 'ub', 'assumption violated (OPTION_VERIFY as __builtin_assume is false)')
                return None
            m = ex.check(st.pc, z3.Not(c))
            if m is not None:
                ex.violate(st, 'ub', 'assumption violated (OPTION_VERIFY as __builtin_assume can be false)', m)
        return f
    if n.startswith('llvm.expect'):
        return lambda ex, st, fr, a, d: a[0]
    if n.startswith('llvm.is.constant'):
        return lambda ex, st, fr, a, d: 0
    if n.startswith('llvm.objectsize'):
        return lambda ex, st, fr, a, d: MASK[64]
    if n.startswith('llvm.eh.typeid.for'):
        def f(ex, st, fr, a, d):
            return ex.typeid(a[0])
        return f
    if n.startswith(('llvm.launder.invariant', 'llvm.strip.invariant', 'llvm.ssa.copy')):
        return lambda ex, st, fr, a, d: a[0]
    if n.startswith('llvm.stacksave'):
        return lambda ex, st, fr, a, d: 0
    import re
    m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
    if m:
        sg = m.group(1) == 's'; op = m.group(2); w = int(m.group(3))
        def f(ex, st, fr, a, d):
            x, y = a[0], a[1]
            r = do_bin(op, x, y, w)
            if is_int(x) and is_int(y):
                p, q = (sgn(x, w), sgn(y, w)) if sg else (x, y)
                t = p + q if op == 'add' else p - q if op == 'sub' else p * q
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, MASK[w])
                return (r, int(not (lo <= t <= hi)))
            p, q = bv(x, w), bv(y, w)
            if sg:
                e = w if op == 'mul' else 1
                p2, q2 = z3.SignExt(e, p), z3.SignExt(e, q)
            else:
                e = w if op == 'mul' else 1
                p2, q2 = z3.ZeroExt(e, p), z3.ZeroExt(e, q)
            t = p2 + q2 if op == 'add' else p2 - q2 if op == 'sub' else p2 * q2
            rr = bv(r, w)
            back = z3.SignExt(e, rr) if sg else z3.ZeroExt(e, rr)
            return (r, simpb(t != back))
        return f
    m = re.match(r'llvm\.(umin|umax|smin|smax)\.i(\d+)$', n)
    if m:
        op, w = m.group(1), int(m.group(2))
        pr = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
        return lambda ex, st, fr, a, d: sel(do_icmp(pr, a[0], a[1], w), a[0], a[1], w)
    m = re.match(r'llvm\.([us])(add|sub)\.sat\.i(\d+)$', n)
    if m and m.group(1) == 'u':
        op, w = m.group(2), int(m.group(3))
        def f(ex, st, fr, a, d):
            r = do_bin(op, a[0], a[1], w)
            if op == 'add':
                return sel(do_icmp('ult', r, a[0], w), MASK[w], r, w)
            return sel(do_icmp('ult', a[0], a[1], w), 0, r, w)
        return f
    m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)$', n)
    if m:
        w = int(m.group(2)); left = m.group(1) == 'fshl'
        def f(ex, st, fr, a, d):
            s = ex.concretize(st, a[2]) % w
            x, y = a[0], a[1]
            if not left:
                s = (w - s) % w
                if s == 0:
                    return y
            if s == 0:
                return x
            return do_bin('or', do_bin('shl', x, s, w), do_bin('lshr', y, w - s, w), w)
        return f
    m = re.match(r'llvm\.abs\.i(\d+)$', n)
    if m:
        w = int(m.group(1))
        return lambda ex, st, fr, a, d: sel(do_icmp('slt', a[0], 0, w), do_bin('sub', 0, a[0], w), a[0], w)
    m = re.match(r'llvm\.(scmp|ucmp)\.', n)
    m = re.match(r'llvm\.fabs\.f(\d+)$', n)
    if m:
        w = int(m.group(1))
        return lambda ex, st, fr, a, d: do_bin('and', a[0], MASK[w - 1], w)
    m = re.match(r'llvm\.bswap\.i(\d+)$', n)
    if m:
        w = int(m.group(1))
        def f(ex, st, fr, a, d):
            b = ex.split(a[0], w // 8)
            return ex.comb(b[::-1])
        return f
    m = re.match(r'llvm\.ptrmask', n)
    if m:
        return lambda ex, st, fr, a, d: do_bin('and', a[0], a[1], 64)
    if n.startswith('llvm.threadlocal.address'):
        return lambda ex, st, fr, a, d: a[0]
    def bad(ex, st, fr, a, d):
        raise Unsupported('intrinsic ' + n)
    return bad

_BB = None
def build_builtins_cached():
    global _BB
    if _BB is None:
        _BB = build_builtins()
    return _BB

# atomics (single threaded)
def c_cmpxchg(self, d, fn):
    ty = d['ty']; w = self.width(ty); res = d['res']
    gp = self.getter(d['ptr'], ('p',)); ga = self.getter(d['a'], ty); gb = self.getter(d['b'], ty)
    def f(st, fr):
        p = self.concretize(st, gp(fr.regs))
        old = self.load_val(st, p, ty)
        eq = do_icmp('eq', old, ga(fr.regs), w)
        self.store_val(st, p, ty, sel(eq, gb(fr.regs), old, w))
        fr.regs[res] = (old, eq)
    return f
def c_atomicrmw(self, d, fn):
    ty = d['ty']; w = self.width(ty); res = d['res']; op = d['rmw']
    gp = self.getter(d['ptr'], ('p',)); ga = self.getter(d['a'], ty)
    def f(st, fr):
        p = self.concretize(st, gp(fr.regs))
        old = self.load_val(st, p, ty)
        x = ga(fr.regs)
        new = x if op == 'xchg' else do_bin(op, old, x, w)
        self.store_val(st, p, ty, new)
        if res is not None:
            fr.regs[res] = old
    return f
Executor.c_cmpxchg = c_cmpxchg
Executor.c_atomicrmw = c_atomicrmw
