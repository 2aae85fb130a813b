"""Path-exhaustive symbolic execution of real Python functions: integers are Z3 terms (unbounded), every truth value
asked of one forks the path, Z3 decides which sides are feasible, and the assertions are decided by Z3 on every path."""
import z3, time, numbers, builtins, sys, types, importlib.util, os
class Inconclusive(Exception): pass
class PathEnd(Exception): pass
class Violation(Exception): pass
class Ctx:
    def __init__(s, seconds): s.t0 = time.time(); s.limit = seconds; s.queries = 0; s.solver_s = 0.0; s.todo = [[]]; s.paths = 0; s.forks = 0; s.covers = {}; s.violations = []; s.checks = 0; s.checks_solver = 0; s.samples = []; s.inputs = []
    def sat(s, *extra):
        if time.time() - s.t0 > s.limit: raise Inconclusive('time limit')
        t = time.time(); s.solver.push(); s.solver.add(*extra); r = s.solver.check(); m = s.solver.model() if r == z3.sat else None; s.solver.pop(); s.solver_s += time.time() - t; s.queries += 1
        if r == z3.unknown: raise Inconclusive('solver gave up')
        return m
    def begin(s, prefix): s.prefix, s.pos, s.trace, s.inputs = prefix, 0, [], []; s.solver = z3.Solver(); s.solver.set('timeout', 60000)
    def decide(s, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.pos < len(s.prefix): b = s.prefix[s.pos]; s.pos += 1
        else:
            t, f = s.sat(c) is not None, s.sat(z3.Not(c)) is not None
            if not t and not f: raise PathEnd()
            b = t; s.pos += 1
            if t and f: s.todo.append(s.trace + [False]); s.forks += 1
        s.trace.append(b); s.solver.add(c if b else z3.Not(c)); return b
    def assume(s, c):
        c = expr(c)
        s.solver.add(c)
        if s.sat() is None: raise PathEnd()
    def check(s, c, msg):
        s.checks += 1; c = z3.simplify(expr(c))
        if z3.is_true(c): return
        s.checks_solver += 1; m = s.sat(z3.Not(c))
        if m is None: return
        # prefer a small counterexample
        for k in (3, 6, 20, 1000):
            small = s.sat(z3.Not(c), *[z3.And(v <= k, v >= -k) for _, v in s.inputs if z3.is_int(v)])
            if small is not None: m = small; break
        s.violations.append((msg, s.model(m))); raise Violation()
    def model(s, m): return [(n, m.eval(v, model_completion=True).as_long()) for n, v in s.inputs]
    def run(s, fn, sample):
        """fn(ctx) once per path"""
        while s.todo:
            s.begin(s.todo.pop())
            try:
                try: fn(s)
                except (Violation, PathEnd): continue
                s.paths += 1
                if s.paths <= sample:
                    m = None
                    for k in (6, 1000): m = m or s.sat(*[z3.And(v <= k, v >= -k) for _, v in s.inputs])
                    m = m or s.sat()
                    if m is not None: s.samples.append(s.model(m))
            except Violation: pass
            if len(s.violations) >= 6: break
    def sym(s, name): v = z3.Int('%s#%d' % (name, len(s.inputs))); s.inputs.append((name, v)); return SInt(v)
    def cover(s, n): s.covers[n] = s.covers.get(n, 0) + 1
CTX = None
def expr(x):
    if isinstance(x, SInt): return x.v
    if isinstance(x, SBool): return x.c
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def num(x):
    if isinstance(x, SInt): return x.v
    if isinstance(x, SBool): return z3.If(x.c, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, builtins.int)): return z3.IntVal(builtins.int(x))
    return None
class SBool:
    def __init__(s, c): s.c = c
    def __bool__(s): return CTX.decide(s.c)
    def __eq__(s, o): return SBool(s.c == expr(o)) if isinstance(o, (SBool, bool)) else SInt(num(s)) == o
    def __hash__(s): return hash(bool(s))
    def __and__(s, o): return SBool(z3.And(s.c, expr(o)))
    def __or__(s, o): return SBool(z3.Or(s.c, expr(o)))
    __rand__ = __and__; __ror__ = __or__
    def __int__(s): return builtins.int(bool(s))
    __index__ = __int__
    def __add__(s, o): return SInt(num(s)) + o
    __radd__ = __add__
class SInt:
    def __init__(s, v): s.v = v
    def _b(s, o, f):
        o = num(o); return NotImplemented if o is None else SInt(z3.simplify(f(s.v, o)))
    def _c(s, o, f):
        o = num(o); return NotImplemented if o is None else SBool(z3.simplify(f(s.v, o)))
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __floordiv__(s, o):
        if not isinstance(o, builtins.int) or o <= 0: raise Inconclusive('division')
        return s._b(o, lambda a, b: a / b)
    def __mod__(s, o):
        if num(o) is None: return NotImplemented
        d = num(o)
        if not CTX.decide(d > 0): raise Inconclusive('modulo by a number that may not be positive')
        return SInt(z3.simplify(s.v % d))
    def __rmod__(s, o): return SInt(num(o)) % s
    def __neg__(s): return SInt(z3.simplify(-s.v))
    def __pos__(s): return s
    def __abs__(s): return -s if s < 0 else s
    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._c(o, lambda a, b: a == b)
    def __ne__(s, o): return s._c(o, lambda a, b: a != b)
    def __bool__(s): return CTX.decide(s.v != 0)
    def _conc(s):
        """a real integer is needed: fork over the feasible values"""
        for _ in range(40):
            m = CTX.sat()
            if m is None: raise PathEnd()
            k = m.eval(s.v, model_completion=True)
            if CTX.decide(s.v == k): return k.as_long()
        raise Inconclusive('an integer with too many values is used as a machine integer')
    def __index__(s): return s._conc()
    def __int__(s): return s._conc()
    def __hash__(s): return hash(s._conc())
    def __repr__(s): return '<n>'
    def __format__(s, f): return '<n>'
    def __str__(s): return '<n>'
numbers.Integral.register(SInt)
class _M(type):
    def __instancecheck__(c, x): return isinstance(x, (SInt, SBool, builtins.int))
    def __subclasscheck__(c, x): return x is SInt or issubclass(x, builtins.int)
class sint(metaclass=_M):
    def __new__(c, x=0, *a):
        if isinstance(x, SInt): return x
        if isinstance(x, SBool): return SInt(num(x))
        return builtins.int(x, *a)
class _S(type):
    def __instancecheck__(c, x): return isinstance(x, (SSlice, builtins.slice)) if c is SSlice else False
class SSlice:
    """slice, with indices() on symbolic bounds"""
    def __init__(s, *a):
        s.start, s.stop, s.step = (None, a[0], None) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else None)
    def indices(s, n):
        if s.step not in (None, 1): raise Inconclusive('slice.indices with a step')
        def fix(x, d):
            if x is None: return d
            if x < 0: x = x + n; return 0 if x < 0 else x
            return n if x > n else x
        return fix(s.start, 0), fix(s.stop, n), 1
    def __eq__(s, o): return isinstance(o, SSlice) and (s.start, s.stop, s.step) == (o.start, o.stop, o.step)
    __hash__ = None
class _SM(type(SSlice)): pass
def smin(*a, **k):
    a = list(a[0]) if len(a) == 1 else list(a); r = a[0]
    for x in a[1:]: r = x if x < r else r
    return r
def smax(*a, **k):
    a = list(a[0]) if len(a) == 1 else list(a); r = a[0]
    for x in a[1:]: r = x if x > r else r
    return r
def load(repo, name, fakes, symbolic):
    """execute the real module src/python/module/z5py/<name>.py with _z5py (and numpy, if symbolic) replaced"""
    d = repo + '/src/python/module/z5py'
    for k in [k for k in sys.modules if k == 'z5py' or k.startswith('z5py.')]: del sys.modules[k]
    pkg = types.ModuleType('z5py'); pkg.__path__ = [d]; sys.modules['z5py'] = pkg
    for k, m in fakes.items():
        sys.modules['z5py.' + k] = m; setattr(pkg, k, m)
    sys.dont_write_bytecode = True
    m = importlib.import_module('z5py.' + name)
    if symbolic:
        for k, mod in list(sys.modules.items()):
            if k.startswith('z5py.') and hasattr(mod, '__file__'): mod.__dict__.update(int=sint, slice=SSlice, min=smin, max=smax)
    return m
