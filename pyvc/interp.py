"""Tree-walking symbolic executor for the Python of the repository, on its real source text."""
import ast
import os
from fractions import Fraction
import z3
from .values import *
from .ops import *
from .core import Ctx
from .builtins import BuiltinsMixin, NdArr
from .loops import LoopsMixin
from .views import ViewsMixin
from .positional import PositionalMixin, PRep, Probe


class BrkSignal(object):
    pass


BREAK, CONTINUE = ("brk",), ("cont",)
MAX_DEPTH = 60

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow",
          "|": "or", "&": "and", "^": "xor"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
CMPDUNDER = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"),
             ">=": ("__ge__", "__le__")}

_AST = {}


def parse_file(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _AST:
        with open(path) as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _AST[key] = (ast.parse(src, path), src)
    return _AST[key]


class Interp(OpsMixin, BuiltinsMixin, LoopsMixin, ViewsMixin, PositionalMixin):
    def __init__(self, root="/repo", contracts=None):
        self.root = root
        self.modules = {}
        self.ctx = None
        self.contracts = contracts or {}
        self.target = None            # contract whose body is being verified (not applied to itself at depth 0)
        self.no_contract = set()
        self.calls_depth = 0
        self.setup_builtins()

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.root, *name.split("."))
        path = base + ".py"
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            return None
        tree, src = parse_file(path)
        env = Env()
        env.slots["__name__"] = name
        mod = ModuleV(name, env)
        mod.path = path
        mod.ispkg = os.path.isdir(base)
        self.modules[name] = mod
        saved = self.ctx
        if self.ctx is None:
            from .core import Run
            self.ctx = Ctx(self, Run(), [], [])
        old = self.ctx.modname, self.ctx.func
        self.ctx.modname = name
        try:
            r = self.exec_block(tree.body, env)
        finally:
            self.ctx.modname, self.ctx.func = old
            self.ctx = saved
        env.frozen = True
        self.freeze_module(env, set())
        return mod

    def freeze_module(self, env, seen):
        for v in list(env.slots.values()):
            if isinstance(v, Mut) and id(v) not in seen:
                seen.add(id(v))
                v.frozen = "module level state"
                self.freeze_module(v, seen)
            elif isinstance(v, ClassV) and id(v) not in seen:
                seen.add(id(v))
                v.ns.frozen = "class level state"
                self.freeze_module(v.ns, seen)

    def get_func(self, qual):
        """FuncV for 'module:Class.name' or 'module:name'."""
        m, q = qual.split(":")
        mod = self.load(m)
        if mod is None:
            raise Unsupported("no module %s" % m)
        parts = q.split(".")
        v = mod.env.slots.get(parts[0])
        for p in parts[1:]:
            if not isinstance(v, ClassV):
                raise Unsupported("no %s" % qual)
            v, _ = v.lookup(p)
        if v is None:
            raise Unsupported("no %s" % qual)
        if isinstance(v, PropertyV):
            v = v.fget
        if isinstance(v, (StaticM, ClassM)):
            v = v.fn
        return v

    def get_class(self, qual):
        m, q = qual.split(":")
        mod = self.load(m)
        v = mod.env.slots.get(q) if mod else None
        if not isinstance(v, ClassV):
            raise Unsupported("no class %s" % qual)
        return v

    # ------------------------------------------------------------ environments
    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if (first or not e.isclass) and name in e.slots and not (name in e.globals_decl):
                return e.slots[name]
            first = False
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise(NameError, (name,))

    def assign_name(self, env, name, v):
        e = env
        if name in env.globals_decl:
            while e.parent is not None:
                e = e.parent
        elif name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.slots:
                e = e.parent
            if e is None:
                raise Unsupported("nonlocal")
        self.ctx.put(e, name, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            r = self.exec(s, env)
            if r is not None:
                return r
        return None

    def exec(self, s, env):
        self.ctx.node = s
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        return

    def x_Import(self, s, env):
        for a in s.names:
            top = a.name.split(".")[0]
            m = self.load(a.name if a.asname else top)
            if m is None:
                m = ExtModule(a.name if a.asname else top)
            self.assign_name(env, a.asname or top, m)

    def x_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            pkg = self.ctx.modname or self.env_module(env)
            mod = self.modules[pkg]
            parts = pkg.split(".")
            if not mod.ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        m = self.load(name)
        for a in s.names:
            if m is not None:
                if a.name == "*":
                    raise Unsupported("import *")
                v = m.env.slots.get(a.name, MISSING)
                if v is MISSING:
                    v = self.load(name + "." + a.name)
                    if v is None:
                        raise PyRaise(ImportError, (a.name,))
            else:
                v = self.ext_attr(ExtModule(name), a.name)
            self.assign_name(env, a.asname or a.name, v)

    def env_module(self, env):
        while env.parent is not None:
            env = env.parent
        return env.slots.get("__name__")

    def make_func(self, node, env, qualprefix=None):
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = {a.arg: self.eval(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)
               if d is not None}
        mod = self.env_module(env)
        name = getattr(node, "name", "<lambda>")
        q = "%s:%s" % (mod, (qualprefix + "." if qualprefix else "") + name)
        f = FuncV(node, env, q, mod, None, defaults, kwd)
        f.nested = env.parent is not None and not env.isclass
        if f.nested:
            f.qual = q + "@nested"
        f.is_gen = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        return f

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, getattr(env, "clsname", None))
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
                v = {"property": lambda x: PropertyV(x), "staticmethod": StaticM,
                     "classmethod": ClassM}[d.id](v)
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") and isinstance(d.value, ast.Name):
                old = env.slots.get(d.value.id)
                if not isinstance(old, PropertyV):
                    raise Unsupported("decorator")
                f.qual = f.qual + "@" + d.attr
                v = PropertyV(old.fget, v if d.attr == "setter" else old.fset)
            elif isinstance(d, ast.Attribute) and d.attr in ("abstractmethod", "abstractproperty"):
                f.is_abstract = True
                if d.attr == "abstractproperty":
                    v = PropertyV(v)
            elif isinstance(d, ast.Name) and d.id == "abstractmethod":
                f.is_abstract = True
            else:
                dv = self.eval(d, env)
                v = self.call(dv, [v], {})
        self.assign_name(env, s.name, v)

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        bases = [b for b in bases if not isinstance(b, ExtAttr)] or [object]
        for d in s.decorator_list:
            raise Unsupported("class decorator")
        ns = Env(parent=env, isclass=True)
        ns.clsname = s.name
        cls = ClassV(s.name, bases, ns, self.env_module(env))
        ns.slots["__name__"] = s.name
        self.exec_block(s.body, ns)
        for v in ns.slots.values():
            for f in ((v.fget, v.fset) if isinstance(v, PropertyV) else (getattr(v, "fn", v),)):
                if isinstance(f, FuncV) and f.cls is None:
                    f.cls = cls
        if "__eq__" in ns.slots and "__hash__" not in ns.slots:
            ns.slots["__hash__"] = None
        self.assign_name(env, s.name, cls)

    def x_Return(self, s, env):
        return ("ret", self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        return BREAK

    def x_Continue(self, s, env):
        return CONTINUE

    def x_Global(self, s, env):
        env.globals_decl |= set(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def x_Assert(self, s, env):
        if not self.ctx.branch(self.eval_cond(s.test, env)):
            raise PyRaise(AssertionError)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars and isinstance(v, ListV) and not isinstance(v.rep, CList):
                # unpacking a list of symbolic length
                i, n = stars[0], len(t.elts) - 1
                if not self.ctx.branch(self.num_cmp(">=", v.rep.len, n)):
                    raise PyRaise(ValueError)
                for k, x in enumerate(t.elts):
                    if k == i:
                        y = self.get_item(v, slice(i, i - n if i < n else None, None))
                        self.assign(x.value, y, env)
                    else:
                        self.assign(x, self.get_item(v, k if k < i else k - n - 1), env)
                return
            items = self.concrete_items(v, len(t.elts) if not stars else None)
            if stars:
                i = stars[0]
                n = len(items) - (len(t.elts) - 1)
                if n < 0:
                    raise PyRaise(ValueError)
                items = items[:i] + [self.new_list(items[i:i + n])] + items[i + n:]
                for x, y in zip(t.elts, items):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(items) != len(t.elts):
                raise PyRaise(ValueError, ("unpack",))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def x_AugAssign(self, s, env):
        op = BINOPS.get(type(s.op))
        if op is None:
            raise Unsupported("operator")
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            v = self.aug(op, old, self.eval(s.value, env))
            self.assign_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            v = self.aug(op, self.get_attr(o, t.attr), self.eval(s.value, env))
            self.set_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            v = self.aug(op, self.get_item(o, k), self.eval(s.value, env))
            self.set_item(o, k, v)
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, old, v):
        if isinstance(old, ListV) and op == "+":
            self.list_extend(old, v)
            return old
        if isinstance(old, SetV) and not old.is_frozenset and op in "|&-^":
            if not isinstance(v, (SetV, KeysView)):
                raise PyRaise(TypeError)
            self.ctx.setrep(old, self.set_binop(op, old.rep, self.to_set(v).rep))
            return old
        if isinstance(old, Obj):
            m, _ = old.cls.lookup("__i%s__" % DUNDER[op])
            if m is not None:
                return self.call_attr(old, "__i%s__" % DUNDER[op], [v])
        return self.binop(op, old, v)

    def x_Delete(self, s, env):
        for t in s.targets:
            for u in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(u, ast.Subscript):
                    self.del_item(self.eval(u.value, env), self.eval_index(u.slice, env))
                elif isinstance(u, ast.Name):
                    self.ctx.delslot(env, u.id)
                elif isinstance(u, ast.Attribute):
                    o = self.eval(u.value, env)
                    if not isinstance(o, Obj) or u.attr not in o.slots:
                        raise PyRaise(AttributeError, (u.attr,))
                    self.ctx.delslot(o, u.attr)
                else:
                    raise Unsupported("del")

    def x_If(self, s, env):
        if self.ctx.branch(self.eval_cond(s.test, env)):
            return self.exec_block(s.body, env)
        return self.exec_block(s.orelse, env)

    def x_Raise(self, s, env):
        if s.exc is None:
            if getattr(self, "cur_exc", None):
                raise self.cur_exc[-1]
            raise Unsupported("bare raise")
        v = self.eval(s.exc, env)
        if s.cause is not None:
            self.eval(s.cause, env)
        if isinstance(v, (ClassV, type)):
            raise PyRaise(v)
        if isinstance(v, Obj):
            raise PyRaise(v.cls, (), v)
        if isinstance(v, PyRaise):
            raise v
        raise Unsupported("raise %r" % (v,))

    def x_Try(self, s, env):
        ctx = self.ctx
        res = None
        try:
            try:
                res = self.exec_block(s.body, env)
                if res is None and s.orelse:
                    res = self.exec_block(s.orelse, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.eval(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(self.exc_matches(e.cls, x) for x in ts)
                    if ok:
                        if h.name:
                            self.assign_name(env, h.name, e)
                        self.cur_exc = getattr(self, "cur_exc", []) + [e]
                        try:
                            res = self.exec_block(h.body, env)
                        finally:
                            self.cur_exc = self.cur_exc[:-1]
                        break
                else:
                    raise
        except PyRaise:
            if s.finalbody:
                r = self.exec_block(s.finalbody, env)
                if r is not None:
                    return r
            raise
        if s.finalbody:
            r = self.exec_block(s.finalbody, env)
            if r is not None:
                return r
        return res

    def exc_matches(self, c, t):
        if isinstance(c, ClassV):
            return c.issub(t)
        if isinstance(t, ClassV) or not isinstance(t, type):
            return False
        return issubclass(c, t)

    def x_While(self, s, env):
        return self.exec_while(s, env)

    def x_For(self, s, env):
        return self.exec_for(s, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("infinite constant")
            return Fraction(repr(v))
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if v is Ellipsis:
            return None
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e, env):
        v = self.lookup(env, e.id)
        if isinstance(v, Poison):
            if getattr(v, "summary", None) is not None and v.summary.target is not None:
                self.last_value(v)
                v = self.lookup(env, e.id)
            if isinstance(v, Poison):
                raise PoisonRead(v)
        return v

    def e_Attribute(self, e, env):
        return self.get_attr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.eval_elts(e.elts, env))

    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = self.new_list([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.list_extend(r, self.eval(x.value, env))
                else:
                    self.list_append(r, self.eval(x, env))
            return r
        return self.new_list(self.eval_elts(e.elts, env))

    def e_Set(self, e, env):
        vs = self.eval_elts(e.elts, env)
        for v in vs:
            self.hashable(v)
        return self.ctx.new(SetV(self.fin_set(vs)))

    def e_Dict(self, e, env):
        d = self.ctx.new(DictV(self.empty_dict()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, env))
            else:
                self.dict_set(d, self.eval(k, env), self.eval(v, env))
        return d

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.concrete_items(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def new_list(self, items):
        return self.ctx.new(ListV(CList(items)))

    def e_UnaryOp(self, e, env):
        if isinstance(e.op, ast.Not):
            return Not(self.eval_cond(e.operand, env))
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Obj):
                return self.call_attr(v, "__neg__", [])
            if isinstance(v, NUMERIC):
                return -v
            if is_num(v):
                return -v
            if is_u(v):
                return z3.Function("u_neg", U, U)(v)
            raise PyRaise(TypeError)
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        op = BINOPS.get(type(e.op))
        if op is None:
            raise Unsupported("operator")
        return self.binop(op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise PoisonRead(x)
        if isinstance(a, Obj):
            m, _ = a.cls.lookup("__%s__" % DUNDER[op])
            if m is not None:
                r = self.call_attr(a, "__%s__" % DUNDER[op], [b])
                if r is not NotImplemented:
                    return r
        if isinstance(b, Obj):
            m, _ = b.cls.lookup("__r%s__" % DUNDER[op])
            if m is not None:
                return self.call_attr(b, "__r%s__" % DUNDER[op], [a])
            raise PyRaise(TypeError)
        if isinstance(a, Obj):
            raise PyRaise(TypeError)
        na = is_num(a) or isinstance(a, bool) or is_z3(a) and a.sort() == B
        nb = is_num(b) or isinstance(b, bool) or is_z3(b) and b.sort() == B
        if op in "|&^" and (isinstance(a, bool) or is_z3(a) and a.sort() == B) and \
                (isinstance(b, bool) or is_z3(b) and b.sort() == B):
            if op == "|":
                return Or(a, b)
            if op == "&":
                return And(a, b)
            return Not(self.eq(a, b))
        if na and nb and op not in "|&^":
            return self.num_op(op, a, b)
        if op in "^" and (is_z3(a) and a.sort() == I or isinstance(a, int)) and (is_z3(b) and b.sort() == I or isinstance(b, int)):
            self.ctx.abstract("exclusive or")
            return z3.Function("int_xor", I, I, I)(self.int_term(a), self.int_term(b))
        if isinstance(a, str) and op == "%":
            return self.percent_format(a, b)
        if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)) and op == "+":
            return self.str_concat([a, b])
        if isinstance(a, (str, OpaqueStr)) and op == "*" and isinstance(b, int) and isinstance(a, str):
            return a * b
        if isinstance(a, ListV) and isinstance(b, ListV) and op == "+":
            return self.ctx.new(ListV(self.list_concat_rep(a.rep, b.rep)))
        if isinstance(a, ListV) and op == "*" and isinstance(b, int) and isinstance(a.rep, CList):
            return self.new_list(a.rep.items * b)
        if isinstance(a, ListV) and op == "*" and is_z3(b) and b.sort() == I and isinstance(a.rep, CList) \
                and len(a.rep.items) == 1:
            return self.list_repeat(a.rep.items[0], b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, (SetV, KeysView)) and isinstance(b, (SetV, KeysView)) and op in "|&-^":
            r = SetV(self.set_binop(op, self.to_set(a).rep, self.to_set(b).rep))
            r.is_frozenset = isinstance(a, SetV) and a.is_frozenset
            return self.ctx.new(r)
        if isinstance(a, DictV) and isinstance(b, DictV) and op == "|":
            r = self.dict_copy(a)
            self.dict_update(r, b)
            return r
        if is_u(a) or is_u(b):
            if isinstance(a, (ListV, SetV, DictV, tuple)) or isinstance(b, (ListV, SetV, DictV, tuple)):
                raise Unsupported("opaque value with container")
            self.ctx.abstract("arithmetic of opaque values")
            return z3.Function("u_" + DUNDER[op], U, U, U)(self.to_u(a), self.to_u(b))
        if isinstance(a, NdArr) or isinstance(b, NdArr):
            raise Unsupported("numpy arithmetic")
        known = (str, OpaqueStr, ListV, SetV, DictV, tuple, type(None), int, Fraction, z3.ExprRef)
        if isinstance(a, known) and isinstance(b, known):
            raise PyRaise(TypeError)
        raise Unsupported("operator %s on %r, %r" % (op, a, b))

    def is_pure_bool(self, v):
        return isinstance(v, bool) or is_z3(v) and v.sort() == B

    def merged(self, cond, thunk):
        """Evaluate thunk under the assumption `cond` without forking; returns (True, value), or
        (False, None) when it cannot be done."""
        ctx = self.ctx
        if has_quant_cached(cond):
            return False, None
        mark, npc, ncr = len(ctx.trail), len(ctx.pc), len(ctx.created)
        nob = len(ctx.run.obligations)
        ctx.solver.push()
        ctx.nobranch += 1
        ok, val, facts = False, None, []
        try:
            try:
                ctx.assume(cond, "dec")
                n1 = len(ctx.pc)
                val = thunk()
                ok = True
                facts = list(zip(ctx.pc[n1:], ctx.pckind[n1:]))
            except (NeedBranch, PathEnd, PyRaise):
                ok = False
        finally:
            ctx.nobranch -= 1
            ctx.solver.pop()
            del ctx.pc[npc:]
            del ctx.pckind[npc:]
        if ok and len(ctx.trail) > mark:
            if any(t[0] is not ctx for t in ctx.trail[mark:]):
                ok = False
        if not ok or len(ctx.run.obligations) > nob:
            ctx.rollback(mark)
            del ctx.run.obligations[nob:]
            return False, None
        for f, k in facts:
            if k == "ax":
                ctx.axiom(f)
            else:
                ctx.assume(z3.Implies(zb(cond), f))
        return True, val

    def eval_cond(self, e, env):
        """Truth value of an expression, as bool or Bool term, merging `and`/`or` where possible."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = self.eval_cond(e.values[0], env)
            for i, x in enumerate(e.values[1:]):
                t = z3simp(acc)
                if t is True or t is False:
                    if t is (not isand):
                        return t
                    acc = self.eval_cond(x, env)
                    continue
                guard = acc if isand else Not(acc)
                ok, v = self.merged(guard, lambda: self.eval_cond(x, env))
                if ok:
                    acc = And(acc, v) if isand else Or(acc, v)
                else:
                    if self.ctx.branch(acc) != isand:
                        return not isand
                    acc = self.eval_cond(x, env)
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.eval_cond(e.operand, env))
        return self.truth(self.eval(e, env))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = self.eval(e.values[0], env)
        for x in e.values[1:]:
            t = self.truth(acc)
            t = z3simp(t)
            if isinstance(t, bool):
                if t is not isand:
                    return acc
                acc = self.eval(x, env)
                continue
            if self.is_pure_bool(acc):
                ok, v = self.merged(t if isand else Not(t), lambda: self.eval(x, env))
                if ok and self.is_pure_bool(v):
                    acc = And(t, v) if isand else Or(t, v)
                    continue
            if self.ctx.branch(t) is not isand:
                if self.is_pure_bool(acc):
                    return not isand
                return acc
            acc = self.eval(x, env)
        return acc

    def e_IfExp(self, e, env):
        c = z3simp(self.eval_cond(e.test, env))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, env)
        ok, a = self.merged(c, lambda: self.eval(e.body, env))
        if ok:
            ok2, b = self.merged(Not(c), lambda: self.eval(e.orelse, env))
            if ok2 and self.simple_value(a) and self.simple_value(b):
                try:
                    return self.merge(c, a, b)
                except Unsupported:
                    pass
        if self.ctx.branch(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def simple_value(self, v):
        return is_z3(v) or isinstance(v, (bool, int, Fraction)) or v is None

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        if len(e.ops) == 1:
            return self.compare(e.ops[0], left, self.eval(e.comparators[0], env))
        acc = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, env)
            acc = And(acc, self.as_bool(self.compare(op, left, right)))
            left = right
        return acc

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise PoisonRead(x)
        t = type(op)
        if t not in (ast.Is, ast.IsNot):
            self.stable_text(a)
            self.stable_text(b)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            if isinstance(a, Obj):
                m, _ = a.cls.lookup("__ne__")
                if m is not None:
                    return self.call_attr(a, "__ne__", [b])
            return Not(self.eq(a, b))
        if t is ast.Is:
            return self.identical(a, b)
        if t is ast.IsNot:
            return Not(self.identical(a, b))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return Not(self.contains(b, a))
        o = CMPOPS[t]
        if isinstance(a, Obj) or isinstance(b, Obj):
            d1, d2 = CMPDUNDER[o]
            if isinstance(a, Obj) and a.cls.lookup(d1)[0] is not None:
                return self.call_attr(a, d1, [b])
            if isinstance(b, Obj) and b.cls.lookup(d2)[0] is not None:
                return self.call_attr(b, d2, [a])
            raise PyRaise(TypeError)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if (is_num(a) or isinstance(a, bool)) and (is_num(b) or isinstance(b, bool)):
            return self.num_cmp(o, a, b)
        if isinstance(a, (SetV, KeysView)) and isinstance(b, (SetV, KeysView)):
            ra, rb = self.to_set(a).rep, self.to_set(b).rep
            if o == "<=":
                return self.subset(ra, rb)
            if o == ">=":
                return self.subset(rb, ra)
            if o == "<":
                return And(self.subset(ra, rb), Not(self.subset(rb, ra)))
            return And(self.subset(rb, ra), Not(self.subset(ra, rb)))
        if is_u(a) or is_u(b):
            return z3.Function("u_" + {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[o], U, U, B)(
                self.to_u(a), self.to_u(b))
        if a is None or b is None or isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
            raise PyRaise(TypeError)
        raise Unsupported("comparison %s of %r, %r" % (o, a, b))

    def identical(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            x, y = (b, a) if a is None or isinstance(a, bool) else (a, b)
            if isinstance(y, bool) and is_z3(x) and x.sort() == B:
                return x if y else Not(x)
            if is_u(x):
                return x == self.ctx.uconst(y) if not isinstance(y, bool) else \
                    z3.And(x == self.ctx.uconst(y), z3.Function("u_isbool", U, B)(x))
            return x is y
        if isinstance(a, (Mut, ClassV, type)) or isinstance(b, (Mut, ClassV, type)):
            if is_u(a) or is_u(b):
                return self.to_u(a) == self.to_u(b)
            if getattr(a, "frozen", False) or getattr(b, "frozen", False):
                if type(a) == type(b) and a is not b:
                    raise Unsupported("identity of stored objects")
            return a is b
        if is_u(a) and is_u(b):
            if a.eq(b):
                return True
            # identity implies equality; distinct but equal objects are possible
            same = z3.Function("u_is", U, U, B)(a, b)
            self.ctx.assume(z3.Implies(same, a == b))
            return same
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            if a == b and isinstance(a, str) != isinstance(b, str):
                return False
            if a != b:
                return False
            if isinstance(a, int) and -5 <= a <= 256:
                return True
            raise Unsupported("identity of equal constants")
        if is_num(a) and is_num(b):
            return And(self.eq(a, b), self.ctx.const("same_object", B))
        raise Unsupported("identity of %r and %r" % (a, b))

    def contains(self, c, x):
        if isinstance(c, ListV):
            if isinstance(c.rep, CList):
                return Or(*[self.eq(y, x) for y in c.rep.items])
            return c.rep.mem(x)
        if isinstance(c, tuple):
            return Or(*[self.eq(y, x) for y in c])
        if isinstance(c, SetV):
            self.hashable(x)
            return self.mem_of(c.rep, x)
        if isinstance(c, DictV):
            self.hashable(x)
            return c.rep.dom(x)
        if isinstance(c, KeysView):
            if c.what == "keys":
                return c.d.rep.dom(x)
            if c.what == "items" and isinstance(x, tuple) and len(x) == 2:
                return And(c.d.rep.dom(x[0]), self.eq(c.d.rep.val(x[0]), x[1]))
            raise Unsupported("membership in dictionary values")
        if isinstance(c, Obj):
            if c.cls.lookup("__contains__")[0] is not None:
                return self.as_bool(self.call_attr(c, "__contains__", [x]))
            raise PyRaise(TypeError)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, RangeV) and c.step == 1 and (isinstance(x, int) or is_z3(x) and x.sort() == I):
            return And(self.num_cmp("<=", c.lo, x), self.num_cmp("<", x, c.hi))
        if isinstance(c, (LazyIter, GenExp)):
            return self.contains(self.to_list(c), x)
        if is_u(c):
            return self.contains(self.opaque_container(c), x)
        raise Unsupported("membership in %r" % (c,))

    def e_Subscript(self, e, env):
        return self.get_item(self.eval(e.value, env), self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, env) for x in (s.lower, s.upper, s.step)])
        return self.eval(s, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value, env)
                if x.conversion == ord("r"):
                    v = self.py_repr(v)
                spec = self.eval(x.format_spec, env) if x.format_spec is not None else ""
                parts.append(self.format_value(v, spec))
        return self.str_concat(parts)

    def e_ListComp(self, e, env):
        return self.comprehension(e, env, "list")

    def e_SetComp(self, e, env):
        return self.comprehension(e, env, "set")

    def e_DictComp(self, e, env):
        return self.comprehension(e, env, "dict")

    def e_GeneratorExp(self, e, env):
        # the outermost iterable is evaluated at once
        first = self.eval(e.generators[0].iter, env)
        g = GenExp(e, env)
        g.first = first
        return g

    def comprehension(self, e, env, kind, first=MISSING):
        scope = Env(parent=env if not env.isclass else env.parent)
        self.ctx.new(scope)
        acc = {"list": lambda: self.new_list([]), "set": lambda: self.ctx.new(SetV(self.fin_set([]))),
               "dict": lambda: self.ctx.new(DictV(self.empty_dict()))}[kind]()

        def body(env2):
            if kind == "list":
                self.list_append(acc, self.eval(e.elt, env2))
            elif kind == "set":
                self.set_add(acc, self.eval(e.elt, env2))
            else:
                k = self.eval(e.key, env2)
                self.dict_set(acc, k, self.eval(e.value, env2))

        def level(i):
            if i == len(e.generators):
                body(scope)
                return None
            g = e.generators[i]
            if i == 0:
                it = first if first is not MISSING else self.eval(g.iter, env)
                if self.ctx.positional and kind == "list" and len(e.generators) == 1 and not g.ifs:
                    r = self.make_iter(it)
                    if getattr(r, "pos", False):
                        def value(v):
                            self.assign(g.target, v, scope)
                            return self.eval(e.elt, scope)
                        self.ctx.setrep(acc, self.pos_template(r, value))
                        return None
                    if isinstance(it, (LazyIter, GenExp)):
                        it.consumed = False
            else:
                it = self.eval(g.iter, scope)

            def step():
                for c in g.ifs:
                    if not self.ctx.branch(self.eval_cond(c, scope)):
                        return None
                return level(i + 1)
            return self.iterate(it, lambda v: self.assign(g.target, v, scope), step,
                                key=("comp", id(e), i))
        level(0)
        return acc

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        # super() needs the environment
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = env
            while f is not None and not hasattr(f, "func"):
                f = f.parent
            first = f.func.node.args.args[0].arg
            return SuperV(f.func.cls, f.slots[first])
        fn = self.eval(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                flags = iterator_flags(v)
                its = self.concrete_items(v, None, allow_sym=True)
                if its is None:
                    for x, f in flags:              # looked at, but nothing taken from it
                        if f is None:
                            raise Unsupported("starred generator function")
                        x.consumed = f
                    args.append(StarArgs(v))
                else:
                    args += its
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, DictV) or v.rep.keys is None:
                    raise Unsupported("** of a symbolic dictionary")
                for key in v.rep.keys:
                    if key in kwargs:
                        raise PyRaise(TypeError)
                    kwargs[key] = v.rep.val(key)
            else:
                if k.arg in kwargs:
                    raise PyRaise(TypeError, ("multiple values for %s" % k.arg,))
                kwargs[k.arg] = v
        self.ctx.node = e
        return self.call(fn, args, kwargs)

    def call_attr(self, o, name, args, kwargs=None):
        return self.call(self.get_attr(o, name), list(args), kwargs or {})

    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, BoundM):
            return self.call(fn.fn, [fn.self_] + args, kwargs)
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, Builtin):
            if any(isinstance(a, StarArgs) for a in args):
                return fn.fn(*[a.v if isinstance(a, StarArgs) else a for a in args], **dict(kwargs, star=True))
            return fn.fn(*args, **kwargs)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, type):
            return self.call_type(fn, args, kwargs)
        if isinstance(fn, ExtAttr):
            return self.call_ext(fn, args, kwargs)
        if isinstance(fn, Obj):
            return self.call_attr(fn, "__call__", args, kwargs)
        if isinstance(fn, StaticM):
            return self.call(fn.fn, args, kwargs)
        if isinstance(fn, OpaqueAny):
            return OpaqueAny()
        if is_u(fn):
            h = self.ctx.opaque_call
            if h is not None:
                return h(self, fn, args, kwargs)
        if callable(fn) and getattr(fn, "spec_callable", False):
            return fn(*args, **kwargs)
        raise Unsupported("call of %r" % (fn,))

    def instantiate(self, cls, args, kwargs):
        if cls.issub(BaseException):
            o = self.ctx.new(Obj(cls))
            o.exc_args = tuple(args)
            return o
        for c in cls.mro:
            if isinstance(c, ClassV):
                for n, v in c.ns.slots.items():
                    f = v.fget if isinstance(v, PropertyV) else getattr(v, "fn", v)
                    if isinstance(f, FuncV) and f.is_abstract:
                        w, _ = cls.lookup(n)
                        if w is v:
                            raise PyRaise(TypeError, ("abstract class %s" % cls.name,))
        if any(isinstance(c, type) and c is not object for c in cls.mro):
            raise Unsupported("subclass of a built-in type")
        newm, nc = cls.lookup("__new__")
        if newm is not None:
            raise Unsupported("__new__")
        o = self.ctx.new(Obj(cls))
        init, ic = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise PyRaise(TypeError)
        return o

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        star = [x for x in args if isinstance(x, StarArgs)]
        if star:
            if a.vararg and len(args) - 1 == len(names) and isinstance(args[-1], StarArgs):
                vals[a.vararg.arg] = args[-1].v
                args = args[:-1]
                vals.update(zip(names, args))
                args = []
                for k, v in kwargs.items():
                    raise Unsupported("keyword with symbolic *args")
                return vals
            raise Unsupported("symbolic *args")
        n = min(len(args), len(names))
        for k, v in zip(names, args):
            vals[k] = v
        rest = args[n:]
        if a.vararg:
            vals[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyRaise(TypeError, ("too many arguments for %s" % fn.name,))
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in vals and k in names:
                raise PyRaise(TypeError, ("multiple values for %s" % k,))
            if k in names or k in kwonly:
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(TypeError, ("unexpected keyword %s" % k,))
        if a.kwarg:
            d = self.ctx.new(DictV(self.empty_dict()))
            for k, v in extra.items():
                self.dict_set(d, k, v)
            vals[a.kwarg.arg] = d
        for name, dv in zip(reversed(names), reversed(fn.defaults)):
            vals.setdefault(name, dv)
        for name, dv in fn.kwdefaults.items():
            vals.setdefault(name, dv)
        for name in names + kwonly:
            if name not in vals:
                raise PyRaise(TypeError, ("missing argument %s" % name,))
        return vals

    def call_func(self, fn, args, kwargs):
        ctx = self.ctx
        vals = self.bind(fn, args, kwargs)
        c = self.contracts.get(fn.qual)
        if c is not None and fn.qual not in self.no_contract and not (self.target is c and ctx.body_depth == 0):
            r = c.try_apply(self, fn, vals)
            if r is not MISSING:
                return r
        ctx.run.inlined.add(fn.qual)
        if self.calls_depth > MAX_DEPTH:
            raise Unsupported("recursion without a contract (%s)" % fn.qual)
        return self.run_body(fn, vals)

    def run_body(self, fn, vals):
        ctx = self.ctx
        env = ctx.new(Env(parent=fn.env))
        env.func = fn
        env.slots.update(vals)
        if isinstance(fn.node, ast.Lambda):
            self.calls_depth += 1
            ctx.body_depth += 1
            try:
                return self.eval(fn.node.body, env)
            finally:
                self.calls_depth -= 1
                ctx.body_depth -= 1
        if fn.is_gen:
            g = LazyIter("gen", None, [])
            g.fn, g.env = fn, env
            return g
        self.calls_depth += 1
        ctx.body_depth += 1
        saved = ctx.modname
        ctx.modname = fn.module
        try:
            r = self.exec_block(fn.node.body, env)
        finally:
            self.calls_depth -= 1
            ctx.body_depth -= 1
            ctx.modname = saved
        if r is None:
            return None
        if r[0] == "ret":
            return r[1]
        raise Unsupported("loop control outside a loop")

    # ------------------------------------------------------------ attributes
    def get_attr(self, o, name):
        if isinstance(o, Poison):
            raise PoisonRead(o)
        if isinstance(o, Obj):
            v, c = o.cls.lookup(name)
            if isinstance(v, PropertyV):
                return self.call(v.fget, [o], {})
            if name in o.slots:
                r = o.slots[name]
                if isinstance(r, Poison):
                    raise PoisonRead(r)
                return r
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if c is not None:
                return self.bind_member(v, o, o.cls)
            if name == "__hash__":
                return Builtin("hash", lambda: self.py_hash(o))
            if name == "__eq__":
                return Builtin("eq", lambda x: o is x)
            ga, _ = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(ga, [o, name], {})
            if name in ("args", "message") and hasattr(o, "exc_args"):
                return tuple(o.exc_args)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, ClassV):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, StaticM):
                    return v.fn
                if isinstance(v, ClassM):
                    return BoundM(v.fn, o)
                return v
            if name == "__name__":
                return o.name
            if name == "__init__" or name == "__str__":
                return Builtin("object." + name, lambda *a, **k: None)
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, SuperV):
            s = o.self_
            cls = s.cls if isinstance(s, Obj) else s
            v, c = cls.lookup(name, after=o.cls)
            if c is None:
                if name == "__init__":
                    return Builtin("object.__init__", lambda *a, **k: None)
                if name in ("__str__", "__repr__") and isinstance(s, Obj):
                    return Builtin("object.__repr__", lambda: OpaqueStr())
                if name == "__hash__" and isinstance(s, Obj):
                    return Builtin("hash", lambda: z3.Function("u_hash", U, I)(self.ctx.obj_uconst(s)))
                raise PyRaise(AttributeError, (name,))
            if isinstance(v, PropertyV):
                return self.call(v.fget, [s], {})
            return self.bind_member(v, s, cls)
        if isinstance(o, ModuleV):
            if name in o.env.slots:
                return o.env.slots[name]
            raise PyRaise(AttributeError, (name,))
        if isinstance(o, (ExtModule, ExtAttr)):
            return self.ext_attr(o, name)
        if isinstance(o, OpaqueAny):
            return OpaqueAny()
        if is_u(o):
            h = self.ctx.opaque_attrs.get(name)
            if h is not None:
                return h(self, o)
            if name == "__name__":
                if not self.ctx.branch(z3.Function("u_named", U, B)(o)):
                    raise PyRaise(AttributeError, (name,))
                return OpaqueStr()
            raise Unsupported("attribute %s of an opaque value" % name)
        if isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return OpaqueStr()
            raise Unsupported("function attribute")
        if isinstance(o, BoundM):
            if name == "__name__":
                return o.fn.name
            if name == "__func__":
                return o.fn
            if name == "__self__":
                return o.self_
            raise Unsupported("method attribute")
        if isinstance(o, type):
            if name == "__name__":
                return o.__name__
            return self.type_attr(o, name)
        return self.builtin_attr(o, name)

    def bind_member(self, v, o, cls):
        if isinstance(v, FuncV):
            return BoundM(v, o)
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return BoundM(v.fn, cls)
        return v

    def set_attr(self, o, name, v):
        if isinstance(o, Obj):
            m, c = o.cls.lookup(name)
            if isinstance(m, PropertyV):
                if m.fset is None:
                    raise PyRaise(AttributeError, (name,))
                self.call(m.fset, [o, v], {})
                return
            if o.cls.lookup("__setattr__")[0] is not None:
                raise Unsupported("__setattr__")
            self.ctx.put(o, name, v)
            if isinstance(v, DictV):
                self.note_view(o)
            return
        if isinstance(o, (ClassV, ModuleV)):
            raise Unsupported("assignment to class or module state")
        if is_u(o):
            raise Unsupported("assignment to an attribute of an opaque value")
        raise PyRaise(AttributeError, (name,))


def iterator_flags(v):
    if isinstance(v, LazyIter) and v.kind == "gen":
        return [(v, None)]
    if not isinstance(v, (GenExp, LazyIter)):
        return []
    r = [(v, getattr(v, "consumed", False))]
    for x in (getattr(v, "srcs", None) or []) + [getattr(v, "first", None)]:
        r += iterator_flags(x)
    return r


class StarArgs(object):
    def __init__(self, v):
        self.v = v


def walk_own(node):
    """Nodes of a function body excluding nested functions."""
    stack = list(node.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def z3simp(c):
    if isinstance(c, bool):
        return c
    if has_quant_cached(c):
        return c
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return c


def has_quant_cached(c):
    from .core import has_quant
    return False if isinstance(c, bool) else has_quant(c)
