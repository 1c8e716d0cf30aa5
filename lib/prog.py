"""Programs for the type checker: syntax trees built as the parser builds them, with sub-expressions that may be unknown except for their type, checked
as a whole by the checker's own entry point (declarations registered, then every body visited)."""
import absint
import tc
from absint import Engine, State, V, is_ptr, NULL
from irlib import AnalysisError
from cg import CG


class Prog(tc.TC):
    entry = 'typechecker_check'

    def begin(self):
        """a new program under construction"""
        self.st = self.new_top()
        self.n = 0
        self.line = 1
        return self.st

    def new_top(self):
        st = tc.TC.new(self)
        self.set(st, 'func_depth', 0)
        return st

    def nm(self, p='n'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def mk(self, kind, **f):
        """a node; fields not given are zero, as the parser leaves them"""
        p = self.node(self.st, self.nm(), kind, **f)
        c = self.st.mem[p[1]]
        c['#z'] = (0, 0)
        self.line += 1
        c[self.L['off'][('AstNode', 'token.line')]] = (4, self.line)
        c[self.L['off'][('AstNode', 'token.column')]] = (4, 1)
        c[self.L['off'][('AstNode', 'token.literal')]] = (8, self.cstr(self.st, 't'))
        return p

    def list(self, items):
        return self.ptr_array(self.st, self.nm('l'), items) if items else None

    def strs(self, items):
        return self.list([self.cstr(self.st, s) for s in items])

    def records(self, tag, items):
        """array of structures, each given as field -> value"""
        if not items:
            return None
        o = 'SA:' + self.nm('r')
        self.eng.obj_kind[o] = ('heap', None)
        size = self.L['di'].sizeof(tag)
        c = {'#z': (0, 0)}
        for i, it in enumerate(items):
            for k, v in it.items():
                off, sz = self.L['off'][(tag, k)], self.L['off'].size((tag, k))
                if isinstance(v, str):
                    v = self.cstr(self.st, v)
                elif v is None:
                    v = NULL
                elif isinstance(v, bool):
                    v = int(v)
                c[i * size + off] = (sz, v)
        self.st.mem[o] = c
        self.st.own.add(o)
        return ('p', o, 0)

    # ------------------------------------------------------------ expressions
    def lab(self, s):
        return self.mk('NODE_LABEL', label__value=s)

    def expr(self, x):
        return self.lab(x) if isinstance(x, str) else x

    def mem(self, o, f):
        return self.mk('NODE_MEMBER_EXPR', member__object=self.expr(o), member__member=f)

    def idx(self, o, i):
        return self.mk('NODE_INDEX_EXPR', index_expr__left=self.expr(o), index_expr__index=i)

    def deref(self, o):
        return self.mk('NODE_POSTFIX_EXPR', postfix__left=self.expr(o), postfix__op='TOK_CARET')

    def postfix(self, o, op):
        return self.mk('NODE_POSTFIX_EXPR', postfix__left=self.expr(o), postfix__op=op)

    def prefix(self, op, o):
        return self.mk('NODE_PREFIX_EXPR', prefix__op=op, prefix__right=self.expr(o))

    def infix(self, a, op, b):
        return self.mk('NODE_INFIX_EXPR', infix__left=self.expr(a), infix__op=op, infix__right=self.expr(b))

    def int(self, v):
        return self.mk('NODE_INT_VALUE', int_value__value=v, int_value__literal=str(v))

    def text(self, s):
        return self.mk('NODE_STRING_VALUE', string_value__value=s)

    def bool(self, b):
        return self.mk('NODE_BOOL_VALUE', bool_value__value=bool(b))

    def nil(self):
        return self.mk('NODE_NIL_VALUE')

    def call(self, f, *a):
        return self.mk('NODE_CALL_EXPR', call__function=self.expr(f), call__args=self.list([self.expr(x) for x in a]), call__arg_count=len(a),
                       call__arg_names=None)

    def new_expr(self, t):
        return self.mk('NODE_NEW_EXPR', new_expr__type_name=t)

    def val(self, t):
        """some value of a type: the result of a function that returns it"""
        if t not in self.givers:
            self.givers[t] = 'give%d' % len(self.givers)
        return self.call(self.givers[t])

    # ------------------------------------------------------------ statements
    def assign(self, t, v, op='TOK_ASSIGN'):
        return self.mk('NODE_ASSIGN_STMT', assign__target=self.expr(t), assign__op=op, assign__value=self.expr(v))

    def var(self, name, typ, value, mutable=True):
        return self.mk('NODE_VAR_DECL', var_decl__name=name, var_decl__type_name=typ, var_decl__value=self.expr(value) if value is not None else None,
                       var_decl__mutable=bool(mutable))

    def exprs(self, e):
        return self.mk('NODE_EXPR_STMT', expr_stmt__expr=e)

    def block(self, *s):
        return self.mk('NODE_BLOCK_STMT', block__stmts=self.list(list(s)), block__count=len(s), block__cap=len(s))

    def ret(self, *v):
        return self.mk('NODE_RETURN_STMT', return_stmt__values=self.list([self.expr(x) for x in v]), return_stmt__count=len(v))

    def if_(self, c, a, b=None):
        return self.mk('NODE_IF_STMT', if_stmt__condition=self.expr(c), if_stmt__consequence=a, if_stmt__alternative=b)

    def for_(self, v, a, b, body):
        r = self.mk('NODE_RANGE_EXPR', range_expr__start=a, range_expr__end=b)
        return self.mk('NODE_FOR_STMT', for_stmt__var_name=v, for_stmt__iterable=r, for_stmt__body=body)

    def for_each(self, v, coll, body, index=None):
        return self.mk('NODE_FOR_EACH_STMT', for_each__index_name=index, for_each__var_name=v, for_each__collection=self.expr(coll), for_each__body=body)

    def while_(self, c, body):
        return self.mk('NODE_WHILE_STMT', while_stmt__condition=self.expr(c), while_stmt__body=body)

    def loop(self, body):
        return self.mk('NODE_LOOP_STMT', loop_stmt__body=body)

    def brk(self):
        return self.mk('NODE_BREAK_STMT')

    def cont(self):
        return self.mk('NODE_CONTINUE_STMT')

    def when(self, v, cases, default=None, strict=False):
        cs = [{'values': self.list([self.expr(x) for x in vs]), 'value_count': len(vs), 'body': b} for vs, b in cases]
        return self.mk('NODE_WHEN_STMT', when_stmt__value=self.expr(v), when_stmt__cases=self.records('WhenCase', cs), when_stmt__case_count=len(cs),
                       when_stmt__default_body=default, when_stmt__is_strict=bool(strict))

    # ------------------------------------------------------------ declarations
    def func(self, name, params, rets, body):
        """params: (name, type, mutable)"""
        ps = [{'name': p[0], 'type_name': p[1], 'mutable': bool(p[2]) if len(p) > 2 else False} for p in params]
        return self.mk('NODE_FUNC_DECL', func_decl__name=name, func_decl__params=self.records('Param', ps), func_decl__param_count=len(ps),
                       func_decl__return_types=self.strs(rets), func_decl__return_type_count=len(rets), func_decl__body=body)

    def struct(self, name, fields, funcs=()):
        fs = [{'name': f, 'type_name': t} for f, t in fields]
        return self.mk('NODE_STRUCT_DECL', struct_decl__name=name, struct_decl__fields=self.records('StructField', fs), struct_decl__field_count=len(fs),
                       struct_decl__funcs=self.records('StructFunc', [{'func_decl': f} for f in funcs]), struct_decl__func_count=len(funcs))

    def enum(self, name, values):
        return self.mk('NODE_ENUM_DECL', enum_decl__name=name, enum_decl__values=self.records('EnumVal', [{'name': v} for v in values]),
                       enum_decl__value_count=len(values))

    def imports(self, *mods):
        return self.mk('NODE_IMPORT_STMT', import_stmt__items=self.records('ImportItem', [{'alias': m, 'module': m, 'path': m, 'is_stdlib': True} for m in mods]),
                       import_stmt__count=len(mods))

    # ------------------------------------------------------------ running
    def program(self, *decls):
        return self.mk('NODE_PROGRAM', program__stmts=self.list(list(decls)), program__stmt_count=len(decls))

    def run(self, prog):
        """-> final states of the checker on the whole program"""
        self.eng.start(self.entry, [self.chk, prog], self.st)
        fs = Engine.run(self.eng, self.st)
        if not fs:
            raise AnalysisError("no path of the type checker ends on the program")
        return fs
