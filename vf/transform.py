"""Mechanical extraction: AST transformation of the real hat.event sources.

The transformation keeps every statement and expression of the source; it only
re-routes operations whose native CPython meaning is unavailable for symbolic
values through the engine object `_vc_`:

  for / while / comprehensions  -> _vc_.loop / _vc_.comp (body as closure)
  generator functions           -> eager collection of the yielded values
  async def / await             -> plain call / _vc_.await_
  comparisons, `in`, `not`      -> _vc_.cmp / _vc_.not_
  list/dict/set displays        -> engine containers
  attribute assignment          -> _vc_.setattr (journaled)
  finally / except BaseException-> guarded against engine control exceptions
  annotations                   -> dropped

What this drops: laziness of generators, real concurrency (await points are
sequential; interference is added by the contracts), annotations.
"""

import ast

VC = '_vc_'

_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
        ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
        ast.In: 'in', ast.NotIn: 'not in'}

_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
        ast.FloorDiv: '//', ast.Mod: '%', ast.BitOr: '|', ast.BitAnd: '&',
        ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**', ast.BitXor: '^'}


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _const(v):
    return ast.Constant(value=v)


def _vc(attr, *args):
    return ast.Call(func=ast.Attribute(value=_name(VC), attr=attr,
                                       ctx=ast.Load()),
                    args=list(args), keywords=[])


def _lambda(body):
    return ast.Lambda(args=_args([]), body=body)


def _args(names, defaults=()):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=i) for i in names],
                         vararg=None, kwonlyargs=[], kw_defaults=[],
                         kwarg=None, defaults=list(defaults))


class _Scope(ast.NodeVisitor):
    """Names bound in a function scope (not entering nested scopes)"""

    def __init__(self):
        self.bound = set()
        self.outer = set()

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.bound.add(node.id)

    def visit_FunctionDef(self, node):
        self.bound.add(node.name)
        for d in node.decorator_list + node.args.defaults:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.bound.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_ExceptHandler(self, node):
        if node.name:
            self.bound.add(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.bound.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_Global(self, node):
        self.outer.update(node.names)

    visit_Nonlocal = visit_Global

    def _comp(self, node):
        # walrus targets leak, comprehension targets do not
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr):
                self.bound.add(n.target.id)
        for g in node.generators[:1]:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = \
        _comp


def _bound(stmts):
    s = _Scope()
    for i in stmts:
        s.visit(i)
    return s.bound - s.outer


def _own_nodes(stmts):
    """All nodes of the statements, not entering nested function scopes"""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            todo.append(n.generators[0].iter)
            continue
        todo.extend(ast.iter_child_nodes(n))


class Transformer(ast.NodeTransformer):

    def __init__(self, modname):
        self.modname = modname
        self.counter = 0
        self.func = []      # stack: dict(gen=bool, locals=set, name=str)
        self.loop = []      # stack per function: 'native' | 'closure'
        self.cls = []

    def fresh(self, p):
        self.counter += 1
        return f'_v{p}{self.counter}_'

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    # ---- functions

    def _fn(self, node):
        nodes = list(_own_nodes(node.body))
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in nodes)
        # generators used as context managers stay generators
        native = gen and any(
            getattr(d, 'attr', getattr(d, 'id', '')) in (
                'contextmanager', 'asynccontextmanager')
            for d in node.decorator_list)
        gen = gen and not native
        a = node.args
        params = {i.arg for i in a.posonlyargs + a.args + a.kwonlyargs}
        for i in (a.vararg, a.kwarg):
            if i:
                params.add(i.arg)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d else None for d in a.kw_defaults]
        for i in a.posonlyargs + a.args + a.kwonlyargs + [
                x for x in (a.vararg, a.kwarg) if x]:
            i.annotation = None
        node.returns = None

        self.func.append({'gen': self.fresh('y') if gen else None,
                          'native': native, 'name': node.name, 'loops': 0,
                          'qual': '.'.join([*self.cls, *(
                              f['name'] for f in self.func), node.name])})
        saved, self.loop = self.loop, []
        body = self.block(node.body)
        self.loop = saved
        f = self.func.pop()
        if a.vararg:
            body.insert(0, ast.Assign(
                targets=[_name(a.vararg.arg, ast.Store())],
                value=_vc('varargs', _name(a.vararg.arg))))
        if gen:
            y = f['gen']
            body = [ast.Assign(targets=[_name(y, ast.Store())],
                               value=_vc('genlist')),
                    *body, ast.Return(value=_name(y))]
        new = ast.FunctionDef(name=node.name, args=a, body=body,
                              decorator_list=node.decorator_list,
                              returns=None, type_params=[])
        if isinstance(node, ast.AsyncFunctionDef) and not native:
            new.decorator_list = [*new.decorator_list,
                                  ast.Attribute(value=_name(VC), attr='async_',
                                                ctx=ast.Load())]
        return new

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.func.append({'gen': None, 'name': '<lambda>', 'loops': 0,
                          'qual': '.'.join([*self.cls, *(
                              f['name'] for f in self.func), '<lambda>'])})
        saved, self.loop = self.loop, []
        saved_p, self.pending = self.pending, []
        node.body = self.visit(node.body)
        pend, self.pending = self.pending, saved_p
        self.loop = saved
        self.func.pop()
        if pend:
            fn = self.fresh('lam')
            self.pending.append(ast.FunctionDef(
                name=fn, args=node.args,
                body=[*pend, ast.Return(value=node.body)],
                decorator_list=[], returns=None, type_params=[]))
            return _name(fn)
        return node

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        saved_f, self.func = self.func, []
        body = []
        for s in node.body:
            if isinstance(s, ast.AnnAssign):
                s.annotation = _name('object')
                if s.value:
                    s.value = self.visit(s.value)
                body.append(s)
            else:
                r = self.visit(s)
                body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.func = saved_f
        self.cls.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        if 'TypeAlias' in ast.dump(node.annotation):
            return ast.Assign(targets=[node.target], value=_vc('alias'))
        return self.visit(ast.copy_location(
            ast.Assign(targets=[node.target], value=node.value), node))

    # ---- generators, async

    def visit_Yield(self, node):
        y = self.func[-1]['gen']
        v = self.visit(node.value) if node.value else _const(None)
        if self.func[-1].get('native'):
            if 'closure' in self.loop:
                return _vc('no_yield')
            return ast.Yield(value=v)
        return _vc('yield_', _name(y), v)

    def visit_YieldFrom(self, node):
        y = self.func[-1]['gen']
        if y is None:
            return _vc('no_yield')
        return _vc('yield_from', _name(y), self.visit(node.value))

    def visit_Await(self, node):
        return _vc('await_', self.visit(node.value))

    def visit_AsyncWith(self, node):
        return self.visit(ast.copy_location(
            ast.With(items=node.items, body=node.body), node))

    # ---- return / break / continue

    def visit_Return(self, node):
        v = self.visit(node.value) if node.value else _const(None)
        gen = self.func[-1]['gen'] if self.func else None
        if gen:
            v = _name(gen)
        if 'closure' in self.loop:
            # inside (at least one) loop closure
            return ast.Return(value=ast.Tuple(
                elts=[_const('return'), v], ctx=ast.Load()))
        return ast.Return(value=v)

    def visit_Break(self, node):
        return ast.Return(value=ast.Tuple(elts=[_const('break'),
                                                _const(None)],
                                          ctx=ast.Load()))

    def visit_Continue(self, node):
        return ast.Return(value=_const(None))

    # ---- loops

    def _site(self, node):
        if self.func:
            f = self.func[-1]
            f['loops'] += 1
            return f"{self.modname}:{f['qual']}#{f['loops']}"
        return f'{self.modname}:<module>#{node.lineno}'

    def _loop(self, node, iter_expr, target, body, orelse, test=None):
        site = self._site(node)
        names = _bound([*body, *([ast.Assign(targets=[target],
                                             value=_const(0))]
                                 if target is not None else [])])
        infunc = bool(self.func)
        names = sorted(n for n in names if not n.startswith('_v'))
        fn, item, res = (self.fresh('body'), self.fresh('it'),
                         self.fresh('res'))

        outer_closure = 'closure' in self.loop
        self.loop.append('closure')
        inner = []
        if target is not None:
            inner.extend(self._assign([target], _name(item)))
        if test is not None:
            inner.append(ast.If(
                test=_vc('not_', self.visit(test)),
                body=[ast.Return(value=ast.Tuple(
                    elts=[_const('stop'), _const(None)], ctx=ast.Load()))],
                orelse=[]))
        inner.extend(self.block(body))
        self.loop.pop()

        decl = []
        if names:
            decl = [ast.Nonlocal(names=list(names)) if infunc
                    else ast.Global(names=list(names))]
        out = []
        if names and infunc:
            # make sure names are bound in the enclosing function
            out.append(ast.If(test=_const(False), body=[
                ast.Assign(targets=[_name(n, ast.Store())],
                           value=_const(None)) for n in names], orelse=[]))
        out.append(ast.FunctionDef(
            name=fn, args=_args([item]), body=[*decl, *inner],
            decorator_list=[], returns=None, type_params=[]))
        get, set_, val = (self.fresh('get'), self.fresh('set'),
                          self.fresh('v'))
        nm = self.fresh('n')
        # getter / setter of the loop's local variables by name
        gbody, sbody = [], list(decl)
        if names and infunc:
            gbody = [ast.Nonlocal(names=list(names))]
        for n in names:
            gbody.append(ast.If(
                test=ast.Compare(left=_name(nm), ops=[ast.Eq()],
                                 comparators=[_const(n)]),
                body=[ast.Return(value=_name(n))], orelse=[]))
            sbody.append(ast.If(
                test=ast.Compare(left=_name(nm), ops=[ast.Eq()],
                                 comparators=[_const(n)]),
                body=[ast.Assign(targets=[_name(n, ast.Store())],
                                 value=_name(val))], orelse=[]))
        out.append(ast.FunctionDef(name=get, args=_args([nm]),
                                   body=gbody or [ast.Pass()],
                                   decorator_list=[], returns=None,
                                   type_params=[]))
        out.append(ast.FunctionDef(name=set_, args=_args([nm, val]),
                                   body=sbody or [ast.Pass()],
                                   decorator_list=[], returns=None,
                                   type_params=[]))
        out.append(ast.Assign(
            targets=[_name(res, ast.Store())],
            value=_vc('loop', iter_expr or _const(None), _name(fn),
                      _name(get), _name(set_),
                      ast.Tuple(elts=[_const(n) for n in names],
                                ctx=ast.Load()),
                      _const(site), _const(test is not None))))
        # dispatch result
        is_ret = ast.BoolOp(op=ast.And(), values=[
            _name(res),
            ast.Compare(left=ast.Subscript(value=_name(res),
                                           slice=_const(0), ctx=ast.Load()),
                        ops=[ast.Eq()], comparators=[_const('return')])])
        if infunc:
            retv = (_name(res) if outer_closure else
                    ast.Subscript(value=_name(res), slice=_const(1),
                                  ctx=ast.Load()))
            out.append(ast.If(test=is_ret, body=[ast.Return(value=retv)],
                              orelse=[]))
        if orelse:
            out.append(ast.If(
                test=ast.UnaryOp(op=ast.Not(), operand=_name(res)),
                body=self.block(orelse), orelse=[]))
        return out

    def visit_For(self, node):
        return self._loop(node, self.visit(node.iter), node.target, node.body,
                          node.orelse)

    visit_AsyncFor = visit_For

    def visit_While(self, node):
        return self._loop(node, None, None, node.body, node.orelse, node.test)

    # ---- comprehensions

    def _comp(self, node, kind):
        site = self._site(node)
        first = self.visit(node.generators[0].iter)

        def build(i):
            g = node.generators[i]
            item = self.fresh('c')
            saved_p, self.pending = self.pending, []
            inner = self._assign([g.target], _name(item))
            self.loop.append('closure')
            tests = [ast.If(test=_vc('not_', self.visit(t)),
                            body=[ast.Return(value=_const(None))], orelse=[])
                     for t in g.ifs]
            if i + 1 < len(node.generators):
                nxt = node.generators[i + 1]
                it = self.visit(nxt.iter)
                fdef, fname = build(i + 1)
                rest = [fdef, ast.Return(value=_vc(
                    'comp_inner', it, _name(fname), _const(site)))]
            else:
                if kind == 'dict':
                    v = ast.Tuple(elts=[self.visit(node.key),
                                        self.visit(node.value)],
                                  ctx=ast.Load())
                else:
                    v = self.visit(node.elt)
                rest = [ast.Expr(value=_vc('emit', v)),
                        ast.Return(value=_const(None))]
            self.loop.pop()
            fn = self.fresh('comp')
            pend, self.pending = self.pending, saved_p
            return ast.FunctionDef(name=fn, args=_args([item]),
                                   body=[*inner, *pend, *tests, *rest],
                                   decorator_list=[], returns=None,
                                   type_params=[]), fn

        saved, self.loop = self.loop, []
        fdef, fname = build(0)
        self.loop = saved
        self.pending.append(fdef)
        return _vc('comp', _const(kind), first, _name(fname), _const(site))

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_SetComp(self, node):
        return self._comp(node, 'set')

    def visit_DictComp(self, node):
        return self._comp(node, 'dict')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    # ---- assignment

    def _assign(self, targets, value):
        """Assignment statements for already transformed value"""
        out = []
        if len(targets) == 1 and isinstance(targets[0], ast.Name):
            return [ast.Assign(targets=targets, value=value)]
        tmp = self.fresh('t')
        out.append(ast.Assign(targets=[_name(tmp, ast.Store())], value=value))
        for t in targets:
            out.extend(self._assign1(t, _name(tmp)))
        return out

    def _assign1(self, t, value):
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[t], value=value)]
        if isinstance(t, ast.Attribute):
            return [ast.Expr(value=_vc('setattr', self.visit(t.value),
                                       _const(t.attr), value))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(value=_vc('setitem', self.visit(t.value),
                                       self.visit(t.slice), value))]
        if isinstance(t, (ast.Tuple, ast.List)):
            tmp = self.fresh('u')
            star = next((i for i, e in enumerate(t.elts)
                         if isinstance(e, ast.Starred)), -1)
            out = [ast.Assign(targets=[_name(tmp, ast.Store())],
                              value=_vc('unpack', value, _const(len(t.elts)),
                                        _const(star)))]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                out.extend(self._assign1(e, ast.Subscript(
                    value=_name(tmp), slice=_const(i), ctx=ast.Load())))
            return out
        raise NotImplementedError(ast.dump(t))

    def visit_Assign(self, node):
        value = self.visit(node.value)
        return self._assign(node.targets, value)

    def visit_AugAssign(self, node):
        op = _const(_OPS[type(node.op)])
        v = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Name):
            return ast.Assign(targets=[_name(t.id, ast.Store())],
                              value=_vc('aug', op, _name(t.id), v))
        obj = self.fresh('o')
        out = [ast.Assign(targets=[_name(obj, ast.Store())],
                          value=self.visit(t.value))]
        if isinstance(t, ast.Attribute):
            cur = ast.Attribute(value=_name(obj), attr=t.attr,
                                ctx=ast.Load())
            out.append(ast.Expr(value=_vc('setattr', _name(obj),
                                          _const(t.attr),
                                          _vc('aug', op, cur, v))))
        else:
            k = self.fresh('k')
            out.append(ast.Assign(targets=[_name(k, ast.Store())],
                                  value=self.visit(t.slice)))
            cur = ast.Subscript(value=_name(obj), slice=_name(k),
                                ctx=ast.Load())
            out.append(ast.Expr(value=_vc('setitem', _name(obj), _name(k),
                                          _vc('aug', op, cur, v))))
        return out

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(value=_vc('delitem', self.visit(t.value),
                                              self.visit(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    # ---- with

    def visit_With(self, node):
        pre = []
        items = []
        for it in node.items:
            ce = self.visit(it.context_expr)
            if it.optional_vars is None or isinstance(it.optional_vars,
                                                      ast.Name):
                items.append(ast.withitem(context_expr=ce,
                                          optional_vars=it.optional_vars))
            else:
                tmp = self.fresh('w')
                items.append(ast.withitem(context_expr=ce,
                                          optional_vars=_name(tmp,
                                                              ast.Store())))
                pre.extend(self._assign1(it.optional_vars, _name(tmp)))
        return ast.With(items=items, body=[*pre, *self.block(node.body)])

    # ---- try

    def visit_Try(self, node):
        handlers = []
        for h in node.handlers:
            body = self.block(h.body)
            t = self.visit(h.type) if h.type else None
            body = [ast.Expr(value=_vc('guard')), *body]
            handlers.append(ast.ExceptHandler(type=t, name=h.name, body=body))
        final = []
        if node.finalbody:
            final = [ast.If(test=ast.UnaryOp(op=ast.Not(),
                                             operand=_vc('aborting')),
                            body=self.block(node.finalbody), orelse=[])]
        return ast.Try(body=self.block(node.body), handlers=handlers,
                       orelse=self.block(node.orelse) if node.orelse else [],
                       finalbody=final)

    # ---- expressions

    def visit_Compare(self, node):
        left = self.visit(node.left)
        comps = [self.visit(c) for c in node.comparators]
        ops = [_const(_CMP[type(o)]) for o in node.ops]
        if len(ops) == 1:
            return _vc('cmp', ops[0], left, comps[0])
        # a op b op c: middle operands evaluated once, short circuit
        return _vc('chain', ast.Tuple(elts=ops, ctx=ast.Load()), left,
                   *[_lambda(c) for c in comps])

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return _vc('not_', node.operand)
        return node

    def visit_BoolOp(self, node):
        # native short circuit semantics; operands forked by bool()
        node.values = [self.visit(v) for v in node.values]
        return node

    def visit_List(self, node):
        if not isinstance(node.ctx, ast.Load):
            return node
        return self._display('mklist', node.elts)

    def visit_Set(self, node):
        return self._display('mkset', node.elts)

    def visit_Tuple(self, node):
        if isinstance(node.ctx, ast.Load) and any(
                isinstance(e, ast.Starred) for e in node.elts):
            return self._display('mktuple', node.elts)
        node.elts = [self.visit(e) for e in node.elts]
        return node

    def _display(self, fn, elts):
        parts = []
        for e in elts:
            if isinstance(e, ast.Starred):
                parts.append(ast.Tuple(elts=[_const(True),
                                             self.visit(e.value)],
                                       ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[_const(False), self.visit(e)],
                                       ctx=ast.Load()))
        return _vc(fn, *parts)

    def visit_Dict(self, node):
        parts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                parts.append(ast.Tuple(elts=[_const(True), self.visit(v),
                                             _const(None)], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[_const(False), self.visit(k),
                                             self.visit(v)], ctx=ast.Load()))
        return _vc('mkdict', *parts)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                x = self.visit(v.value)
                if v.conversion != -1 or v.format_spec is not None:
                    x = _vc('fmt', x, _const(v.conversion),
                            self.visit(v.format_spec) if v.format_spec
                            else _const(''))
                parts.append(x)
            else:
                parts.append(v)
        return _vc('fstr', *parts)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'super':
            return self.generic_visit(node)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.append(ast.Starred(value=_vc('star', self.visit(a.value)),
                                        ctx=ast.Load()))
            else:
                args.append(self.visit(a))
        kws = []
        for k in node.keywords:
            v = self.visit(k.value)
            if k.arg is None:
                v = _vc('kwstar', v)
            kws.append(ast.keyword(arg=k.arg, value=v))
        return ast.Call(func=self.visit(node.func), args=args, keywords=kws)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return _vc('bin', _const(_OPS[type(node.op)]), node.left, node.right)

    def visit_Slice(self, node):
        return _vc('slice', *[self.visit(i) if i else _const(None)
                              for i in (node.lower, node.upper, node.step)])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _vc('getitem', node.value, node.slice)
        return node

    # ---- hoisting of comprehension functions

    pending = ()

    def visit(self, node):
        if isinstance(node, ast.stmt):
            saved, self.pending = self.pending, []
            r = super().visit(node)
            pend, self.pending = self.pending, saved
            if pend:
                r = [*pend, *(r if isinstance(r, list) else [r])]
            return r
        return super().visit(node)


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    t = Transformer(modname)
    # module docstring and __future__ stay first
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    return tree
