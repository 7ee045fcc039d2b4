"""C17: conditions.  Contracts:

_equals(a, b)            result <=> JEq(a, b): the structural definition of
                         JSON equality (one unfolding; nested calls answered
                         by the contract);
_JsonCondition.matches   result <=> JSON payload, selected data of configured
                         type, JEq to configured value;
_All/_AnyCondition       result <=> all / any of Sat(nested);
_create_condition        class by type;
Conditions.matches       result <=> for every i: Sub_i(type) -> Sat(i).
"""

import types

import z3

from vf import libs, seqs
from vf.unit import unit, cover
from vf.core import (X, SymVal, SymInt, SymBool, SymReal, Sym, Unsupported,
                     eq, not_, and_, or_, iff, mkbool, mkint, bool_term, I, B)
from vf.seqs import (fresh, MList, MDict, MSet, SymMap, SymTup, Seg,
                     universal, add_index, IntC, Fun)
from vf.syms import (TsC, IdC, StrC, BytesC, JsonC, sym_int, sym_bool,
                     sym_list, sym_str)

MOD = 'hat.event.backends.lmdb.conditions'
F = 'backends.lmdb.conditions:'


def jeq():
    return z3.Function('JEq', I, I, B)


KINDS = ['null', 'boolean', 'int', 'float', 'string', 'array', 'object']
TYPES = {'null': {'null'}, 'boolean': {'boolean'}, 'string': {'string'},
         'number': {'int', 'float'}, 'array': {'array'},
         'object': {'object'}}


def json_value(name):
    """(kind, value): any JSON value, nested values opaque"""
    k = KINDS[X.choose(len(KINDS), name)]
    if k == 'null':
        return k, None
    if k == 'boolean':
        return k, [False, True][X.choose(2, name)]
    if k == 'int':
        return k, sym_int(name)
    if k == 'float':
        return k, SymReal(X.fresh(name, z3.RealSort()))
    if k == 'string':
        return k, sym_str(name)
    if k == 'array':
        return k, sym_list(JsonC, name)
    if X.bound is not None:
        n = X.choose(2, name)
        return k, MDict([('key', fresh(JsonC, name))][:n])
    return k, MDict(base=SymMap.fresh(StrC, JsonC, name))


def iff_forall(result, mk, body, label):
    """result <=> for all k: body(k)"""
    k = [X.fresh('k', s) for s in mk]
    if result:
        for i in k:
            add_index(i)
        X.prove(body(*k), label + ' (true)')
    else:
        g = z3.Const(X.name('g'), mk[0])
        universal(g, z3.BoolVal(True), body(g))
        X.prove(False, label + ' (false)')


def _mods(m):
    c = m.load(MOD)
    return c


@unit('C17', [F + '_equals'])
def equals(m):
    c = _mods(m)
    J = jeq()
    orig = c._equals

    def contract(a, b):
        if isinstance(a, SymVal) and isinstance(b, SymVal) and \
                a.kind == b.kind == 'Json':
            return mkbool(J(a.t, b.t))
        return orig(a, b)
    c._equals = contract
    try:
        ka, a = json_value('a')
        kb, b = json_value('b')
        r = bool(orig(a, b))
    finally:
        c._equals = orig
    cover(ka)
    if ka == kb == 'array':
        if X.bound is not None:
            want = and_(eq(libs.vc_len(a), libs.vc_len(b)),
                        *[mkbool(J(x.t, y.t))
                          for x, y in zip(a.items(), b.items())])
            X.prove(iff(r, want), 'arrays: same length and equal items')
            return
        na, nb = a.n, b.n
        if not X.decide(na == nb):
            X.prove(not r, 'arrays of different length differ')
            return
        iff_forall(r, [I], lambda k: z3.Implies(
            z3.And(k >= 0, k < na),
            J(a.fun.terms(k)[0], b.fun.terms(k)[0])),
            'arrays: equal items')
    elif ka == kb == 'object':
        if X.bound is not None:
            x, y = a.concrete() and a.log, b.log
            want = and_(len(x) == len(y), *[mkbool(J(x[0][1].t, y[0][1].t))
                                            for _ in x[:1] if y])
            X.prove(iff(r, want), 'objects: same keys and equal values')
            return
        A, Bm = a.base, b.base

        def body(k):
            return z3.And(A.dom(k) == Bm.dom(k), z3.Implies(
                A.dom(k), J(A.val(k)[0], Bm.val(k)[0])))
        iff_forall(r, [I], body, 'objects: same keys and equal values')
    elif ka == kb or {ka, kb} <= {'int', 'float'}:
        X.prove(iff(r, eq(a, b)), f'{ka}/{kb}: equal values')
    else:
        X.prove(not r, f'{ka}/{kb}: different kinds differ')


@unit('C17', [F + '_JsonCondition'],
      assumes=['hat.json.get(data, path) returns the selected data or None'])
def json_condition(m):
    c = _mods(m)
    cm = m.load('hat.event.common.common')
    J = z3.Const('Equal', B)
    orig, jorig = c._equals, c.json
    pk = X.choose(3, 'payload')
    data = fresh(JsonC, 'pdata')
    payload = [None, cm.EventPayloadBinary(sym_str('pt'),
                                           fresh(BytesC, 'b')),
               cm.EventPayloadJson(data)][pk]
    event = cm.Event(fresh(IdC(cm), 'id'), ('a',), fresh(TsC(cm), 'ts'),
                     None, payload)
    conf = {'type': 'json'}
    has_path = X.choose(2, 'path')
    path = sym_list(StrC, 'path') if has_path else []
    if has_path:
        conf['data_path'] = path
    names = [None, *TYPES]
    t = names[X.choose(len(names), 'type')]
    if t:
        conf['data_type'] = t
    has_value = X.choose(2, 'value')
    value = fresh(JsonC, 'value')
    if has_value:
        conf['data_value'] = value
    kind, selected = json_value('selected')
    calls = []

    def get(d, p, default=None):
        calls.append(d)
        X.prove(d is data and default is None, 'data of the event payload')
        if has_path:
            X.prove(p is path, 'configured path')
        else:
            X.prove(not libs.to_parts(p) or libs.to_parts(p) == [[]],
                    'whole data without path')
        return selected

    def equals(a, b):
        if a is value and b is selected or a is selected and b is value:
            return mkbool(J)
        return orig(a, b)
    c.json = types.SimpleNamespace(get=get)
    c._equals = equals
    try:
        cond = c._create_condition(MDict(conf.items()))
        r = bool(cond.matches(event))
    finally:
        c.json, c._equals = jorig, orig
    if pk != 2:
        X.prove(not r, 'condition requires JSON payload')
        return
    ok = t is None or kind in TYPES[t]
    want = z3.And(z3.BoolVal(ok), J if has_value else z3.BoolVal(True))
    X.prove(iff(r, mkbool(want)), f'type {t}, value {bool(has_value)}: '
            f'data {kind}')


class AbsCond:
    """Condition known only by its contract: matches(event) == Sat(index)"""

    def __init__(self, t, event):
        self.t, self.event = t, event

    def _subst_(self, pairs):
        return AbsCond(seqs.tsub(self.t, pairs), self.event)

    def matches(self, event):
        X.prove(event is self.event[0], 'same event')
        return mkbool(sat(self.t))


def sat(t):
    return z3.Function('Sat', I, B)(t)


def _nested(m, kind):
    c = _mods(m)
    confs = sym_list(JsonC, 'confs')
    ev = [object()]
    orig = c._create_condition
    try:
        c._create_condition = lambda conf: AbsCond(conf.t, ev)
        cond = orig(MDict([('type', kind), ('conditions', confs)]))
        r = bool(cond.matches(ev[0]))
    finally:
        c._create_condition = orig
    return confs, r


def _each(r, confs, label, neg=False):
    f = (lambda t: z3.Not(sat(t))) if neg else sat
    if X.bound is not None:
        X.prove(iff(r, and_(*[mkbool(f(i.t)) for i in confs.items()])),
                label)
        return
    iff_forall(r, [I], lambda k: z3.Implies(
        z3.And(k >= 0, k < confs.n), f(confs.fun.terms(k)[0])), label)


@unit('C17', [F + '_AllCondition', F + '_create_condition'])
def all_condition(m):
    confs, r = _nested(m, 'all')
    _each(r, confs, 'every nested condition')


@unit('C17', [F + '_AnyCondition', F + '_create_condition'])
def any_condition(m):
    confs, r = _nested(m, 'any')
    _each(not r, confs, 'at least one nested condition', neg=True)


class AbsCollection:
    """contract of event type collections (C03): get(type) yields each value
    with a subscription matching the type"""

    def __init__(self, items, event_type):
        self.items = libs.vc_list(items)
        self.et = event_type

    def get(self, event_type):
        X.prove(event_type is self.et, 'type of the event')

        def body(v):
            sub, value = v
            if sub.matches(event_type):
                libs.vc.emit(value)
        return libs.vc_list(libs.vc.comp('list', self.items, body,
                                         'collection.get'))


class AbsSub:
    """contract of subscriptions (C01): matches iff one of its query types
    matches; here one opaque predicate of the configured subscriptions"""

    def __init__(self, t):
        self.t = t

    def _subst_(self, pairs):
        return AbsSub(seqs.tsub(self.t, pairs))

    def matches(self, event_type):
        return mkbool(z3.Function('Sub', I, B)(self.t))


@unit('C17', [F + 'Conditions'],
      assumes=['C01, C03: contracts of subscriptions and event type '
               'collections'])
def conditions(m):
    c = _mods(m)
    ev = types.SimpleNamespace(type=object())
    n = X.choose(X.bound + 1, 'n') if X.bound is not None else \
        X.fresh('n', I)
    subs = z3.Function('subs', I, I)
    conds = z3.Function('conds', I, I)

    def conf_at(k):
        return MDict([('subscriptions', SubsConf(subs(k))),
                      ('condition', SymVal(conds(k), 'Json'))])
    if X.bound is not None:
        confs = MList([conf_at(z3.IntVal(i)) for i in range(n)])
    else:
        X.assume(n >= 0)
        g = z3.Const(X.name('g'), I)
        confs = MList.of([Seg(g, z3.IntVal(0), n,
                              [(z3.BoolVal(True), ConfAt(g, conf_at))])])
    saved = c._create_condition, c.common
    c._create_condition = lambda conf: AbsCond(conf.t, [ev])

    def create_subscription(qts):
        ps = libs.to_parts(qts)
        X.prove(len(ps) == 1 and ps[0] is not None, 'one source')
        owner = _owner(ps)
        return AbsSub(owner)
    c.common = _Over(saved[1], create_subscription=create_subscription,
                     create_event_type_collection=lambda items:
                     AbsCollection(items, ev.type))
    try:
        r = bool(c.Conditions(confs).matches(ev))
    finally:
        c._create_condition, c.common = saved
    S = z3.Function('Sub', I, B)
    if X.bound is not None:
        X.prove(iff(r, mkbool(z3.And([z3.Implies(
            S(subs(z3.IntVal(i))), sat(conds(z3.IntVal(i))))
            for i in range(n)]))), 'every matching condition accepts')
        return
    iff_forall(r, [I], lambda k: z3.Implies(
        z3.And(k >= 0, k < n, S(subs(k))), sat(conds(k))),
        'every matching condition accepts')


class _Over:
    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, n):
        return getattr(self._base, n)


class SubsConf:
    """configured 'subscriptions' list, identified by an integer; iterating
    it gives its query types"""

    def __init__(self, t):
        self.t = t

    def _subst_(self, pairs):
        return SubsConf(seqs.tsub(self.t, pairs))

    def _parts_(self):
        n = z3.Function('nsubs', I, I)(self.t)
        if X.bound is not None:
            return [[QTypeConf(self.t, z3.IntVal(0))]]
        X.assume(n >= 1)
        g = z3.Const(X.name('g'), I)
        return [Seg(g, z3.IntVal(0), n, [(z3.BoolVal(True),
                                          QTypeConf(self.t, g))])]


class QTypeConf(Sym):
    __slots__ = ('t', 'k')

    def __init__(self, t, k):
        self.t, self.k = t, k

    def _subst_(self, pairs):
        return QTypeConf(seqs.tsub(self.t, pairs), seqs.tsub(self.k, pairs))

    def _parts_(self):
        return [[self]]


def _owner(parts):
    """parts hold exactly every query type of one SubsConf"""
    p = parts[0]
    items = p if isinstance(p, list) else [v for _, v in p.emits]
    X.prove(len(items) == 1, 'every configured subscription')
    q = items[0]
    if isinstance(q, tuple):
        q, = q
    if not isinstance(q, QTypeConf):
        raise Unsupported('subscription of other data')
    return q.t


class ConfAt:
    """element k of the configuration list"""

    def __init__(self, k, f):
        self.k, self.f = k, f

    def _subst_(self, pairs):
        return ConfAt(seqs.tsub(self.k, pairs), self.f)

    def __getitem__(self, n):
        return self.f(self.k)[n]

    def get(self, n, d=None):
        return self.f(self.k).get(n, d)
