"""C06: encoding of eventer messages.

For every type of message part decode(encode(x)) == x for all x, and encode(x)
is a value of its type in the published SBS schema, which is parsed from /repo
on each run."""

import json
import pathlib

import z3

from vf import libs
from vf.unit import unit, cover
from vf.core import (X, SymVal, SymOpt, SymInt, SymBool, Unsupported, eq, not_,
                     and_, mkint, I, B)
from vf.seqs import (fresh, OptC, MList, MDict, SymTup, Seg, universal,
                     add_index, IntC, Fun)
from vf.bytesm import SymBytes
from units.lib import Item, ItemC, items, Patch, same
from vf.syms import (TsC, IdC, StrC, BytesC, JsonC, sym_int, sym_bool,
                     sym_list, sym_str)

ENC = 'common.encoder:'


def mods(m):
    return (m.load('hat.event.common.common'),
            m.load('hat.event.common.encoder'))


_schema = {}


def schema(m):
    """type definitions of the published schema, from the staged tree"""
    key = str(m.root)
    if key not in _schema:
        data = json.loads(
            (m.root / 'hat/event/common/sbs_repo.json').read_text())
        _schema[key] = {d['name']: d['type_defs'] for d in data}
    return _schema[key]


def conforms(m, tname, data, module='HatEventer', label=None, tdef=None):
    """pose: data is a value of the published SBS type"""
    label = label or f'conforms to {tname}'

    def check(t, v, path):
        name = t['name']
        args = t['args']
        if isinstance(v, Item) and v.kind.startswith('sbs:'):
            X.prove(v.kind == 'sbs:' + name, f'{label}: {path}')
            return
        where = f'{label}: {path}'
        if isinstance(v, SymOpt):
            v = v.force()
        if name == 'Integer':
            X.prove(isinstance(v, (int, SymInt)) and
                    not isinstance(v, bool), where)
        elif name == 'Boolean':
            X.prove(isinstance(v, (bool, SymBool)), where)
        elif name == 'String':
            X.prove(isinstance(v, str) or libs.vc_isinstance(v, str), where)
        elif name == 'Bytes':
            X.prove(isinstance(v, (bytes, bytearray, memoryview)) or
                    libs.vc_isinstance(v, bytes), where)
        elif name == 'None':
            X.prove(v is None, where)
        elif name == 'Array':
            if isinstance(v, (list, tuple)):
                v = MList(list(v))
            ok = isinstance(v, (MList, SymTup))
            X.prove(ok, where)
            if ok:
                for p in libs.to_parts(v):
                    if isinstance(p, list):
                        for i in p:
                            check(args[0], i, path + '[]')
                    else:
                        k = X.fresh('elem', I)
                        if not X.decide(p.dom(k)):
                            continue
                        add_index(k)
                        for gd, i in p.at(k):
                            if z3.is_true(z3.simplify(gd)) or X.decide(gd):
                                check(args[0], i, path + '[]')
        elif name in ('Choice', 'Optional'):
            entries = (t['entries'] if name == 'Choice' else
                       [{'name': 'none', 'type': {'name': 'None', 'args': [],
                                                  'entries': [],
                                                  'module': None}},
                        {'name': 'value', 'type': args[0]}])
            ok = isinstance(v, tuple) and len(v) == 2
            X.prove(ok, where)
            if ok:
                e = [i for i in entries if i['name'] == v[0]] \
                    if isinstance(v[0], str) else []
                X.prove(bool(e), where + ' alternative')
                if e:
                    check(e[0]['type'], v[1], f'{path}.{v[0]}')
        elif name == 'Record':
            ok = isinstance(v, (MDict, dict))
            X.prove(ok, where)
            if ok:
                for e in t['entries']:
                    x = v.get(e['name'], _MISSING)
                    X.prove(x is not _MISSING,
                            f'{where}.{e["name"]} present')
                    if x is not _MISSING:
                        check(e['type'], x, f'{path}.{e["name"]}')
        else:
            check(schema(m)[t.get('module') or module][name]['type'], v, path)

    check({'name': tname, 'args': [], 'entries': [], 'module': module}, data,
          tname)


_MISSING = object()


def ev_type(name='type'):
    return sym_list(StrC, name, as_tuple=True)


def payload(c):
    k = X.choose(3, 'payload')
    if k == 0:
        return None
    if k == 1:
        return c.EventPayloadBinary(sym_str('ptype'),
                                    fresh(BytesC, 'pdata'))
    return c.EventPayloadJson(fresh(JsonC, 'pjson'))


def full_event(c):
    return c.Event(id=fresh(IdC(c), 'id'), type=ev_type(),
                   timestamp=fresh(TsC(c), 'ts'),
                   source_timestamp=fresh(OptC(TsC(c)), 'sts'),
                   payload=payload(c))


def roundtrip(m, name, value, to, from_, tname, conf=True):
    d = to(value)
    if conf:
        conforms(m, tname, d)
    back = from_(d)
    X.prove(type(back) is type(value) or isinstance(value, MList),
            f'{name}: same kind of value')
    if isinstance(value, tuple) and hasattr(value, '_fields') and isinstance(
            back, tuple):
        for f in value._fields:
            X.prove(eq(getattr(back, f), getattr(value, f)),
                    f'{name}.{f} survives')
    else:
        X.prove(eq(back, value), f'{name} survives')


@unit('C06', [ENC + 'event_to_sbs', ENC + 'event_from_sbs',
              ENC + 'event_payload_to_sbs', ENC + 'event_payload_from_sbs',
              ENC + '_event_id_to_sbs', ENC + '_event_id_from_sbs',
              ENC + '_optional_to_sbs', ENC + '_optional_from_sbs'])
def event(m):
    c, e = mods(m)
    roundtrip(m, 'event', full_event(c), e.event_to_sbs, e.event_from_sbs,
              'Event')


@unit('C06', [ENC + 'register_event_to_sbs', ENC + 'register_event_from_sbs'])
def register_event(m):
    c, e = mods(m)
    v = c.RegisterEvent(type=ev_type(),
                        source_timestamp=fresh(OptC(TsC(c)), 'sts'),
                        payload=payload(c))
    roundtrip(m, 'register event', v, e.register_event_to_sbs,
              e.register_event_from_sbs, 'RegisterEvent')


def types_list(name='types'):
    """list of event types: unbounded list of unbounded tuples"""
    if X.bound is not None:
        n = X.choose(X.bound + 1, name)
        return MList([ev_type(f'{name}{i}') for i in range(n)])
    n = X.fresh('ntypes', I)
    X.assume(n >= 0)
    ln = Fun(IntC(), 'tlen', I)
    el = Fun(StrC, 'tel', I, I)
    g = z3.Const(X.name('g'), I)
    universal(g, z3.And(g >= 0, g < n), ln.terms(g)[0] >= 0)
    return MList.of([Seg(g, z3.IntVal(0), n, [(z3.BoolVal(True), SymTup(
        ln.terms(g)[0], _Get(el, g)))])])


class _Get:
    def __init__(self, el, g):
        self.el, self.g = el, g

    def __call__(self, k):
        return self.el(self.g, k)


def opt(mk):
    return None if X.choose(2, 'absent') else mk()


@unit('C06', [ENC + 'query_params_to_sbs', ENC + 'query_params_from_sbs',
              ENC + '_event_types_to_sbs', ENC + '_event_types_from_sbs'])
def query_latest(m):
    c, e = mods(m)
    v = c.QueryLatestParams(event_types=opt(types_list))
    roundtrip(m, 'latest params', v, e.query_params_to_sbs,
              e.query_params_from_sbs, 'QueryParams')


def _timeseries(m, types, conf):
    c, e = mods(m)
    ts = OptC(TsC(c))
    v = c.QueryTimeseriesParams(
        event_types=types, t_from=fresh(ts, 'tf'),
        t_to=fresh(ts, 'tt'), source_t_from=fresh(ts, 'stf'),
        source_t_to=fresh(ts, 'stt'),
        order=list(c.Order)[X.choose(len(list(c.Order)), 'order')],
        order_by=list(c.OrderBy)[X.choose(len(list(c.OrderBy)), 'oby')],
        max_results=fresh(OptC(IntC()), 'max'),
        last_event_id=fresh(OptC(IdC(c)), 'last'))
    roundtrip(m, 'timeseries params', v, e.query_params_to_sbs,
              e.query_params_from_sbs, 'QueryParams', conf)


@unit('C06', [ENC + 'query_params_to_sbs', ENC + 'query_params_from_sbs'])
def query_timeseries(m):
    _timeseries(m, None, True)


@unit('C06', [ENC + 'query_params_to_sbs', ENC + 'query_params_from_sbs'],
      bounds=(1,))
def query_timeseries_types(m):
    _timeseries(m, types_list(), False)


@unit('C06', [ENC + 'query_params_to_sbs', ENC + 'query_params_from_sbs'])
def query_server(m):
    c, e = mods(m)
    v = c.QueryServerParams(server_id=sym_int('sid'), persisted=sym_bool(),
                            max_results=fresh(OptC(IntC()), 'max'),
                            last_event_id=fresh(OptC(IdC(c)), 'last'))
    roundtrip(m, 'server params', v, e.query_params_to_sbs,
              e.query_params_from_sbs, 'QueryParams')


@unit('C06', [ENC + 'status_to_sbs', ENC + 'status_from_sbs'])
def status(m):
    c, e = mods(m)
    vs = list(c.Status)
    v = vs[X.choose(len(vs), 'status')]
    d = e.status_to_sbs(v)
    conforms(m, 'Status', d)
    X.prove(e.status_from_sbs(d) is v, 'status survives')


@unit('C06', [ENC + 'query_result_to_sbs', ENC + 'query_result_from_sbs'],
      assumes=['contract of event_to_sbs/event_from_sbs: unit event'],
      timeout=120)
def query_result(m):
    c, e = mods(m)
    if X.bound is not None:
        n = X.choose(X.bound + 1, 'events')
        evs = MList([full_event(c) for _ in range(n)])
        v = c.QueryResult(events=evs, more_follows=sym_bool('mf'))
        d = e.query_result_to_sbs(v)
        back = e.query_result_from_sbs(d)
        conforms(m, 'QueryResult', d)
        X.prove(eq(back.more_follows, v.more_follows),
                'more_follows survives')
        X.prove(eq(back.events, evs), 'events survive')
        return
    # callee contracts: event_to_sbs gives data of type Event,
    # event_from_sbs(event_to_sbs(k)) = k (both discharged by unit event)
    S = z3.Function('event.sbs', I, I)
    R = z3.Function('sbs.event', I, I)
    sb, ev = ItemC('sbs:Event', {}), ItemC('event', {})

    def to(x):
        X.prove(isinstance(x, Item) and x.kind == 'event', 'event is encoded')
        X.assume(R(S(x.t)) == x.t)
        return sb.build([S(x.t)])

    def frm(x):
        X.prove(isinstance(x, Item) and x.kind == 'sbs:Event',
                'event data is decoded')
        return ev.build([R(x.t)])
    evs = items('event', {}, 'events')
    with Patch(e, event_to_sbs=to, event_from_sbs=frm):
        v = c.QueryResult(events=evs, more_follows=sym_bool('mf'))
        d = e.query_result_to_sbs(v)
        back = e.query_result_from_sbs(d)
    X.prove(eq(back.more_follows, v.more_follows), 'more_follows survives')
    k = X.choose(2, 'goal')
    if k:
        conforms(m, 'QueryResult', d)
        return

    def body(a, b):
        X.assume(R(S(b.t)) == b.t)
        X.prove(a.t == b.t, 'event survives in its position')
    same(back.events, evs, body, 'events survive')
