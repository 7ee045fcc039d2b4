"""Contract of LMDB tables and of their codecs (C07): a table is a map from
keys to values, ordered by key; encoded keys compare like the keys, encoded
values decode to the values."""

import contextlib

import z3

from vf import libs, seqs
from units.lib import *     # noqa


class Coded(Sym):
    """encoded key or value of a table"""
    __slots__ = ('what', 'v')

    def __init__(self, what, v):
        self.what, self.v = what, v

    def _subst_(self, pairs):
        return Coded(self.what, subst(self.v, pairs))

    def _same(self, o):
        return isinstance(o, Coded) and o.what == self.what and \
            self.what[0] == 'key'

    def _eq_(self, o):
        if self._same(o):
            return eq(self.v, o.v)
        raise Unsupported('comparison of encoded data')

    def __eq__(self, o):
        return self._eq_(o)

    def __ne__(self, o):
        return not_(self._eq_(o))

    def _cmp(self, op, o):
        if self._same(o):
            return cmp(op, self.v, o.v)
        raise Unsupported('comparison of encoded data')

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)

    def __bool__(self):
        return True     # no encoding is empty, except of no references

    __hash__ = Sym.__hash__


class Def:
    """contract of the codecs of a table (C07)"""

    def __init__(self, db, value_ok=None):
        self.db = db

    def encode_key(self, k):
        return Coded(('key', self.db.name), k)

    def encode_value(self, v):
        return Coded(('value', self.db.name), v)

    def _decode(self, kind, b):
        if isinstance(b, View):
            b = b.data()
        X.prove(isinstance(b, Coded) and b.what == (kind, self.db.name),
                f'decoded {kind} is of the table')
        return b.v

    def decode_key(self, b):
        return self._decode('key', b)

    def decode_value(self, b):
        return self._decode('value', b)


class View(Sym):
    """buffer of a cursor: valid until the cursor moves or changes"""
    __slots__ = ('cur', 'stamp', 'v')

    def __init__(self, cur, v):
        self.cur, self.stamp, self.v = cur, cur.moves, v

    def data(self):
        X.prove(self.stamp == self.cur.moves,
                'buffer is used before the cursor moves')
        return self.v

    def _bytes_(self):
        return self.data()

    def __bool__(self):
        return bool(self.data())


def defs(db_type):
    return {i: Def(i) for i in db_type}


def codec_bytes(x=b'', *a):
    """bytes(buffer)"""
    if isinstance(x, View):
        return x.data()
    if isinstance(x, Coded):
        return x
    return libs.vc_bytes(x, *a)


class Txn:
    """transaction: committed on leaving, dropped on exception"""

    def __init__(self, log, write):
        self.log, self.write = log, write

    def __enter__(self):
        self.log.append(('begin', self.write))
        return self

    def __exit__(self, et, ev, tb):
        self.log.append(('commit' if et is None else 'abort', self.write))
        return False


@contextlib.contextmanager
def using(x):
    yield x
