"""Model of bytes: concatenation of chunks of known width / opaque chunks."""

import struct as _struct

import z3

from .core import (X, Unsupported, Sym, SymBool, SymInt, SymReal, SymVal,
                   SymOpt, I, int_term, mkbool, mkint, bool_term, not_, eq)
from . import seqs


class U:
    """n bytes, big endian unsigned value t (0 <= t < 256^n)"""
    __slots__ = ('n', 't')

    def __init__(self, n, t):
        self.n, self.t = n, t

    def len(self):
        return z3.IntVal(self.n)


class Raw:
    """Opaque bytes `t` (code of kind 'Bytes'), length blen(t) >= 0"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def len(self):
        n = _blen(self.t)
        X.assume(n >= 0)
        return n


class Enc:
    """Opaque encoding of a value by an assumed injective library codec"""
    __slots__ = ('codec', 'value')

    def __init__(self, codec, value):
        self.codec, self.value = codec, value

    def len(self):
        raise Unsupported(f'length of {self.codec} encoding')


class RecSeq:
    """Concatenation of records rec(k) for k in [lo, hi); rec returns
    SymBytes of known width"""
    __slots__ = ('rec', 'lo', 'hi')

    def __init__(self, rec, lo, hi):
        self.rec, self.lo, self.hi = rec, lo, hi

    def len(self):
        n = X.fresh('reclen', I)
        X.assume(n >= 0)
        X.assume(z3.Implies(self.lo < self.hi, n > 0))
        X.assume(z3.Implies(self.lo >= self.hi, n == 0))
        return n


_blen = z3.Function('blen', I, I)


class ByteRun(Sym):
    """Pseudo item produced by iterating over symbolic bytes"""
    __slots__ = ('chunk',)

    def __init__(self, chunk):
        self.chunk = chunk

    def _subst_(self, pairs):
        return ByteRun(SymBytes([self.chunk])._subst_(pairs).chunks[0])


def chunks_of(x):
    if isinstance(x, SymOpt):
        x = x.force()
    if isinstance(x, SymBytes):
        return list(x.chunks)
    if isinstance(x, (bytes, bytearray, memoryview)):
        x = bytes(x)
        return [U(len(x), z3.IntVal(int.from_bytes(x, 'big')))] if x else []
    if isinstance(x, SymVal) and x.kind == 'Bytes':
        return [Raw(x.t)]
    return None


class SymBytes(Sym):
    __slots__ = ('chunks', 'pytype')

    def __init__(self, chunks, pytype=bytes):
        self.chunks = [c for c in chunks
                       if not (isinstance(c, U) and c.n == 0)]
        self.pytype = pytype

    def width(self):
        """total width or None"""
        n = 0
        for c in self.chunks:
            if not isinstance(c, U):
                return None
            n += c.n
        return n

    def _len(self):
        w = self.width()
        if w is not None:
            return w
        t = z3.IntVal(0)
        for c in self.chunks:
            t = t + c.len()
        return mkint(t)

    def __len__(self):
        n = self._len()
        if isinstance(n, int):
            return n
        raise Unsupported('native len of symbolic bytes')

    def __bool__(self):
        for c in self.chunks:
            if isinstance(c, U):
                return True
        for c in self.chunks:
            if isinstance(c, RecSeq):
                if X.decide(c.lo < c.hi):
                    return True
            elif isinstance(c, Enc):
                raise Unsupported('truth of encoding')
            elif X.decide(c.len() > 0):
                return True
        return False

    def _parts_(self):
        return [[ByteRun(c) for c in self.chunks]]

    def __iter__(self):
        return iter([ByteRun(c) for c in self.chunks])

    def __add__(self, o):
        c = chunks_of(o)
        if c is None:
            return NotImplemented
        return SymBytes([*self.chunks, *c])

    def __radd__(self, o):
        c = chunks_of(o)
        if c is None:
            return NotImplemented
        return SymBytes([*c, *self.chunks])

    def _expand(self):
        """expand leading record sequence (must be nonempty)"""
        if self.chunks and isinstance(self.chunks[0], RecSeq):
            c = self.chunks[0]
            if not X.decide(c.lo < c.hi):
                return SymBytes(self.chunks[1:])._expand()
            seqs.add_index(c.lo)
            head = c.rec(c.lo)
            return SymBytes([*head.chunks,
                             RecSeq(c.rec, z3.simplify(c.lo + 1), c.hi),
                             *self.chunks[1:]])
        return self

    def split(self, n):
        """(first n bytes, rest)"""
        out = []
        rest = list(self._expand().chunks) if n else list(self.chunks)
        while n > 0:
            if rest and isinstance(rest[0], RecSeq):
                rest = list(SymBytes(rest)._expand().chunks)
            if not rest:
                break
            c = rest.pop(0)
            if not isinstance(c, U):
                raise Unsupported('slice inside opaque bytes')
            if c.n <= n:
                out.append(c)
                n -= c.n
            else:
                d = 256 ** (c.n - n)
                out.append(U(n, z3.simplify(c.t / d)))
                rest.insert(0, U(c.n - n, z3.simplify(c.t % d)))
                n = 0
        return SymBytes(out), SymBytes(rest)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('bytes step')
            a = self
            lo, hi = i.start or 0, i.stop
            if isinstance(lo, SymOpt):
                lo = lo.force() or 0
            w = self.width()
            if isinstance(lo, SymInt) or isinstance(hi, SymInt):
                raise Unsupported('symbolic bytes slice')
            if lo < 0 or (hi is not None and hi < 0):
                if w is None:
                    raise Unsupported('negative bytes slice')
                lo = max(0, lo + w) if lo < 0 else lo
                hi = max(0, hi + w) if hi is not None and hi < 0 else hi
            if lo:
                a = self.split(lo)[1]
            if hi is not None:
                a = a.split(max(0, hi - lo))[0]
            return a
        if i < 0:
            w = self.width()
            if w is None:
                raise Unsupported('negative bytes index')
            i += w
            if i < 0:
                raise IndexError('index out of range')
        h = self.split(i)[1].split(1)[0]
        if not h.chunks:
            raise IndexError('index out of range')
        return mkint(h.chunks[0].t)

    def _norm(self, o):
        """aligned chunk pairs with o, or None when lengths differ"""
        a, b = list(self.chunks), list(o.chunks)
        out = []
        while a and b:
            x, y = a.pop(0), b.pop(0)
            if isinstance(x, U) and isinstance(y, U):
                if x.n > y.n:
                    d = 256 ** (x.n - y.n)
                    a.insert(0, U(x.n - y.n, x.t % d))
                    x = U(y.n, x.t / d)
                elif y.n > x.n:
                    d = 256 ** (y.n - x.n)
                    b.insert(0, U(y.n - x.n, y.t % d))
                    y = U(x.n, y.t / d)
                out.append((x, y))
            elif type(x) is type(y) and not isinstance(x, RecSeq):
                if a and b and not isinstance(x, U):
                    # opaque chunk followed by more data
                    pass
                out.append((x, y))
            else:
                raise Unsupported('comparison of differently built bytes')
        if a or b:
            for c in [*a, *b]:
                if not isinstance(c, U):
                    raise Unsupported('comparison of bytes of open length')
            return None
        return out

    def __eq__(self, o):
        c = chunks_of(o)
        if c is None:
            return False
        if isinstance(o, SymVal) and len(self.chunks) == 1 and isinstance(
                self.chunks[0], Raw):
            return mkbool(self.chunks[0].t == o.t)
        ps = self._norm(SymBytes(c))
        if ps is None:
            return False
        ts = []
        for x, y in ps:
            if isinstance(x, Enc):
                if x.codec != y.codec:
                    raise Unsupported('comparison across codecs')
                ts.append(bool_term(eq(x.value, y.value)))
            else:
                ts.append(x.t == y.t)
        return mkbool(z3.And(*ts)) if ts else True

    def __ne__(self, o):
        return not_(self.__eq__(o))

    __hash__ = Sym.__hash__

    def _lt(self, o, strict):
        c = chunks_of(o)
        if c is None:
            return NotImplemented
        ps = self._norm(SymBytes(c))
        if ps is None:
            raise Unsupported('order of bytes of different widths')
        res = z3.BoolVal(not strict)
        for x, y in reversed(ps):
            if not isinstance(x, U):
                raise Unsupported('order of opaque bytes')
            res = z3.Or(x.t < y.t, z3.And(x.t == y.t, res))
        return mkbool(res)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return SymBytes(chunks_of(o))._lt(self, True)

    def __ge__(self, o):
        return SymBytes(chunks_of(o))._lt(self, False)

    def startswith(self, o):
        c = chunks_of(o)
        n = SymBytes(c).width()
        return eq(self.split(n)[0], SymBytes(c))

    def decode(self, *a):
        if len(self.chunks) == 1 and isinstance(self.chunks[0], Enc) and \
                self.chunks[0].codec == 'utf8':
            return self.chunks[0].value
        raise Unsupported('decode of symbolic bytes')

    def _subst_(self, pairs):
        out = []
        for c in self.chunks:
            if isinstance(c, U):
                out.append(U(c.n, z3.substitute(c.t, *pairs)))
            elif isinstance(c, Raw):
                out.append(Raw(z3.substitute(c.t, *pairs)))
            elif isinstance(c, Enc):
                out.append(Enc(c.codec, seqs.subst(c.value, pairs)))
            else:
                out.append(RecSeq(c.rec, z3.substitute(c.lo, *pairs),
                                  z3.substitute(c.hi, *pairs)))
        return SymBytes(out)

    def _codec_(self):
        if len(self.chunks) == 1 and isinstance(self.chunks[0], RecSeq):
            return RecSeqC(self.chunks[0])
        raise Unsupported('carried bytes')

    def _closed_candidates(self, seg):
        c = self.chunks[0]
        return [lambda k: SymBytes([RecSeq(
            c.rec, z3.simplify(c.lo + (k - seg.lo)), c.hi)])]

    def _lift_(self, kind):
        return None

    def __repr__(self):
        return f'SymBytes({len(self.chunks)})'


class RecSeqC(seqs.Codec):
    sorts = (I,)

    def __init__(self, c):
        self.c = c

    def build(self, ts):
        return SymBytes([RecSeq(self.c.rec, ts[0], self.c.hi)])

    def flatten(self, v):
        if isinstance(v, SymBytes) and len(v.chunks) == 1 and isinstance(
                v.chunks[0], RecSeq) and v.chunks[0].hi.eq(self.c.hi):
            return [v.chunks[0].lo]
        if isinstance(v, SymBytes) and not v.chunks:
            return [self.c.hi]

    def facts(self, ts):
        return [ts[0] <= self.c.hi] if False else []


# ----------------------------------------------------------------- struct

_W = {'Q': (8, False), 'q': (8, True), 'I': (4, False), 'i': (4, True),
      'H': (2, False), 'h': (2, True), 'B': (1, False), 'b': (1, True),
      'L': (4, False), 'l': (4, True)}


class StructModel:
    error = _struct.error

    @staticmethod
    def _fmt(fmt):
        if not fmt or fmt[0] not in '>!':
            if fmt and fmt[0] in '<=@' or True:
                raise Unsupported(f'struct format {fmt!r}')
        out = []
        num = ''
        for ch in fmt[1:]:
            if ch.isdigit():
                num += ch
                continue
            if ch.isspace():
                continue
            if ch not in _W:
                raise Unsupported(f'struct format {fmt!r}')
            out.extend([_W[ch]] * (int(num) if num else 1))
            num = ''
        return out

    @classmethod
    def pack(cls, fmt, *values):
        if not any(isinstance(v, Sym) for v in values):
            return _struct.pack(fmt, *values)
        ws = cls._fmt(fmt)
        if len(ws) != len(values):
            raise _struct.error('pack expected other number of items')
        out = []
        for (n, signed), v in zip(ws, values):
            if isinstance(v, SymOpt):
                v = v.force()
            if not isinstance(v, (int, SymInt)):
                raise _struct.error('required argument is not an integer')
            t = int_term(v)
            lo, hi = ((-(1 << (8 * n - 1)), 1 << (8 * n - 1)) if signed
                      else (0, 1 << (8 * n)))
            if not X.decide(z3.And(t >= lo, t < hi)):
                raise _struct.error('argument out of range')
            if signed:
                t = z3.If(t < 0, t + (1 << (8 * n)), t)
            out.append(U(n, t))
        return SymBytes(out)

    @classmethod
    def unpack(cls, fmt, data):
        if isinstance(data, (bytes, bytearray, memoryview)):
            return _struct.unpack(fmt, data)
        c = chunks_of(data)
        if c is None:
            raise Unsupported('unpack')
        data = SymBytes(c)
        ws = cls._fmt(fmt)
        total = sum(n for n, _ in ws)
        if data.width() is None:
            raise Unsupported('unpack of open bytes')
        if data.width() != total:
            raise _struct.error(f'unpack requires a buffer of {total} bytes')
        out = []
        for n, signed in ws:
            h, data = data.split(n)
            t = z3.IntVal(0)
            w = n
            for ch in h.chunks:
                w -= ch.n
                t = t + ch.t * (256 ** w)
            t = z3.simplify(t)
            if signed:
                t = z3.If(t >= (1 << (8 * n - 1)), t - (1 << (8 * n)), t)
            out.append(mkint(t))
        return tuple(out)

    @classmethod
    def calcsize(cls, fmt):
        return _struct.calcsize(fmt)


def vc_bytes(x=b'', encoding=None):
    if encoding is not None:
        return x.encode(encoding)
    if isinstance(x, SymOpt):
        x = x.force()
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymVal):
        return x
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, (int, SymInt)):
        if isinstance(x, SymInt):
            raise Unsupported('bytes of symbolic size')
        return bytes(x)
    chunks = []
    for p in seqs.to_parts(x):
        if isinstance(p, list):
            for i in p:
                if isinstance(i, ByteRun):
                    chunks.append(i.chunk)
                elif isinstance(i, SymInt):
                    if not X.decide(z3.And(i.t >= 0, i.t < 256)):
                        raise ValueError('bytes must be in range(0, 256)')
                    chunks.append(U(1, i.t))
                elif isinstance(i, int):
                    if not 0 <= i < 256:
                        raise ValueError('bytes must be in range(0, 256)')
                    chunks.append(U(1, z3.IntVal(i)))
                else:
                    raise TypeError('bytes item')
        elif isinstance(p, seqs.Seg):
            chunks.append(_rec_seg(p))
        else:
            raise Unsupported('bytes of opaque list')
    return SymBytes(chunks)


def _rec_seg(p):
    """record sequence of a segment emitting byte runs per index"""
    if p.hi is None and p.ordered:
        raise Unsupported('unbounded bytes')
    for gd, v in p.emits:
        if not isinstance(v, ByteRun) and not (
                type(v) is int and 0 <= v < 256):
            raise Unsupported('bytes of generic items')
    if not p.ordered:
        raise Unsupported('unordered bytes')

    def rec(k):
        return SymBytes([v.chunk if isinstance(v, ByteRun) else
                         U(1, z3.IntVal(v)) for gd, v in p.at(k)
                         if z3.is_true(z3.simplify(gd)) or X.decide(gd)])
    return RecSeq(rec, p.lo, p.hi)
