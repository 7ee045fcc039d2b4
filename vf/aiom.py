"""Contracts of hat.aio and asyncio used by proof units.

An async function is executed as one sequential run; what other tasks may do
while it is suspended is stated by the unit (havoc of the state they own in
the contracts of the awaited calls)."""

from .core import X, Unsupported
from . import libs


class Call:
    """aio.call: calls the function when awaited, awaits its result if
    needed"""

    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def _await_(self):
        r = self.f(*self.a, **self.k)
        if isinstance(r, libs.Coro) or hasattr(r, '_await_'):
            return libs.await_(r)
        return r


def call(f, *a, **k):
    return Call(f, a, k)


class Now:
    """awaitable with known effect"""

    def __init__(self, f=None, pure=False):
        self.f = f or (lambda: None)
        self.pure = pure or f is None   # changes nothing

    def _await_(self):
        from . import seqs
        if not self.pure:
            seqs.guard()
        return self.f()


def uncancellable(f, raise_cancel=True):
    return f
