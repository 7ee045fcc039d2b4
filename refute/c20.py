"""Random engines (<= 3 modules with deterministic productions, <= 8
concurrent register calls, queue sizes 1..1024, rejecting, slow or failing
backend, closing at random moments) against a reference fixpoint; creations
failing or cancelled at random moments."""

from refute import engineh


def run(ctx):
    engineh.run_prop(ctx, 'C20')
