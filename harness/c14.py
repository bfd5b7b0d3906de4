"""C14: results of calls (spec/Call.tla)."""

import calls


def check(ctx):
    calls.run(ctx, True)
