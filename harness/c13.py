"""C13: arguments of calls (spec/Call.tla)."""

import calls


def check(ctx):
    calls.run(ctx, False)
