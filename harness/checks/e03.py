import equations


def run(ctx):
    equations.run_diagnostics(ctx)
