import equations


def run(ctx):
    equations.run_midplane(ctx)
