import equations


def run(ctx):
    equations.run_points(ctx)
