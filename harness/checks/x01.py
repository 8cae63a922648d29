import shock


def run(ctx):
    shock.run_jump(ctx)
