import shock


def run(ctx):
    shock.run_search(ctx)
