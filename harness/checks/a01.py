import selecting


def run(ctx):
    selecting.run_select(ctx)
