import flows


def run(ctx):
    flows.run_coords(ctx)
