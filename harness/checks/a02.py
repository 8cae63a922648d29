import flows


def run(ctx):
    flows.run_flows(ctx)
