import plots


def run(ctx):
    plots.run_plots(ctx)
