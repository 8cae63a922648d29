import paths


def run(ctx):
    paths.run_paths(ctx)
