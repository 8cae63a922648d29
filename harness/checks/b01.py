import batch


def run(ctx):
    batch.run(ctx, "csv")
