import texts


def run(ctx):
    texts.run(ctx)
