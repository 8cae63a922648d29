import formats


def run(ctx):
    formats.run(ctx, False, formats.synthesise)
