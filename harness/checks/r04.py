import formats


def run(ctx):
    formats.run(ctx, True, formats.write_real)
