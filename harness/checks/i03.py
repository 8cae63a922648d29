import csvfiles


def run(ctx):
    csvfiles.run(ctx)
