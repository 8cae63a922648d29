import commands


def run(ctx):
    commands.run(ctx)
