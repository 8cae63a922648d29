import settings


def run(ctx):
    settings.run(ctx, True)
