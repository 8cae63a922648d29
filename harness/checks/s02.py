import stepping


def run(ctx):
    ctx.reject(stepping.run(ctx, ["result"]), "stepping search")
