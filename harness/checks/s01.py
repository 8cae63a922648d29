import stepping


def run(ctx):
    ctx.reject(stepping.run(ctx, ["walk"]), "stepping search")
