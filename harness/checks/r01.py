import runfile


def run(ctx):
    rej, _ = runfile.run(ctx, ["names"], long_adds=False)
    ctx.reject(rej, "run/result-file life cycle")
