import runfile


def run(ctx):
    rej, _ = runfile.run(ctx, ["sols"])
    ctx.reject(rej, "run/result-file life cycle")
