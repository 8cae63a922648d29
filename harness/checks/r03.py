import runfile


def run(ctx):
    rej, _ = runfile.run(ctx, ["final"])
    ctx.reject(rej, "run/result-file life cycle")
