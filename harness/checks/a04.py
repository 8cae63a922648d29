import summaries


def run(ctx):
    summaries.run_summaries(ctx)
