import reports


def run(ctx):
    reports.run_reports(ctx)
