from extremes import run  # noqa: F401
