from still import run  # noqa: F401
