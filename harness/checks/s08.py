from stages import run  # noqa: F401
