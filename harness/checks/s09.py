from internal import run  # noqa: F401
