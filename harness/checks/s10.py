from once import run  # noqa: F401
