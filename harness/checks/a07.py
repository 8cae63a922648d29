from curves import run  # noqa: F401
