from sonicroot import run  # noqa: F401
