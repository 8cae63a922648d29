from sampling import run  # noqa: F401
