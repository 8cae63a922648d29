from classify import run  # noqa: F401
