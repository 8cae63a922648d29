from provenance import run  # noqa: F401
