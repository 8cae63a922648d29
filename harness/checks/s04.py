from crossing import run  # noqa: F401
