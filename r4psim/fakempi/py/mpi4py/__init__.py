"""Stand-in for mpi4py used inside the deterministic simulator."""
__version__ = "4.1.2"


class _RC:
    initialize = True
    finalize = True
    threads = True
    thread_level = "multiple"


rc = _RC()


def get_include():
    import os
    return os.path.join(os.path.dirname(__file__), "..", "..", "include", "mpi4py")


def get_config():
    return {}
