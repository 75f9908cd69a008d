import importlib

MODULES = ["props_vts", "props_mat", "props_seq", "props_qe", "props_grf"]


def table():
    out = {}
    for m in MODULES:
        mod = importlib.import_module(m)
        for name in dir(mod):
            cls = getattr(mod, name)
            if isinstance(cls, type) and getattr(cls, "id", None) and cls.__module__ == m:
                out[cls.id] = cls
    return out


def get(pid):
    return table()[pid]()
