"""Things several properties need."""
import hashlib
import json
import math
import os

LIBDIR = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "mt_metadata")


def all_classes():
    """Every metadata class of the library, in a fixed order."""
    from mt_metadata.base import MetadataBase
    out, todo = set(), [MetadataBase]
    while todo:
        for s in todo.pop().__subclasses__():
            if s.__module__.startswith("mt_metadata") and s not in out:
                out.add(s)
                todo.append(s)
    return sorted(out, key=lambda c: (c.__module__, c.__qualname__))


def class_by_name(name):
    import importlib
    m, _, q = name.rpartition(":")
    return getattr(importlib.import_module(m), q)


def class_name(c):
    return f"{c.__module__}:{c.__qualname__}"


def as_text(x):
    if hasattr(x, "model_fields"):
        try:
            return x.to_dict()
        except Exception:
            return class_name(type(x))
    return str(x)


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=as_text).encode()).hexdigest()[:16]


def weighted(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def fault_plan(rng, n_ops_hint=8, allow_crash=True, max_faults=2, errs=("ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE", "EDQUOT")):
    out = []
    for _ in range(rng.randint(0, max_faults)):
        do = rng.choice(list(errs) + (["crash"] if allow_crash else []) + ["short", "EINTR"])
        f = {"at": rng.randrange(n_ops_hint), "match": rng.choice(["any", "w", "open", "write", "read", "close", "mkdir"]),
             "do": do, "sticky": rng.random() < 0.3 and do not in ("crash", "short", "EINTR")}
        if f["match"] == "mkdir":
            f["at"] = 0
        out.append(f)
    return out
