"""The same document object in an earlier state: what a check remembers of it must not leak into later verdicts."""
import contextlib

MAPS = ("servers", "channels", "operations")


@contextlib.contextmanager
def emptied(doc):
    """the entries of all maps of the document and of its components taken out in place"""
    objs = [doc] + [o for o in [doc.__dict__.get("components")] if hasattr(o, "__dict__")]
    kept = []
    for o in objs:
        for v in o.__dict__.values():
            root = getattr(v, "__dict__", {}).get("root")
            if type(root) is dict:
                kept.append((root, dict(root)))
                root.clear()
    try:
        yield doc
    finally:
        for root, entries in kept:
            root.update(entries)


@contextlib.contextmanager
def as_other(doc, other):
    """the document with the members of another one"""
    kept = dict(doc.__dict__)
    doc.__dict__.clear()
    doc.__dict__.update(other.__dict__)
    try:
        yield doc
    finally:
        doc.__dict__.clear()
        doc.__dict__.update(kept)


def used_before(doc, other, f):
    """run f on the document in both earlier states; its outcome there does not matter"""
    for state in (emptied(doc), as_other(doc, other)):
        with state:
            try:
                f(doc)
            except Exception:      # noqa: BLE001
                pass
