"""The exported program, indexed."""
from . import dump


def index(d):
    d["by_path"] = {b["path"]: b for b in d["bodies"]}
    d["by_id"] = {b["id"]: b for b in d["bodies"]}
    return d


def load():
    return index(dump.dump())
