"""The checks, one per property."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ALL = {}
for name in ("audio", "lists", "output", "cli", "session", "memory", "threads", "figures"):
    try:
        m = importlib.import_module(name)
    except ModuleNotFoundError as e:
        if e.name != name:
            raise
        continue
    for p in m.PROPS:
        ALL[p.id] = p
