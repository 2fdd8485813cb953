"""Where each property's check is specified."""
import importlib
MODULES = ["specs_core", "specs_fish", "specs_fp", "specs_io", "specs_thr", "specs_mv", "specs_dbg", "specs_rand", "specs_tty", "specs_res"]
def find(prop):
    for m in MODULES:
        mod = importlib.import_module(m)
        if prop in mod.SPECS: return m, mod.SPECS[prop]
    raise SystemExit("no check for " + prop)
def all_props():
    out = {}
    for m in MODULES:
        for p in importlib.import_module(m).SPECS: out[p] = m
    return out
