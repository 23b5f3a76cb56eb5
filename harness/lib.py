"""Shared bits: the catalog (exported from the TLA+ specification) and calls into /repo's ta."""
import importlib, json, os, sys, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TA_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
import tlc  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
_cat = None


def _load():
    global _cat
    if _cat is None:
        path = os.path.join(tlc.BUILD, "catalog.json")
        src = [os.path.join(tlc.SPEC, f) for f in os.listdir(tlc.SPEC) if f.endswith(".tla")]
        if not os.path.exists(path) or os.path.getmtime(path) < max(map(os.path.getmtime, src)):
            os.makedirs(tlc.BUILD, exist_ok=True)
            tmp = path + f".{os.getpid()}"
            r = tlc.run("ExportCatalog", cfg="ExportCatalog.cfg", env={"TA_OUT": tmp, "TA_MACHINES": "", "TA_DEEP": "0"}, workers=1)
            if not r.ok:
                raise tlc.TlcError("catalog export failed:\n" + r.out[-3000:])
            os.rename(tmp, path)
        _cat = json.load(open(path))[0]
    return _cat


def catalog():
    return {e["id"]: e for e in _load()["catalog"]}


def frame_catalog():
    return _load()["frame"]


def export(key):
    return _load()[key]


def defaults(m):
    return {n: d for n, k, d in catalog()[m]["pars"]}


def window_names(m):
    return [n for n, k, d in catalog()[m]["pars"] if k == "w"]


def ta_module(name):
    return importlib.import_module("ta." + name)


def pyval(x):
    """Parameter as Python sees it: decimal strings become numbers."""
    if isinstance(x, str):
        return int(x) if x.lstrip("-").isdigit() else float(x)
    return x


def py_params(m, p):
    r = {}
    for n, k, d in catalog()[m]["pars"]:
        if n in p:
            r[n] = pyval(p[n])
            if n == "smoothing_factor" and r[n] == 0:
                r[n] = None
    return r


def make(m, p, fn, cols):
    """Construct the indicator; cols: dict high/low/close/volume -> Series."""
    e = catalog()[m]
    cls = getattr(ta_module(e["mod"]), e["cls"])
    return cls(**{c: cols[c] for c in e["ins"]}, **py_params(m, p), fillna=fn)


def call_all(m, p, fn, cols):
    obj = make(m, p, fn, cols)
    return [getattr(obj, o[0])() for o in catalog()[m]["outs"]]


def fmt(x):
    x = float(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def strs(values):
    return [fmt(x) for x in values]


def scale_of(values):
    a = [abs(float(x)) for x in values if x == x and abs(float(x)) != float("inf")]
    return fmt(max(a)) if a else "0.0"
