"""Rule modules: verifier/rules/<id>.py, each with run(ctx)."""
import importlib, os, re


def available():
    d = os.path.dirname(os.path.abspath(__file__))
    return sorted(f[:-3].upper() for f in os.listdir(d) if re.fullmatch(r"[a-z]\d+\.py", f))


def module(pid):
    return importlib.import_module("%s.%s" % (__name__, pid.lower()))
