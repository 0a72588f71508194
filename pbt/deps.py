"""Make hypothesis importable: unpack the offline wheels next to the checks (no pip, no network)."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
WHEELS = "/opt/veriftools/wheels"
TARGET = os.path.join(os.path.dirname(HERE), ".deps")


def _wheels():
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    out = []
    for pattern in (f"hypothesis-*-{tag}-{tag}-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
        found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if found:
            out.append(found[-1])
    return out


def ensure():
    """Put hypothesis on sys.path and return its location."""
    try:
        import hypothesis  # noqa: F401
        return hypothesis.__file__
    except ImportError:
        pass
    if not os.path.isfile(os.path.join(TARGET, "hypothesis", "__init__.py")):
        wheels = _wheels()
        if not wheels:
            fallback = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
            sys.path.append(fallback)
        else:
            parent = os.path.dirname(TARGET)
            scratch = tempfile.mkdtemp(prefix=".deps-", dir=parent)
            for wheel in wheels:
                with zipfile.ZipFile(wheel) as z:
                    z.extractall(scratch)
            try:
                os.rename(scratch, TARGET)
            except OSError:  # somebody else was faster
                shutil.rmtree(scratch, ignore_errors=True)
    if TARGET not in sys.path:
        sys.path.insert(1, TARGET)
    import hypothesis
    return hypothesis.__file__
