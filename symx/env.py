"""Import paths: the code under test from /repo, the solver from the tools' venv."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

sys.dont_write_bytecode = True
for p in ('/opt/vp/compat', REPO, ROOT):
    if p not in sys.path:
        sys.path.insert(0, p)
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if TOOLS not in sys.path:
    sys.path.append(TOOLS)


def load_target():
    """Import pdf2docx (all modules) from the current working tree."""
    import warnings
    warnings.simplefilter('ignore')
    import importlib
    import pkgutil
    import oldnames  # noqa: F401
    import fitz  # noqa: F401
    import pdf2docx
    assert os.path.abspath(pdf2docx.__file__).startswith(os.path.abspath(REPO) + os.sep), pdf2docx.__file__
    for m in pkgutil.walk_packages(pdf2docx.__path__, 'pdf2docx.'):
        importlib.import_module(m.name)
