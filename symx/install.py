"""Install every symbolic-mode patch (in worker processes only)."""
_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    from . import env, keyed
    keyed.install()
    env.load_target()
    from . import shadows, fitzsym, docxsym
    fitzsym.install()
    shadows.install('pdf2docx')
    shadows.install('fitz.utils')
    docxsym.install()
