"""Process-wide set-up: the interpreter's import path, the compatibility names
that PyMuPDF/Python of this sandbox need for pdf2docx, and quiet diagnostics.

Nothing here changes pdf2docx: the code under test is imported from REPO.
"""
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import collections
    import collections.abc
    for name in ('Iterable', 'Sequence', 'Mapping', 'MutableMapping', 'Callable', 'Hashable'):
        if not hasattr(collections, name):
            setattr(collections, name, getattr(collections.abc, name))
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import fitz
    if hasattr(fitz, 'restore_aliases'):
        # the alias wrappers warn once per name on stderr; not of interest here
        fitz.restore_aliases()
    fitz.TOOLS.mupdf_display_errors(False)
    import cv2
    cv2.setNumThreads(1)
