"""pyvc: a deductive verifier for a stated subset of Python.

Contracts live in sidecar files (/verif/contracts); the text that is verified is extracted
from /repo with `ast` on every run.  See DESIGN.md for what the extraction drops.
"""
