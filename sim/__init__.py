"""Deterministic simulation of marEx: see DESIGN.md."""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class _Loader(importlib.machinery.SourceFileLoader):
    """Always compiles the source as it is now: no bytecode cache."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "marEx" and not fullname.startswith("marEx."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        for cand, sub in ((os.path.join(base, "__init__.py"), [base]), (base + ".py", None)):
            if os.path.isfile(cand):
                return importlib.util.spec_from_file_location(fullname, cand, loader=_Loader(fullname, cand), submodule_search_locations=sub)
        return None


if not any(isinstance(f, _Finder) for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder())
