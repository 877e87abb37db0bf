"""Loads the girth package from GIRTH_ROOT (default /repo) in this process and
in every process it spawns, whatever else is installed."""
import importlib.machinery
import importlib.util
import os
import sys

ROOT = os.environ.get("GIRTH_ROOT", "/repo")


class GirthFinder:
    """The package map of setup.py: girth is spread over several folders."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "girth":
            loc = [os.path.join(ROOT, "estimation"), ROOT]
            return importlib.util.spec_from_file_location(
                name, os.path.join(loc[0], "__init__.py"),
                submodule_search_locations=loc)
        return None


sys.meta_path.insert(0, GirthFinder)
