"""Import algotom from its current source text, never from cached code."""
import importlib.abc
import importlib.machinery
import sys


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.partition(".")[0] != "algotom":
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path,
                                                        target)
        if spec is not None and type(spec.loader) is \
                importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
