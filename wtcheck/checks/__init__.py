import importlib
import pkgutil


def load():
    for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
        importlib.import_module(__name__ + "." + m)
