"""Puts the process-wide tables of the code under test (caches, tables of names) back to what they were after import,
whatever they are called."""
import sys, functools
from . import boot
import pdfmajor.converters, pdfmajor.interpreter


def _tables():
    seen, out = set(), []

    def container(v):
        if isinstance(v, (dict, list, set)) and id(v) not in seen:
            seen.add(id(v))
            out.append((v, v.copy()))

    def look(v, name):
        container(v)
        if hasattr(v, 'cache_clear') and callable(v.cache_clear) and id(v) not in seen:
            seen.add(id(v))
            out.append((v, None))
        if isinstance(v, type) and v.__module__.startswith('pdfmajor') and id(v) not in seen:
            seen.add(id(v))
            for k, w in list(vars(v).items()):
                if not k.startswith('__'):
                    look(getattr(w, '__func__', w), k)
        elif type(v).__module__.startswith('pdfmajor') and hasattr(v, '__dict__') and id(v) not in seen:
            seen.add(id(v))
            for w in list(vars(v).values()):
                container(w)
    for name, m in sorted(sys.modules.items()):
        if name == 'pdfmajor' or name.startswith('pdfmajor.'):
            for k, v in list(vars(m).items()):
                if not k.startswith('__'):
                    look(v, k)
    return out


TABLES = _tables()


def forget():
    for v, old in TABLES:
        if old is None:
            v.cache_clear()
        elif v != old if not isinstance(v, dict) else (len(v) != len(old) or v.keys() != old.keys()):
            v.clear()
            (v.extend if isinstance(v, list) else v.update)(old)
