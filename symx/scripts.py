"""Runs the command line scripts of /repo/scripts: symbolically (their rewritten source, standing in for argparse's
file type and for print) or as they are (in a scratch directory)."""
import argparse
import contextlib
import io
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('SYMX_REPO', '/repo')
_CODE = {}


class ScriptExit(Exception):
    """The script ended with an error (argparse, sys.exit)."""


class _Infile(object):
    def __init__(self, lines):
        self.lines = lines

    def readlines(self):
        return list(self.lines)

    def __iter__(self):
        return iter(self.lines)

    def close(self):
        pass


def _argparse_shim(lines, table):
    """The argparse module with a parser that hands out symbolic texts for their place holders."""
    from . import loader

    class FileType(object):
        def __init__(self, *a, **k):
            pass

        def __call__(self, name):
            return _Infile(lines)

    class ArgumentParser(argparse.ArgumentParser):
        def _get_value(self, action, arg_string):
            if arg_string in table:
                arg_string = table[arg_string]
                f = self._registry_get('type', action.type, action.type)
                return f(arg_string)
            return argparse.ArgumentParser._get_value(self, action, arg_string)

        def exit(self, status=0, message=None):
            raise ScriptExit(message)

        def error(self, message):
            raise ScriptExit(message)

    return loader._mkmod('argparse', dict(((k, getattr(argparse, k)) for k in dir(argparse) if not k.startswith('__')),
                                          FileType=FileType, ArgumentParser=ArgumentParser))


def run_symbolic(eng, name, argv, lines):
    """Lines printed by the script (without line ends)."""
    from . import loader, fmt
    from .values import SymStr, items_of, mkstr
    path = os.path.join(REPO, 'scripts', name)
    if path not in _CODE:
        _CODE[path] = loader.compile_script(path)
    table, native = {}, ['file.ngc']
    for i, a in enumerate(argv):
        if isinstance(a, SymStr):
            k = 'SYMBOLIC%d' % i
            table[k] = a
            native.append(k)
        else:
            native.append(a)
    text = [mkstr(items_of(l) + ['\n']) for l in lines]
    shim = _argparse_shim(text, table)
    builtins_ = dict(loader.BUILTINS)
    imp = builtins_['__import__']

    def imp2(n, *a, **k):
        if n == 'argparse':
            return shim
        return imp(n, *a, **k)
    builtins_['__import__'] = imp2
    ns = {'__name__': '__main__', '__file__': path, '__builtins__': builtins_}
    saved = sys.argv
    eng.printed = []
    sys.argv = [name] + native
    try:
        exec(_CODE[path], ns)
    except SystemExit as e:
        if e.code not in (None, 0):
            raise ScriptExit(str(e.code))
    finally:
        sys.argv = saved
    out = [[]]
    for t in eng.printed:
        for c in items_of(t):
            if type(c) is str and c == '\n':
                out.append([])
            else:
                out[-1].append(c)
    eng.printed = []
    if not out[-1]:
        out.pop()
    return [mkstr(l) for l in out]


def run_concrete(name, argv, lines):
    d = tempfile.mkdtemp(prefix='symx-script-')
    buf = io.StringIO()
    saved = sys.argv
    try:
        f = os.path.join(d, 'file.ngc')
        with open(f, 'w', newline='') as fh:
            fh.write(''.join(l + '\n' for l in lines))
        path = os.path.join(REPO, 'scripts', name)
        if path not in _CODE:
            with open(path) as fh:
                _CODE[path] = compile(fh.read(), path, 'exec', dont_inherit=True)
        sys.argv = [name, f] + list(argv)
        with contextlib.redirect_stdout(buf):
            try:
                exec(_CODE[path], {'__name__': '__main__', '__file__': path})
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise ScriptExit(str(e.code))
    finally:
        sys.argv = saved
        shutil.rmtree(d, ignore_errors=True)
    out = buf.getvalue().split('\n')
    if out and not out[-1]:
        out.pop()
    return out
