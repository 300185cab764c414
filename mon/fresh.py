"""Pristine instances of the gimpy package.

pristine() executes the modules of the current tree again and returns a new
package object that shares no module, class or default argument with the one
the monitored code uses, so its answers cannot depend on what happened
earlier in the process.
"""
import importlib
import importlib._bootstrap_external as _be
import sys

_codes = {}


def _ours(k):
    return k == 'gimpy' or k.startswith('gimpy.')


def pristine():
    real = _be.SourceLoader.get_code

    def get_code(self, name):
        if self.path not in _codes:
            _codes[self.path] = real(self, name)
        return _codes[self.path]
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if _ours(k)}
    _be.SourceLoader.get_code = get_code
    try:
        return importlib.import_module('gimpy')
    finally:
        _be.SourceLoader.get_code = real
        for k in [k for k in sys.modules if _ours(k)]:
            del sys.modules[k]
        sys.modules.update(saved)
