"""Import set-up: the code under test from QINFER_SRC (default /repo/src) in the
project's own venv, Hypothesis from the sandbox's tool venv (pure Python parts)."""
import importlib.abc
import importlib.machinery
import logging
import os
import sys
import types
import warnings

SRC = os.environ.get('QINFER_SRC', '/repo/src')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class _Tools(importlib.abc.MetaPathFinder):
    names = {'hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_pytestplugin',
             '_hypothesis_ftz_detector', '_hypothesis_globals'}

    def find_spec(self, name, path=None, target=None):
        if path is None and name in self.names:
            return importlib.machinery.PathFinder.find_spec(name, [VT])
        return None


sys.meta_path.append(_Tools())
sys.path.insert(0, SRC)
if not os.path.exists(os.path.join(SRC, 'qinfer', 'version.py')):
    _v = types.ModuleType('qinfer.version')
    _v.version = '0+harness'
    sys.modules['qinfer.version'] = _v

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
import numpy as np  # noqa: E402
import qinfer  # noqa: E402

if not os.path.abspath(qinfer.__file__).startswith(os.path.abspath(SRC)):
    raise SystemExit('qinfer imported from the wrong place: %s' % qinfer.__file__)
