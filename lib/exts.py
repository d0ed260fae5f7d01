"""Builds the compiled shell kernels from the sources in the code under test, outside it."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

CC = shutil.which('clang') or 'gcc'     # clang compiles the long generated expressions far faster
KERNELS = {'metaT9': 'membranes/T9', 'metaGQ12': 'membranes/GQ12', 'metaDKT': 'plates/metaDKT', 'metaDKQ': 'plates/metaDKQ'}
ALL = dict(KERNELS, metaTMQb='plates/TMQ', metaTMQs='plates/TMQ')


def _one(src, dst, name, sub):
    d = os.path.join(dst, 'b_' + name)
    shutil.copytree(os.path.join(src, sub), d)
    c = os.path.join(d, name + '.c')
    subprocess.run([sys.executable, '-m', 'cython', '-3', os.path.join(d, name + '.pyx'), '-o', c], check=True, capture_output=True, text=True)
    import numpy as np
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(), '-I' + d]
    objs = []
    for s in (c, os.path.join(d, 'wrapped_code_%d.c' % (name == 'metaTMQs'))):
        o = s[:-2] + '.o'
        subprocess.run([CC, '-std=c99', '-O0', '-fPIC', '-w', '-c', s, '-o', o] + inc, check=True, capture_output=True, text=True)
        objs.append(o)
    so = os.path.join(dst, name + sysconfig.get_config_var('EXT_SUFFIX'))
    subprocess.run(['gcc', '-shared', '-o', so] + objs + ['-lm'], check=True, capture_output=True, text=True)


def build(repo, kernels=KERNELS):
    """returns a directory with the extensions, put first on sys.path"""
    dst = tempfile.mkdtemp(prefix='kern')
    src = os.path.join(repo, 'hyperstatic/core/fe_model/meta')
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda k: _one(src, dst, *k), kernels.items()))
    sys.path.insert(0, dst)
    import importlib
    importlib.invalidate_caches()
    for n in kernels:
        sys.modules.pop(n, None)
        m = importlib.import_module(n)
        assert m.__file__.startswith(dst), m.__file__
    return dst
