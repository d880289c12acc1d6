"""
Makes the code under test importable, from the working tree, offline.

- the package is imported from MC_REPO (default /repo), never from an installed
  copy, and never from stale byte code;
- chumpy 0.70 does not import on Python 3.12 / numpy 2: `with_chumpy` gives it
  the handful of names it looks up *while it is imported* and takes them away
  again, so that a use of a removed numpy name by blmath itself still fails;
- lace is not installed: `with_lace` provides the one pure function
  (quads_to_tris) the shape builders import from it;
- the C extension is compiled from the current source into a private scratch
  directory (`with_cholmod`), so a stale build in /repo is never consulted.
"""
import os
import sys
import types

REPO = os.path.abspath(os.environ.get('MC_REPO', '/repo'))


def setup():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import blmath
    where = os.path.dirname(os.path.abspath(blmath.__file__))
    if where != os.path.join(REPO, 'blmath'):
        raise RuntimeError('blmath imported from %s' % where)


def with_chumpy():
    import collections
    import inspect
    import numpy as np
    if 'chumpy' in sys.modules:
        return sys.modules['chumpy']
    spec = collections.namedtuple('ArgSpec', 'args varargs keywords defaults')
    if not hasattr(inspect, 'getargspec'):
        inspect.getargspec = lambda f: spec(*inspect.getfullargspec(f)[:4])
    aliases = {'int': int, 'float': float, 'complex': complex, 'object': object,
               'unicode': str, 'str': str}
    added = [k for k in aliases if k not in np.__dict__]
    had_bool = 'bool' in np.__dict__
    for k in added:
        setattr(np, k, aliases[k])
    if not had_bool:
        np.bool = bool
    try:
        import chumpy
    finally:
        for k in added:
            delattr(np, k)
        if not had_bool:
            del np.bool
    return chumpy


def with_lace():
    if 'lace' in sys.modules:
        return
    import numpy as np
    lace = types.ModuleType('lace')
    topology = types.ModuleType('lace.topology')

    def quads_to_tris(quads):
        quads = np.asarray(quads)
        out = np.zeros((2 * len(quads), 3), dtype=quads.dtype)
        out[0::2] = quads[:, [0, 1, 2]]
        out[1::2] = quads[:, [0, 2, 3]]
        return out

    topology.quads_to_tris = quads_to_tris
    lace.topology = topology
    sys.modules['lace'] = lace
    sys.modules['lace.topology'] = topology

    class Mesh(object):
        def __init__(self, v=None, f=None, **kwargs):
            self.v, self.f = v, f

        def set_vertex_colors(self, *args, **kwargs):
            return self

    class MeshViewer(object):
        """Records what it is shown."""
        opened = []

        def __init__(self, *args, **kwargs):
            self.shown = []
            MeshViewer.opened.append(self)

        def set_dynamic_meshes(self, meshes, *args, **kwargs):
            self.shown = [np.array(m.v) for m in meshes]

    class Lines(object):
        def __init__(self, v, e, vc=None):
            self.v, self.e, self.vc = np.array(v), np.array(e), vc

    for name, attribute in (('mesh', Mesh), ('meshviewer', MeshViewer), ('lines', Lines)):
        module = types.ModuleType('lace.' + name)
        setattr(module, attribute.__name__, attribute)
        setattr(lace, name, module)
        sys.modules['lace.' + name] = module


def with_cholmod(scratch):
    """Compile the extension of the current tree into `scratch` and load it."""
    import importlib.util
    import subprocess
    import sysconfig
    import numpy as np
    src = os.path.join(REPO, 'blmath', 'numerics', 'linalg', 'cholmod.c')
    out = os.path.join(scratch, 'cholmod' + (sysconfig.get_config_var('EXT_SUFFIX') or '.so'))
    cmd = ['gcc', '-shared', '-fPIC', '-O0', '-fno-inline', '-w',
           '-I', sysconfig.get_paths()['include'], '-I', np.get_include(),
           '-I', '/usr/include/suitesparse', src, '-o', out,
           '-llapack', '-lcolamd', '-lamd', '-lcholmod']
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL)
    import blmath.numerics.linalg as package
    name = 'blmath.numerics.linalg.cholmod'
    spec = importlib.util.spec_from_file_location(name, out)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    sys.modules[name] = module
    package.cholmod = module
    return module
