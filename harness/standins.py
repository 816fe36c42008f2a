"""
Stand-ins for the optional numerical libraries, which are not installed here (MKL, FFTW, CuPy, PyAMG, PARDISO).

They have the documented interfaces and are as strict as the interfaces allow: an input that may be overwritten
is destroyed, arrays of the device do not mix with arrays of the host, and wrong types are refused.
"""

import sys
import types

import numpy as np


def _spoil(mat, allowed):
    if allowed and isinstance(mat, np.ndarray) and mat.flags.writeable:
        mat[...] = np.nan


def _module(name, **kwargs):
    mod = types.ModuleType(name)
    mod.__dict__.update(kwargs)
    mod.__path__ = []
    sys.modules[name] = mod
    return mod


def install_mkl():
    def transform(fct):
        def run(x, s=None, axes=None, overwrite_x=False, fwd_scale=1.0):
            assert fwd_scale == 1.0
            out = fct(np.array(x), s=s, axes=axes)
            _spoil(x, overwrite_x)
            return out
        return run

    _module("mkl_fft", fftn=transform(np.fft.fftn), ifftn=transform(np.fft.ifftn))


def install_fftw():
    state = {"enabled": False}

    def enable():
        state["enabled"] = True

    def disable():
        state["enabled"] = False

    def set_keepalive_time(val):
        if not state["enabled"]:
            raise RuntimeError("cache is not enabled")
        float(val)

    def byte_align(array, n=None, dtype=None):
        if not isinstance(array, np.ndarray):
            raise TypeError("array needed")
        # the data may be copied for the alignment, or not
        return array

    def transform(fct):
        def run(a, s=None, axes=None, norm=None, overwrite_input=False, planner_effort=None, threads=None,
                auto_align_input=True, auto_contiguous=True):
            if not (isinstance(threads, int) and threads >= 1):
                raise ValueError("invalid number of threads")
            out = fct(np.array(a), s=s, axes=axes, norm=norm)
            _spoil(a, overwrite_input)
            return out
        return run

    cache = _module("pyfftw.interfaces.cache", enable=enable, disable=disable, set_keepalive_time=set_keepalive_time)
    num = _module("pyfftw.interfaces.numpy_fft", fftn=transform(np.fft.fftn), ifftn=transform(np.fft.ifftn))
    inter = _module("pyfftw.interfaces", cache=cache, numpy_fft=num)
    _module("pyfftw", byte_align=byte_align, interfaces=inter)


class Device(np.ndarray):
    """
    Array of the device: operations with arrays of the host are refused.
    """

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        for x in list(inputs) + list(out or ()):
            if type(x) is np.ndarray and x.ndim > 0:
                raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        plain = [x.view(np.ndarray) if isinstance(x, Device) else x for x in inputs]
        if out is not None:
            kwargs["out"] = tuple(x.view(np.ndarray) if isinstance(x, Device) else x for x in out)
        res = getattr(ufunc, method)(*plain, **kwargs)
        if out is not None:
            return out[0]
        return _device(res)

    def __array__(self, *args, **kwargs):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()`")

    def get(self):
        return np.ndarray.copy(self.view(np.ndarray))

    def __setitem__(self, key, val):
        if type(val) is np.ndarray and val.ndim > 0:
            raise TypeError("Unsupported type <class 'numpy.ndarray'>")
        np.ndarray.__setitem__(self, key, val)


def _device(res):
    if isinstance(res, tuple):
        return tuple(_device(x) for x in res)
    return np.asarray(res).view(Device) if isinstance(res, (np.ndarray, np.generic)) else res


def _host(x):
    return x.view(np.ndarray) if isinstance(x, Device) else x


def install_cupy():
    def on_device(fct):
        def run(*args, **kwargs):
            for x in args:
                if type(x) is np.ndarray and x.ndim > 0:
                    raise TypeError("Unsupported type <class 'numpy.ndarray'>")
            return _device(fct(*[_host(x) for x in args], **kwargs))
        return run

    def asarray(a, dtype=None):
        return np.array(_host(a), dtype=dtype).view(Device)

    def asnumpy(a):
        return np.array(_host(a))

    names = ["zeros", "ones", "empty", "arange", "unravel_index", "isin", "concatenate", "stack", "sum", "nonzero", "where"]
    fcts = {x: on_device(getattr(np, x)) for x in names}
    fcts["in1d"] = on_device(lambda a, b, **kwargs: np.isin(np.ravel(a), b, **kwargs))
    fft = _module("cupy.fft", fftn=on_device(np.fft.fftn), ifftn=on_device(np.fft.ifftn))
    _module("cupy", asarray=asarray, array=asarray, asnumpy=asnumpy, ndarray=Device, dtype=np.dtype, float64=np.float64,
            complex128=np.complex128, int64=np.int64, bool_=np.bool_, fft=fft, **fcts)


def install_pyamg():
    import scipy.sparse as sps
    import scipy.sparse.linalg as sla

    class Level:
        def __init__(self, mat):
            if not sps.issparse(mat) or mat.format not in ["csr", "bsr"]:
                raise TypeError("argument mat must have type csr_matrix or bsr_matrix")
            self.factor = sla.splu(mat.tocsc())

        def solve(self, b, x0=None, tol=1e-5, maxiter=100, cycle="V", accel=None):
            if not float(tol) > 0:
                raise ValueError("invalid tolerance")
            if accel not in [None, "cg", "gmres", "fgmres", "bicgstab"]:
                raise ValueError("invalid acceleration")
            return self.factor.solve(np.array(b))

    agg = _module("pyamg.aggregation", rootnode_solver=Level, adaptive_sa_solver=lambda mat: (Level(mat), 1.0))
    _module("pyamg", aggregation=agg)


def install_pardiso():
    import scipy.sparse as sps
    import scipy.sparse.linalg as sla

    def threads(n):
        if not (isinstance(n, int) and n >= 1):
            raise ValueError("invalid number of threads")

    class Solver:
        def __init__(self, A, matrix_type=None, factor=True, verbose=False):
            if not sps.issparse(A) or A.format != "csr":
                raise TypeError("matrix must be a csr matrix")
            self.dtype = A.dtype
            self.factor = sla.splu(A.tocsc())

        def solve(self, b, x=None, transpose=False):
            if np.iscomplexobj(b) and not np.issubdtype(self.dtype, np.complexfloating):
                raise TypeError("right-hand side is complex and the matrix is not")
            return self.factor.solve(np.array(b))

    sol = _module("pydiso.mkl_solver", set_mkl_pardiso_threads=threads, set_mkl_threads=threads, MKLPardisoSolver=Solver)
    _module("pydiso", mkl_solver=sol)


def install():
    """
    Install the stand-ins for the libraries which are missing.
    """

    import importlib.util
    for (name, fct) in [("mkl_fft", install_mkl), ("pyfftw", install_fftw), ("cupy", install_cupy),
                        ("pyamg", install_pyamg), ("pydiso", install_pardiso)]:
        if name not in sys.modules and importlib.util.find_spec(name) is None:
            fct()
