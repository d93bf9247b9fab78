"""Inverses as unknown functions of their argument, and sums over the nodes of a communicator: used by P13 and P14."""
from latmodel import *
INV = []
def _inv(d):
    for k in range(d.shape[0]):
        a = list(flat(d[k])); n = d.shape[-1]
        b = s_array('inv', (n, n), -4, 4, True)
        INV.append((a, b)); d[k] = b
if not pysym.NATIVE: sys.modules['triqs.gf.wrapped_aux']._gf_invert_data_in_place = _inv
else:
    def _ninv(d):
        for k in range(d.shape[0]): a = list(flat(d[k])); d[k] = np_.array([[1.0 / (1j + i + 2 * j) + sum(x * (q + 1) for q, x in enumerate(a)) for j in range(d.shape[-1])] for i in range(d.shape[-1])]); INV.append((a, d[k].copy()))
    sys.modules['triqs.gf.wrapped_aux']._gf_invert_data_in_place = _ninv
RANK = [0, 1]
MPI = load('triqs.utility.mpi')
def slice_array(A): n, p, i = len(A), RANK[1], RANK[0]; return A[n * i // p: n * (i + 1) // p]
MPI.slice_array = slice_array; MPI.all_reduce = lambda x: x.copy(); MPI.barrier = lambda *a: None; MPI.rank = 0; MPI.size = 1
def parallel(f, n):
    """run f once per node and add up what the nodes contribute; the inverses are those of all nodes in the order of the nodes"""
    INV.clear(); r = []
    for k in range(n): RANK[:] = [k, n]; r.append(f())
    RANK[:] = [0, 1]; return r
