"""P01: splitting of work over MPI processes, and the serial fall-back."""
from pysym import *
import types
class World:
    def __init__(s): s.sent = []; s.box = {}
    def Get_rank(s): return 0
    def Get_size(s): return 1
class MPIMod: pass
class Intracomm: pass
W = World()
stub('mpi4py', MPI=types.SimpleNamespace(COMM_WORLD=W, SUM='SUM', MAX='MAX', Intracomm=Intracomm))
import sys, io
_e = sys.stderr; sys.stderr = io.StringIO(); M = load('triqs.utility.mpi_mpi4py'); N = load('triqs.utility.mpi_nompi'); sys.stderr = _e
def world():
    M.size = s_pick('size', 1, 16 if not THOROUGH else 100); M.rank = s_int('rank', 0); assume(M.rank < M.size)
@entry
def h_slices():
    """ranges of any position and length, any number of processes"""
    world(); lo = s_int('imin'); n = s_int('n', 0); hi = lo + n - 1
    a = M.slice_inf(lo, hi); b = M.slice_sup(lo, hi); size, rank = M.size, M.rank
    check(b - a + 1 >= 0, 'a slice has no negative length'); check(AND(lo <= a, b <= hi), 'a slice is inside of the range')
    check(AND((b - a + 1) * size < n + size, (b - a + 1) * size > n - size), 'slice lengths differ by at most one')
    check(implies(rank == 0, a == lo), 'the first slice starts the range'); check(implies(rank == size - 1, b == hi), 'the last slice ends the range')
    M.rank = rank + 1
    if M.rank < size:
        c = M.slice_inf(lo, hi); d = M.slice_sup(lo, hi); check(c == b + 1, 'slices follow one another'); check(d - c <= b - a, 'earlier slices are not shorter')
@entry
def h_slice_array():
    n = s_int('n', 0, 9 if not THOROUGH else 14); n = n.__index__(); M.size = s_int('size', 1, 5 if not THOROUGH else 8).__index__(); A = arr([s_real('a') for _ in range(n)]) if n else np_.zeros(0)
    got = []
    for r in range(M.size):
        M.rank = r; v = M.slice_array(A); check(np_.shares_memory(v, A) or len(v) == 0, 'a slice is a view'); got += list(v)
    check(len(got) == n, 'the slices cover the array'); [check(x == y, 'the slices cover the array') for x, y in zip(got, A)]
    v = N.slice_array(A); check(v is A, 'serial: the whole array')
@entry
def h_slice_2d():
    n = s_pick('n', 1, 5); m = s_pick('m', 1, 3); M.size = s_pick('size', 1, 4); A = s_array('a', (n, m)); got = []
    for r in range(M.size):
        M.rank = r; v = M.slice_array(A); check(v.shape[1] == m, 'slices are along the first dimension'); got += list(v.flat)
    check(len(got) == n * m, 'the slices cover the array'); [check(x == y, 'the slices cover the array') for x, y in zip(got, A.flat)]
@entry
def h_master():
    world(); check((M.rank == 0) == M.is_master_node() if not NATIVE else (M.rank == 0) == M.is_master_node(), 'the master is the first process'); check(N.is_master_node() is True, 'serial: the only process is the master')
@entry
def h_serial():
    x = s_real('x'); check(N.bcast(x) is x and N.bcast(x, root=0) is x, 'serial: a broadcast leaves the data unchanged'); check(N.all_reduce(x) is x, 'serial: a reduction leaves the data unchanged'); check(N.all_reduce(x, op=max) is x, 'serial: a reduction leaves the data unchanged')
    check(N.all_reduce(N.world, x, lambda a, b: a + b) is x, 'serial: a reduction called the old way leaves the data unchanged'); check(N.barrier() is None, '!barrier'); check(N.size == 1 and N.rank == 0, 'serial: one process')
@entry
def h_serial_send():
    """a message sent to oneself is received once, in this order"""
    N._sendval = None; check(throws(N.recv), 'serial: nothing to receive'); x, y = s_real('x'), s_real('y')
    N.send(x, 0); r = N.recv(0); check(r is x, 'serial: a message is received'); check(throws(N.recv), 'serial: a message is received once'); N.send(y, dest=0); check(N.recv(source=0) is y, 'serial: a message is received')
@entry
def h_forward():
    """the parallel module hands every call to the communicator with all of its arguments"""
    class C:
        def __init__(s): s.log = []
        def bcast(s, x, root=0): s.log.append(('bcast', x, root)); return 'b'
        def send(s, v, dest): s.log.append(('send', v, dest))
        def recv(s, source=0): s.log.append(('recv', source)); return 'r'
        def barrier(s): s.log.append(('barrier',))
        def Ibarrier(s):
            s.log.append(('ibarrier',)); n = s_pick('polls', 0, 3)
            class R:
                k = 0
                def Test(q): q.k += 1; return q.k > n
            s.req = R(); return s.req
        def allreduce(s, x, op='SUM'): s.log.append(('allreduce', x, op)); return 'a'
    c = M.world = C(); x = s_real('x'); root = s_int('root', 0, 9); 
    check(M.bcast(x, root) == 'b' and c.log[-1][1] is x and c.log[-1][2] is root, 'a broadcast is made by the communicator'); M.send(x, root); check(c.log[-1][1] is x and c.log[-1][2] is root, 'a message goes to its destination'); check(M.recv(root) == 'r' and c.log[-1][1] is root, 'a message comes from its source')
    M.time = types.SimpleNamespace(sleep=lambda t: None); M.barrier(0); check(c.log[-1] == ('barrier',), 'a barrier waits for all processes'); M.barrier(); check(c.req.k >= 1 and c.req.Test(), 'a barrier waits for all processes')
    check(M.all_reduce(x, comm=c) == 'a' and c.log[-1][1] is x and c.log[-1][2] == 'SUM', 'a reduction is made by the communicator'); M.all_reduce(x, c, 'MAX'); check(c.log[-1][2] == 'MAX', 'a reduction is made by the communicator')
@entry
def h_hosts():
    """the master knows the name of every host"""
    n = s_pick('size', 1, 4); names = ['h%d' % i for i in range(n)]; import socket, contextlib, io
    class C:
        def recv(s, source=0): return names[source]
        def Ibarrier(s): return types.SimpleNamespace(Test=lambda: True)
        def barrier(s): pass
        def send(s, v, dest): s.sent = (v, dest)
    M.world = C(); M.size = n; M.rank = 0; M.HostNames = {}; g = socket.gethostname; socket.gethostname = lambda: names[0]
    try:
        with contextlib.redirect_stdout(io.StringIO()): M.master_gets_host_names()
    finally: socket.gethostname = g
    check(M.HostNames == {i: names[i] for i in range(n)}, 'the master knows every host')
