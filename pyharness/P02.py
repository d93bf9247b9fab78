"""P02: distribution of tasks over nodes."""
from pysym import *
import types
import sys, io
class Comm:
    """a communicator whose calls the entries answer"""
    def Get_rank(s): return 0
    def Get_size(s): return 1
    def barrier(s): mpi.log.append('barrier')
    def Ibarrier(s): mpi.log.append('barrier'); return types.SimpleNamespace(Test=lambda: True)
    def recv(s, source=0): return s.on_recv(source)
    def send(s, v, dest): s.on_send(v, dest)
    def irecv(s, source=0): return s.on_irecv(source)
W = Comm(); stub('mpi4py', MPI=types.SimpleNamespace(COMM_WORLD=W, SUM='SUM', Intracomm=Comm))
_e = sys.stderr; sys.stderr = io.StringIO(); mpi = load('triqs.utility.mpi_mpi4py'); sys.stderr = _e
STUBS['triqs.utility.mpi'] = mpi
D = load('triqs.utility.dist_on_nodes')
def tasks():
    n = s_pick('n', 0, 4 if not THOROUGH else 6); return [s_real('task') if not s_flag('none') else None for _ in range(n)]
def done(res, want, nodes=None):
    check(len(res) == len(want), 'every task is computed exactly once'); 
    for (node, (t, v)), w in zip(res, want): check(t is w and v is w, 'a result belongs to its own task'); check(nodes is None or node in nodes, 'a result knows its node')
class Stack(D.DistributionOnNodesOneStack):
    def the_function(s, x): s.calls = getattr(s, 'calls', 0) + 1; return (x, x)
class Treat(D.DistributionOnNodes):
    """tasks which add further tasks when their results come in"""
    def __init__(s, todo, more): s.todo = list(todo); s.more = list(more); s.got = []; s.asked = []
    def __next__(s): x = s.todo.pop(0); s.asked.append(x); return x
    def finished(s): return s.todo == []
    def the_function(s, x): return ('f', x)
    def treate(s, r, node): s.got.append((r, node)); s.todo += s.more[:1]; s.more = s.more[1:]
@entry
def h_one_process():
    """one process: the tasks are computed in the order of the stack"""
    mpi.size = 1; mpi.rank = 0; mpi.log = []; t = tasks(); d = Stack(list(t)); r = d.run(); done([(n, x) for n, x in r], [x for x in t if x is not None], [0]); check(d.finished(), 'all tasks are taken'); check(d.result() is r, 'the result stays available'); check(getattr(d, 'calls', 0) == len(r), 'every task is computed exactly once')
@entry
def h_dynamic():
    """one process: tasks added while others are treated"""
    mpi.size = 1; mpi.rank = 0; mpi.log = []; n = s_pick('n', 0, 3); m = s_pick('more', 0, 3); t = list(range(1, n + 1)); k = list(range(11, 11 + m)); d = Treat(t, k); d.run()
    want = t + (k if n else []); check([x for x in d.asked] == want, 'every task is computed exactly once'); check([r for r, _ in d.got] == [('f', x) for x in want], 'a result belongs to its own task'); check(all(n == 0 for _, n in d.got), 'a result knows its node')
@entry
def h_worker():
    """a worker computes what it is sent until the master tells it to stop"""
    mpi.size = 3; mpi.rank = s_pick('rank', 1, 2); mpi.log = []; t = tasks(); inbox = []; sent = []
    for x in t: inbox += [False, x]
    inbox.append(True); W.on_recv = lambda source: (check(source == 0, 'a worker talks to the master'), inbox.pop(0))[1]; W.on_send = lambda v, dest: sent.append((v, dest))
    d = Stack([]); d.run(); check(inbox == [], 'a worker takes every message'); check(len(sent) == len(t), 'a worker answers every task once')
    for ((r, rank), dest), x in zip(sent, t):
        check(dest == 0 and rank == mpi.rank, 'a worker talks to the master'); check((r is None) if x is None else (r is not None and r[0] is x), 'a result belongs to its own task')
    check(mpi.log == ['barrier'] * 2, 'all processes meet before and after the run')
@entry
def h_master():
    """several processes: the workers answer after any number of polls; every task is handed out and treated once"""
    n = s_pick('n', 0, 3); nw = s_pick('workers', 1, 2); mpi.size = nw + 1; mpi.rank = 0; mpi.log = []; t = list(range(1, n + 1)); box = {}; stopped = set(); handed = []
    def on_send(v, node):
        check(node not in stopped, 'a stopped worker gets no message')
        if isinstance(v, bool): 
            if v: stopped.add(node)
        else: box.setdefault(node, []).append(v); handed.append(v)
    class Req:
        def __init__(s, node): s.node = node; s.polls = s_pick('polls', 0, 1)
        def test(s):
            if s.polls: s.polls -= 1; return (False, None)
            x = box[s.node].pop(0); return (True, ((x, x), s.node))
    W.on_send = on_send; W.on_irecv = Req
    class OS:
        WNOHANG = 1
        def fork(s): return 4711
        def waitpid(s, pid, f): return (pid, 0)
        def _exit(s, c): pass
    D.os = OS(); D.time = types.SimpleNamespace(sleep=lambda t: None)
    r = Stack(list(t)).run(); check(len(handed) <= n and len(set(handed)) == len(handed), 'every task is computed exactly once')
