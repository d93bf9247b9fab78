"""A model of triqs.lattice.lattice_tools: the lattice, the zone and the hoppings as the C++ classes store them (bravais_lattice and tight_binding are compiled)."""
from gfmodel import *
class BravaisLattice:
    def __init__(s, units, orbital_positions=[(0, 0, 0)], orbital_names=None):
        u = np_.array(units, dtype=float); s.ndim = len(u); s.units = np_.eye(3)
        for i in range(s.ndim):
            for j in range(s.ndim): s.units[i, j] = u[i, j]
        s.orbital_positions = [np_.array(p, dtype=float) for p in orbital_positions]; s.orbital_names = list(orbital_names) if orbital_names else [''] * len(s.orbital_positions); s.n_orbitals = len(s.orbital_names)
        if len(s.orbital_positions) != s.n_orbitals: raise RuntimeError('positions and names')
class BrillouinZone:
    def __init__(s, bl): s.bl = bl; s.units = bl.units
class TightBinding:
    def __init__(s, bl, hoppings):
        s.bl = bl; s.displ_vec = [np_.array(list(k), dtype=int) for k in hoppings]; s.overlap_mat_vec = [np_.array(v, dtype=complex) for v in hoppings.values()]; d = [tuple(int(x) for x in k) for k in s.displ_vec]
        for k, m in zip(s.displ_vec, s.overlap_mat_vec):
            if len(k) != bl.ndim: raise RuntimeError('displacement of incorrect size')
            if m.shape != (bl.n_orbitals, bl.n_orbitals): raise RuntimeError('matrix of incorrect size')
        for k in d:
            if tuple(-x for x in k) not in d: raise RuntimeError('opposite hopping vector cannot be found')
    def lattice_to_real_coordinates(s, x): n = s.bl.ndim; x = [x[i] for i in range(n)]; return np_.array([sum(x[i] * s.bl.units[i, j] for i in range(n)) for j in range(n)] + [0.0] * (3 - n))
    def fourier(s, k):
        k = np_.array(k)
        if k.ndim == 1: return sum(m * _phase(k, r) for r, m in zip(s.displ_vec, s.overlap_mat_vec))
        return np_.array([s.fourier(x) for x in k])
    def dispersion(s, k): raise NotImplementedError
def _phase(k, r): x = 2 * math.pi * sum(float(k[i]) * int(r[i]) for i in range(len(r))); return complex(math.cos(x), math.sin(x))
import math
stub('triqs.lattice.lattice_tools', BravaisLattice=BravaisLattice, BrillouinZone=BrillouinZone, TightBinding=TightBinding, dos=lambda *a: None, dos_patch=lambda *a: None)
stub('triqs.gf.gf_factories', make_hermitian=lambda g: g.copy()); BG = load('triqs.gf.block_gf'); G = sys.modules['triqs.gf']; DEP = ['DOS', 'DOSFromFunction']
for n, v in dict(Gf=Gf, BlockGf=BG.BlockGf, MeshImFreq=MeshImFreq, MeshBrZone=MeshBrZone, MeshCycLat=type('MeshCycLat', (_Mesh_ := MeshBrZone.__mro__[1],), {}), MeshPoint=MP, iOmega_n=D.iOmega_n, Omega=D.Omega, inverse=load('triqs.gf.tools').inverse).items(): setattr(G, n, v)
DOSM = load('triqs.dos.dos'); sys.modules['triqs.dos'].DOS = DOSM.DOS
