"""Planted changes, written from the property texts and the code. Used by mkseed.py only."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed('c01-float32-successor', 'C01',
     [('edpyt/sector.py', "        x = v + (unsiged_dt((v^x)/u)>>2)", "        x = v + (unsiged_dt(np.float32(v^x)/np.float32(u))>>2)")],
     'a carry run longer than 24 bits in one successor step (more than 25 orbitals nearly filled)',
     'the successor recurrence rounds, so large bases hold wrong words',
     '''
from edpyt.sector import generate_states
for n, p in ((6, 3), (28, 26), (30, 29), (32, 31)):
    s = np.asarray(generate_states(n, p), dtype=np.int64)
    assert s.tolist() == ref.words(n, p), (n, p)
''')

seed('c03-create-occupied', 'C03',
     [('edpyt/operators.py', '    assert s_out > s, "c^+ error : c^+|0,...1_pos,>"', '    assert s_out >= (unsigned_one<<pos), "c^+ error : c^+|0,...1_pos,>"')],
     'creating on an occupied orbital while a higher orbital is occupied',
     'c^+ on an occupied orbital is accepted and empties it',
     '''
from edpyt.operators import cdg
for s in range(32):
    for k in range(5):
        try:
            cdg(np.uint32(s), k, 5)
            done = True
        except AssertionError:
            done = False
        assert done == (not (s >> k) & 1), (s, k)
''')

seed('c04-z-index', 'C04',
     [('edpyt/ham_local.py', """            for i in range(n):
                res += (nup[i]-0.5)*(ndw[i]-0.5)*Vi[i]
                tmp = 0.
                for j in range(n):
                    tmp += Vij[i,j]*(nup[j]+ndw[j]-z[j])
                res += 0.5 * (nup[i]+ndw[i]-z[i]) * tmp
        else:
            for i in range(n):
                res += nup[i]*ndw[i]*Vi[i]""", """            for i in range(n):
                res += (nup[i]-0.5)*(ndw[i]-0.5)*Vi[i]
                tmp = 0.
                for j in range(n):
                    tmp += Vij[i,j]*(nup[j]+ndw[j]-z[i])
                res += 0.5 * (nup[i]+ndw[i]-z[i]) * tmp
        else:
            for i in range(n):
                res += nup[i]*ndw[i]*Vi[i]""")],
     'total-number basis, half-filling mode, a site-dependent z and an off-diagonal density interaction',
     'the background charge of the wrong site enters the density-density energy',
     '''
from edpyt.ham_local import build_ham_local
from edpyt.espace import build_empty_sector
rs = np.random.RandomState(3)
n = 3
H = np.array([np.diag(rs.uniform(-1, 1, n)) for _ in range(2)])
V = rs.uniform(0, 1, (n, n)); V = V + V.T
z = np.array([1., .5, 2.])
want = np.diag(ref.full_h(H, V, mu=.3, hf=True, z=z))
for N in range(2*n+1):
    got = np.asarray(build_ham_local(H, V, build_empty_sector(n, N), hfmode=True, mu=.3, z=z))
    assert np.allclose(got, want[ref.words(2*n, N)]), N
''')

seed('c05-threshold', 'C05',
     [('edpyt/ham_hopping.py', """        for j in range(n):
            if (i != j) and (abs(A[i,j]) > 1e-7):
                count += 1
    return count""", """        for j in range(n):
            if (i != j) and (A[i,j]*A[i,j] > 1e-7):
                count += 1
    return count"""),
      ('edpyt/ham_hopping.py', """            if (i != j) and (abs(A[i,j]) > 1e-7):
                sp_A.indices[count] = j""", """            if (i != j) and (A[i,j]*A[i,j] > 1e-7):
                sp_A.indices[count] = j""")],
     'a weak hopping, between 1e-7 and 3e-4',
     'weak off-diagonal couplings are dropped',
     '''
from edpyt.ham_hopping import build_ham_hopping
from edpyt.espace import build_empty_sector
T = np.array([[0., 1., 1e-4], [1., 0., .5], [1e-4, .5, 0.]])
H = np.array([T, T])
up, dw = build_ham_hopping(H, build_empty_sector(3, 1, 2))
F = ref.fock(3).onebody(T)
from scipy.sparse import csr_matrix
for m, p in ((up, 1), (dw, 2)):
    w = ref.words(3, p)
    assert np.allclose(csr_matrix((m.data, m.indices, m.indptr), shape=m.shape).toarray(), F[np.ix_(w, w)], atol=1e-12, rtol=0)
''')

seed('c06-pair-sign', 'C06',
     [('edpyt/ham_non_local.py', """                                sgn_dw, fdw = cdgc(sdw, i, j)
                                jdw = binsearch(states_dw, fdw)
                                Jndx = jdw * dup + jup
                                sp_mat.data[count] = sgn_up * sgn_dw * Jp.data[p]""", """                                _, fdw = cdgc(sdw, i, j)
                                jdw = binsearch(states_dw, fdw)
                                Jndx = jdw * dup + jup
                                # both electrons pass the same sites: the two signs cancel
                                sp_mat.data[count] = Jp.data[p]""")],
     'a pair hopping over a site that holds exactly one electron (three or more sites, sites not adjacent)',
     'the fermionic sign of the pair hopping is lost',
     '''
from edpyt.build_mb_ham import build_mb_ham
from edpyt.matvec_product import todense
from edpyt.espace import build_empty_sector
rs = np.random.RandomState(5)
n = 3
H = np.zeros((n, n)); U = np.zeros((n, n))
J = rs.uniform(.2, 1, (n, n)); J = J + J.T; np.fill_diagonal(J, 0)
ref.set_params()
F = ref.full_h(H, U, Jp=J)
for nup in range(n+1):
    for ndw in range(n+1):
        got = todense(*build_mb_ham(H.copy(), dict(U=U, Jp=J), build_empty_sector(n, nup, ndw)))
        assert np.allclose(got, ref.sector(F, n, nup, ndw)), (nup, ndw)
''')

seed('c07-unrolled-tail', 'C07',
     [('edpyt/cs_gaxpy.c', """      for (s = 0 ; s < n; s++)
        {
          y[i*n+s] += Ax [p] * x [Ai [p]*n+s] ;
        }
    }""", """      for (s = 0 ; s + 1 < n; s += 2)
        {
          y[i*n+s] += Ax [p] * x [Ai [p]*n+s] ;
          y[i*n+s+1] += Ax [p] * x [Ai [p]*n+s+1] ;
        }
      if (s < n) y[i*n+s] = Ax [p] * x [Ai [p]*n+s] ;
    }""")],
     'an odd number of up configurations with a row of two or more entries, or a non-zero result buffer',
     'the last up configuration is overwritten and not accumulated',
     '''
from scipy.sparse import csr_matrix
from edpyt import _psparse
rs = np.random.RandomState(1)
for nup in (1, 2, 3, 4, 5, 7):
    for ndw in (1, 3, 4):
        A = rs.uniform(-1, 1, (ndw, ndw)); v = rs.uniform(-1, 1, nup*ndw); r = rs.uniform(-1, 1, nup*ndw)
        want = r + np.kron(A, np.eye(nup)).dot(v)
        _psparse.DWmultiply(csr_matrix(A), v, r)
        assert np.allclose(r, want), (nup, ndw)
''')

seed('c08-adjust-tail', 'C08',
     [('edpyt/espace.py', """    for nup_, ndw_ in iter_keys:    
        isct = get_sector_index(n,nup_,ndw_)
        _decrease(isct)""", """    for nup_, ndw_ in iter_keys:    
        isct = get_sector_index(n,nup_,ndw_)
        if nup_ == nup: # same up content as the last retained sector
            _decrease(isct)""")],
     'retained sectors end before the last up content (screening drops all sectors with more up electrons)',
     'the requested counts of the absent trailing sectors stop being lowered',
     '''
from edpyt.espace import build_empty_sector, adjust_neigsector
n = 3
neig = np.full((n+1)*(n+1), 3)
esp = {}
for k in ((0, 1), (1, 1)):
    s = build_empty_sector(n, *k); s.eigvals = np.zeros(2); s.eigvecs = np.zeros((s.d, 2)); esp[k] = s
adjust_neigsector(esp, neig, n)
for a in range(n+1):
    for b in range(n+1):
        assert neig[a*(n+1)+b] == 2, (a, b, neig)
''')

seed('c09-rank-stride', 'C09',
     [('edpyt/observs.py', "states_dw[comm.rank*dwn_local:(comm.rank+1)*dwn_local], n, coeffs)", "states_dw[comm.rank::comm.size][:dwn_local], n, coeffs)")],
     'two or more ranks',
     'each rank counts its slice of the vector with the configurations of another slice',
     '''
from edpyt.observs import get_evecs_occupation
rs = np.random.RandomState(0)
n, nup, ndw = 4, 2, 2
up = np.array(ref.words(n, nup), np.uint32); dw = np.array(ref.words(n, ndw), np.uint32)
v = np.asfortranarray(rs.uniform(-1, 1, (36, 2)))
want = get_evecs_occupation(v.copy(order='F'), up, dw, n)
for size in (1, 2, 3):
    m = 36//size
    def f(comm, r):
        return get_evecs_occupation(np.asfortranarray(v[r*m:(r+1)*m]), up, dw, n, comm=comm)
    for a, b in ref.run_ranks(size, f):
        assert np.allclose(a, want[0]) and np.allclose(b, want[1]), size
''')

seed('c10-sign-shift-order', 'C10',
     [('edpyt/gf_lanczos.py', """    En -= Ei
    if sign<0:
        En *= -1.
    return En, q""", """    if sign<0:
        En *= -1.
    En -= Ei
    return En, q""")],
     'the spectral representation, the hole sign and a non-zero reference energy',
     'hole poles are shifted by twice the reference energy',
     '''
from edpyt.gf_lanczos import build_gf_coeff_sp, spectral
rs = np.random.RandomState(2)
a = rs.uniform(-1, 1, 6); b = rs.uniform(.3, 1, 6)
T = np.diag(a) + np.diag(b[1:], 1) + np.diag(b[1:], -1)
for E, sg in ((0., 1), (.7, 1), (0., -1), (.7, -1)):
    g = spectral(*build_gf_coeff_sp(a.copy(), b.copy(), E, 2., sg))
    e = np.linspace(-2, 2, 5)
    want = [2*b[0]**2*np.linalg.inv((z+.2j)*np.eye(6)-sg*(T-E*np.eye(6)))[0, 0] for z in e]
    assert np.allclose(g(e, .2), want), (E, sg)
''')

seed('c11-partition', 'C11',
     [('edpyt/gf_exact.py', """        exponents = np.exp(-beta*EJ) + np.exp(-beta*EI)
        bJ = project_exact(pos, n, cdg, sctI, sctJ)""", """        exponents = np.exp(-beta*EJ) + np.exp(-beta*EI)
        Z += np.exp(-beta*EI).sum()
        bJ = project_exact(pos, n, cdg, sctI, sctJ)"""),
      ('edpyt/gf_exact.py', """    lambdas = []
    qs = []""", """    lambdas = []
    qs = []
    # Partition function (Z)
    Z = 0."""),
      ('edpyt/gf_exact.py', """    # Partition function (Z)
    Z = sum(np.exp(-beta*(sct.eigvals-egs)).sum() for
        (nup, ndw), sct in espace.items())

    # qs""", """    # qs""")],
     'a temperature at which the sectors filled with the addressed spin carry weight',
     'the partition function leaves out the sectors to which no electron can be added',
     '''
from edpyt.espace import build_espace
from edpyt.gf_exact import build_gf_exact
ref.set_params()
H = np.array([[-.5, .3], [.3, .2]]); U = np.diag([1., 0.])
for beta in (1., 3.):
    esp, egs = build_espace(H.copy(), U, None)
    for s in (0, 1):
        g = build_gf_exact(H.copy(), U, esp, beta, egs, 0, s)
        w = 1e6
        assert abs(1j*w*g(np.array([0.]), w)[0] - 1) < 1e-4, (beta, s)
''')

seed('c12-reference-energy', 'C12',
     [('edpyt/gf_lanczos.py', """                    gfh.add(
                        gf_kernel,
                        *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
                    )""", """                    gfh.add(
                        gf_kernel,
                        *build_gf_coeff(aJ, bJ, egs, exponents[iL], sign=-1)
                    )""")],
     'retained excited states (finite temperature) and an arrival sector larger than 10 states',
     'hole excitations of excited states are measured from the ground state energy',
     '''
from edpyt.espace import build_espace
from edpyt.gf_lanczos import build_gf_lanczos
from edpyt.gf_exact import build_gf_exact
ref.set_params()
rs = np.random.RandomState(4)
n = 3
H = ref.rmat(rs, n, 0.); U = np.diag([2., 1., .5])
# four sites give arrival sectors above 10 states
n = 4
H = ref.rmat(rs, n, 0.); U = np.diag([2., 1., .5, 0.])
esp, egs = build_espace(H.copy(), U, None)
e = np.linspace(-2, 2, 5)
g0 = build_gf_exact(H.copy(), U, esp, 2., egs)(e, .3)
sub = {k: v for k, v in esp.items()}
g1 = build_gf_lanczos(H.copy(), U, sub, 2., egs)(e, .3)
assert np.allclose(g0, g1, atol=1e-6), abs(g0-g1).max()
''')

seed('c14-coeff-abs', 'C14',
     [('edpyt/observs.py', """            contract_up = lambda iup: np.einsum('i,ji,ij->i',coeffs,evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)""",
       """            contract_up = lambda iup: np.einsum('i,ji,ij->i',coeffs,evecs[:,iup%dwn,:] if dup==dwn else evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)"""),
      ('edpyt/observs.py', """            contract_dw = lambda idw: np.einsum('i,ji,ij->i',coeffs,evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)""",
       """            contract_dw = lambda idw: np.einsum('i,ji,ij->i',coeffs,evecs[idw,:,:] if dup==dwn else evecs[idw,:dup-1,:],evecs[idw,:,:].T[:,:] if dup==dwn else evecs[idw,:dup-1,:].T,out=occps,optimize=True)""")],
     'weighted counting, row-major vectors and a sector with different numbers of up and down configurations',
     'the last up configuration is left out of the down occupations',
     '''
from edpyt.observs import get_evecs_occupation
rs = np.random.RandomState(0)
n = 3
for nup in range(n+1):
    for ndw in range(n+1):
        up = np.array(ref.words(n, nup), np.uint32); dw = np.array(ref.words(n, ndw), np.uint32)
        d = up.size*dw.size
        v = rs.uniform(-1, 1, (d, 3)); c = np.array([.2, 1., .5])
        a, b = get_evecs_occupation(np.ascontiguousarray(v), up, dw, n, c)
        p = (v**2).reshape(dw.size, up.size, 3)
        for k in range(n):
            assert np.allclose(b[k], c*np.einsum('dui,d->i', p, (dw >> np.uint32(k)) & 1)), (nup, ndw)
            assert np.allclose(a[k], c*np.einsum('dui,u->i', p, (up >> np.uint32(k)) & 1)), (nup, ndw)
''')

seed('c17-c-hopping-floor', 'C17',
     [('edpyt_backend/bath.c', "        vk[j] = MAX(0.1, 1/sqrt((double)nbath));", "        vk[j] = 1/sqrt((double)nbath);")],
     'more than 100 bath sites',
     'the lower bound of the initial hoppings is lost in the C version',
     '''
import subprocess, ctypes, tempfile, shutil, glob
t = tempfile.mkdtemp()
try:
    for f in glob.glob('edpyt_backend/*.c') + glob.glob('edpyt_backend/*.h'):
        if os.path.basename(f) != '_fit.c':
            shutil.copy(f, t)
    subprocess.check_call('gcc -O1 -fpic -shared -w *.c -o libx.so -lm', shell=True, cwd=t)
    lib = ctypes.CDLL(t + '/libx.so')
    from edpyt.fit_cg import get_initial_bath
    for nb in (1, 2, 5, 8, 99, 100, 101, 144):
        x = np.zeros(2*nb)
        ctypes.c_int.in_dll(lib, 'nbath').value = nb
        lib.init_bath(x.ctypes.data_as(ctypes.c_void_p))
        assert np.allclose(x, get_initial_bath(nbath=nb)), nb
        assert np.allclose(x[nb:], max(.1, nb**-.5)), nb
finally:
    shutil.rmtree(t)
''')

seed('c16-line-search-exit', 'C16',
     [('edpyt_backend/dbrent.c', """			if (fu > fx) {
				*xmin = x;
				return fx;
			}""", """			if (fu > fx) {
				*xmin = u;
				return fx;
			}""")],
     'a line search that ends because the smallest step goes up',
     'the returned abscissa is not the one the returned value belongs to',
     '''
import subprocess, ctypes, tempfile, shutil, glob
t = tempfile.mkdtemp()
try:
    for f in glob.glob('edpyt_backend/*.c') + glob.glob('edpyt_backend/*.h'):
        if os.path.basename(f) != '_fit.c':
            shutil.copy(f, t)
    with open(t + '/drv.c', 'w') as fh:
        fh.write("""
#include <stdio.h>
#include <math.h>
#include "header.h"
int k;
static double F(double x){ return k==0 ? pow(x-.3,2) : k==1 ? fabs(x-.3) : k==2 ? cosh(x-1.1)+.2*sin(5*x) : pow(x-2,4)+x; }
static double D(double x){ return k==0 ? 2*(x-.3) : k==1 ? (x>.3?1:-1) : k==2 ? sinh(x-1.1)+cos(5*x) : 4*pow(x-2,3)+1; }
int main(){ int bad=0; for(k=0;k<4;k++) for(int j=0;j<40;j++){ double a=-2.-.1*j,b=.5+.013*j,c=4.+.07*j,x,f;
 if(!(F(b)<F(a)&&F(b)<F(c))) continue;
 f=dbrent(a,b,c,F,D,2e-4,&x); if(f!=F(x)) bad++; } return bad?1:0; }
""")
    subprocess.check_call('gcc -O1 -w *.c -o d -lm', shell=True, cwd=t)
    assert subprocess.call([t + '/d']) == 0
finally:
    shutil.rmtree(t)
''')

seed('c18-fermi-cut', 'C18',
     [('edpyt/sqtnl.py', """def nF(x):
    if x > 1e2:
        return 0.""", """def nF(x):
    if x > 1e1:
        return 0.""")],
     'an excitation more than ten thermal energies away from the chemical potential',
     'exponentially small rates vanish, so detailed balance fails and states decouple',
     '''
from edpyt.espace import build_espace
from edpyt.sqtnl import build_transition_elements, build_rate_and_transition_matrices
ref.set_params()
H = np.diag([-.8, -.6]); U = np.diag([1., 1.2])
esp, egs = build_espace(H.copy(), U, None, symmetry='N')
gd = build_transition_elements(2, esp, 1, egs)
beta = 30.
A = np.ones((2, 2))
W, T = build_rate_and_transition_matrices(gd, beta, [0., 0.], A, 0, 1, False)
for (f, i), w in W.items():
    if f == i:
        continue
    Ei = esp[i[:1]].eigvals[i[1]]; Ef = esp[f[:1]].eigvals[f[1]]
    a, b = W[f, i], W[i, f]
    if a > 1e-300 or b > 1e-300:
        assert abs(a*np.exp(-beta*(Ei-egs)) - b*np.exp(-beta*(Ef-egs))) <= 1e-9*max(a*np.exp(-beta*(Ei-egs)), b*np.exp(-beta*(Ef-egs))), (f, i)
''')

seed('c19-flip-sign', 'C19',
     [('edpyt/cotunneling.py', """    sgnI = (-1.)**ndwI if ispin_j==0 else 1. 
    sgnJ = (-1.)**ndwJ if ispin_i==0 else 1.
    v_JI = np.empty""", """    sgnI = (-1.)**ndwI if ispin_j==0 else 1. 
    sgnJ = (-1.)**ndwI if ispin_i==0 else 1.
    v_JI = np.empty""")],
     'a spin-flip process with both an electron and a hole path',
     'the electron path of spin-flip processes has the wrong sign relative to the hole path',
     '''
from edpyt.espace import build_espace
from edpyt.cotunneling import build_transition_elements
ref.set_params()
H = np.array([[-1., .1], [.1, -1.3]]); U = np.diag([3., 3.5])
esp, egs = build_espace(H.copy(), U, None)
sd = build_transition_elements(2, egs, esp)
A = np.array([[1., .5], [.3, .8]])
n = 2
F = ref.fock(2*n)
def vec(k, j):
    v = np.zeros(F.D); v[ref.spin_index(n, *k)] = esp[k].eigvecs[:, j]
    return v
z = np.array([.2])
def path(f, i, si, sj, ex, inj):
    tot = 0.
    a = sum(A[ex][k]*F.Cd[k+sj*n] for k in range(n)); b = sum(A[inj][k]*F.C[k+si*n] for k in range(n))
    return a, b
# relative sign of <f|c_si|m+><m+|c+_sj|i> and <f|c+_sj|m-><m-|c_si|i> is basis independent
done = 0
for (idF, idI), sl in sd.items():
    for s in sl:
        if not hasattr(s, 'gf2h'):
            continue
        dS = (idF[0]-idI[0], idF[1]-idI[1])
        if dS == (0, 0):
            continue
        si, sj = (0, 1) if dS == (-1, 1) else (1, 0)
        vf, vi = vec(idF[:2], idF[2]), vec(idI[:2], idI[2])
        e = s.gf2e.y(A[1], A[0]).sum(); h = s.gf2h.y(A[0], A[1]).sum()
        a, b = path(idF, idI, si, sj, 0, 1)
        E = vf.dot(b.dot(a.dot(vi))); Hh = vf.dot(a.dot(b.dot(vi)))
        if abs(E*Hh) > 1e-9:
            assert np.sign(E*Hh) == np.sign(e*h), (idF, idI, E, Hh, e, h)
            done += 1
assert done
''')

seed('c20-window-cut', 'C20',
     [('edpyt/cotunneling.py', """        if (beta*z)>1e3:
            return 0.""", """        if (beta*z)>1e1:
            return 0.""")],
     'a window argument more than ten thermal energies above zero',
     'the thermal window is cut to zero where it is small but finite',
     '''
from edpyt.cotunneling import _Sigma
for beta in (1., 20.):
    for x in (-30., -3., .5, 8., 12., 60.):
        z = x/beta
        assert abs(_Sigma.G(beta, z) - z/np.expm1(x)) <= 1e-12*z/np.expm1(x), (beta, x)
''')

seed('c22-limit', 'C22',
     [('edpyt/dmft.py', """        self.it += 1
        if self.it > self.max_iter:
            raise FailedToConverge("Failed to converge!")
        return delta_new""", """        if self.it > self.max_iter:
            raise FailedToConverge("Failed to converge!")
        self.it += 1
        return delta_new""")],
     'a run that uses up its iterations',
     'failure is signalled one iteration too late',
     '''
from edpyt import dmft
import types
class Imp:
    nmats, beta = 4, 10.
class Loop(dmft.DMFT):
    def step(self, delta):
        return 1., delta - 1j
loc = types.SimpleNamespace(mu=0.)
import io, contextlib
for m in (0, 1, 3):
    d = Loop(Imp(), loc, max_iter=m, tol=1e-9)
    x = -1j*np.ones(4); n = 0
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            while n < 20:
                x = d(x); n += 1
        except dmft.FailedToConverge:
            pass
    assert n == m, (m, n)
''')

seed('c23-mu-restore', 'C23',
     [('edpyt/integrate_gf.py', """    gf.mu = mu_old
    
    return n""", """    if np.isscalar(mu_old):
        gf.mu = mu_old
    
    return n""")],
     'a Green function whose own chemical potential is an array (one per site)',
     'the integration leaves its trial chemical potential in the Green function',
     '''
from edpyt.integrate_gf import matsum_gf
class G:
    mu = np.array([.1, .2])
    def __call__(self, z):
        return 1./(z[None, :] + np.reshape(self.mu*np.ones(2), (2, 1)) - np.array([[.3], [-.2]]))
g = G(); m = g.mu
n = matsum_gf(g, mu=.4, nmats=2000, beta=20.)
assert g.mu is m, g.mu
assert np.allclose(n, 1/(np.exp(20.*(np.array([.3, -.2])-.4))+1), atol=1e-3)
''')

seed('c24-weight-found', 'C24',
     [('edpyt/dedlib_dev.py', """            if np.allclose(N1,N0):
                found = True
""", """            if np.allclose(N1,N0):
                found = True
                Q += 1.
"""),
      ('edpyt/dedlib_dev.py', """            imp_entropy += get_entropy(gfimp,espace,egs,beta)*qv
            Q += qv
""", """            imp_entropy += get_entropy(gfimp,espace,egs,beta)*qv
""")],
     'a temperature high enough for a rejected sample to carry weight',
     'the averages are divided by the number of accepted samples while rejected ones are added with their weight',
     '''
from edpyt import dedlib_dev as D
import random
from edpyt.espace import build_espace
ref.set_params()
calls = []
orig = D.get_occupation
def rec(espace, egs, beta, pos):
    r = orig(espace, egs, beta, pos); calls.append((r, espace, egs)); return r
D.get_occupation = rec
z = np.linspace(-2, 2, 11) + .05j
for seed in range(6):
    random.seed(seed)
    del calls[:]
    rng = random.Random(seed)
    s, o0, o1, S = D.ded_solve(lambda e: np.ones_like(e), z, n=3, N=3, U=4., beta=.7, rng=rng, sigma0=.4)
    num = den = 0.
    for (a, e0, g0), (b, e1, g1) in zip(calls[::2], calls[1::2]):
        N0 = next(k for k, v in e0.items() if abs(v.eigvals[0]-g0) < 1e-7)
        N1 = next(k for k, v in e1.items() if abs(v.eigvals[0]-g1) < 1e-7)
        q = np.exp(-.7*abs(e1[N1].eigvals.min()-e1[N0].eigvals.min()))
        num += b*q; den += q
    assert abs(o1-num/den) < 1e-9, (seed, o1, num/den)
''')

seed('c21-symmetrize-alias', 'C21',
     [('edpyt/dmft.py', "        self.dw.Delta.x[:] = self.up.Delta.x[:]", "        self.dw.Delta.x = self.up.Delta.x")],
     'a magnetic start (spin_symmetrize) followed by separate fits of the two spins',
     'after symmetrising, both spins share one array of bath parameters, so fitting one moves the bath of the other',
     '''
from edpyt import dmft
g = dmft.SpinGfimp(4, nmats=40, U=2., beta=20.)
z = 1j*(2*np.arange(40)+1)*np.pi/20.
d = lambda e, v: v**2/(z-e)
g.fit(np.stack([d(.3, .4), d(.3, .4)]))
g.spin_symmetrize()
g.fit(np.stack([d(.5, .6), d(-.4, .3)]))
g.update(.2)
for s in range(2):
    n = 4
    H = g[s].H
    want = (H[0, 1:]**2/(z[:, None]-np.diag(H)[1:])).sum(1)
    assert np.allclose(g[s].Delta(z), want), s
    assert np.allclose(g[s].free(z), 1/(z+.2-want)), s
''')

seed('c02-swar-count', 'C02',
     [('edpyt/lookup.py', """    bits = 0
    for i in range(n):
        bits += (s>>i)&unsiged_dt(1)
    return bits
""", """    s = s & unsiged_dt((1<<n)-1)
    s = (s & unsiged_dt(0x55555555)) + ((s>>unsiged_dt(1)) & unsiged_dt(0x55555555))
    s = (s & unsiged_dt(0x33333333)) + ((s>>unsiged_dt(2)) & unsiged_dt(0x33333333))
    s = (s + (s>>unsiged_dt(4))) & unsiged_dt(0x07070707)
    s = s + (s>>unsiged_dt(8))
    return (s + (s>>unsiged_dt(16))) & unsiged_dt(0x3f)
""")],
     'eight neighbouring occupied orbitals that fill one byte of the word',
     'the bit count misses a byte that is completely occupied',
     '''
from edpyt.lookup import count_bits
for n in (8, 9, 16, 17, 20):
    for s in [(1 << n)-1, 255, 255 << max(0, n-8), 170, 1] + [((37*k*k+11*k) % (1 << n)) for k in range(300)]:
        assert int(count_bits(np.uint32(s), n)) == bin(s & ((1 << n)-1)).count('1'), (s, n)
''')

seed('c15-hopping-sign', 'C15',
     [('edpyt/fit_cg.py', "            out[i,j+ek.size] = 2*vk[j] / (z[i]-ek[j])", "            out[i,j+ek.size] = 2*vk2[j]**0.5 / (z[i]-ek[j])")],
     'a negative hopping among the parameters',
     'the derivative with respect to a negative hopping has the wrong sign',
     '''
from edpyt.fit_cg import Delta, DDelta, Chi2, dChi2
z = 1j*(2*np.arange(30)+1)*np.pi/10.
t = .3/(z-.2)
for p in (np.array([-.5, .4, .3, .2]), np.array([-.5, .4, .3, -.2]), np.array([-.5, .4, -.3, -.2])):
    p0 = p.copy()
    c, d = Chi2(Delta(z), t), dChi2(Delta(z), DDelta(z, 4), t)
    g = np.array(d(p)).copy()
    for k in range(4):
        e = np.zeros(4); e[k] = 1e-5
        num = (c(p0+e)-c(p0-e))/2e-5
        assert abs(num-g[k]) < 1e-6, (p0, k, num, g[k])
''')

seed('c13-deflated-partner', 'C13',
     [('edpyt/lanczos.py', "                vd.append(vl[0])", "                vd.append(vl[-1])")],
     'a block start where one candidate is dropped although its residual is small but not zero (inexact deflation in the middle of the run)',
     'the vector remembered at a deflation is the wrong one, so the later vectors lose orthogonality and the block matrix is not V^T A V',
     '''
from edpyt.lanczos import build_bd_tridiag
rng = np.random.RandomState(1)
for d1, d2 in ((3, 9), (4, 8), (2, 7)):
    N = d1+d2
    A = np.zeros((N, N))
    M = rng.randn(d1, d1); A[:d1, :d1] = M+M.T
    M = rng.randn(d2, d2); A[d1:, d1:] = M+M.T
    C = rng.randn(N, N); A = A+1e-3*(C+C.T)
    x, y = np.zeros(N), np.zeros(N)
    x[:d1] = rng.randn(d1)
    y[d1:] = rng.randn(d2)
    V = []
    def mv(v):
        V.append(v.copy())
        return A.dot(v)
    T = build_bd_tridiag(mv, [x, y], maxn=N, delta=.05, tol=0, ND=1000)
    n = T.shape[0]; W = np.array(V[:n])
    assert abs(W.dot(W.T)-np.eye(n)).max() < 1e-8, (d1, d2)
    assert abs(W.dot(A).dot(W.T)-T).max() < 1e-8, (d1, d2)
''')
