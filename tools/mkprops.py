#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
E='edpyt/'
prop('C01','Sector bases enumerate every configuration exactly once, in order',
 'For every number of orbitals n (up to the 32-bit width, spin orbitals included) and particle number p in 0..n, the generated sector basis contains exactly C(n,p) bit patterns, each with p set bits and none above orbital n, strictly increasing. Reported sector and per-sector eigenvalue dimensions are the products of binomials of that size (clipped at the requested maximum when one is given), and a sector built from (nup, ndw) or from a total particle number has the dimension and bases of that particle content.',
 ['inputs','configurations'],'all (n, p) with p<=n and bases that fit 32-bit words; all (n, nup, ndw), both symmetries',
 'the tests look at a few sectors with n<=4; a wrong successor in the bit-permutation recurrence, a rounding of binom or an overflow at larger n is never reached',
 [E+'sector.py',E+'espace.py'],
 [('bit-permutation successor',E+'sector.py:permutations'),('basis generation',E+'sector.py:generate_states'),('dimensions',E+'sector.py:get_sector_dim, '+E+'espace.py:get_espace_dim, build_empty_sector')],
 [('states','ascending uint32 basis of a spin sector',E+'sector.py')],['generate_states(n,p)','get_sector_dim','get_espace_dim','build_empty_sector'])
prop('C02','Index maps, bit encodings and lookups are exact inverses',
 'Encoding a configuration as bits and decoding it gives it back; splitting a product-basis index into (up, down) and recombining gives it back, and so do sector numbers and their (nup, ndw) pair, over the whole range. Looking a configuration up in a sorted basis returns its exact position if it is there and -1 if not; the bit count of a word over n orbitals is its number of occupied orbitals.',
 ['inputs'],'all words, all bases, all index values in range',
 'lookups are only exercised through a few small Hamiltonians; absent elements, first/last positions, one-element bases and the bit-order of the decoder are not sampled',
 [E+'lookup.py'],
 [('binary search',E+'lookup.py:binsearch'),('bit encoding',E+'lookup.py:binrep, intrep, count_bits'),('index arithmetic',E+'lookup.py:get_spin_indices, get_state_index, get_num_spins, get_sector_index')],
 (),['binsearch','binrep/intrep','get_spin_indices/get_state_index','get_num_spins/get_sector_index'])
prop('C03','Fermion operators obey the canonical anticommutation relations',
 'On bit-encoded configurations the creation and annihilation operators move exactly the addressed orbital, carry a sign of +1/-1, are adjoint to each other, satisfy {c_i, c+_j} = delta_ij and {c_i, c_j} = {c+_i, c+_j} = 0, and refuse to act on an orbital in the wrong state; occupation tests report exactly the addressed bit. The combined hop c+_i c_j returns the same configuration and the same sign as applying c_j and then c+_i, in either order of i and j.',
 ['inputs'],'every 32-bit configuration, every pair of orbitals, every number of orbitals n<=32',
 'tests apply the operators to a handful of 4-orbital words; sign errors that need a particular arrangement of occupied orbitals between or beyond i and j do not show',
 [E+'operators.py'],
 [('flip',E+'operators.py:flip'),('sign string',E+'operators.py:fsgn, get_parity'),('operators',E+'operators.py:c, cdg, cdgc, check_full, check_empty')],
 (),['c','cdg','cdgc','check_full','check_empty'])
prop('C04','Diagonal Hamiltonian equals the density-density energy of each state',
 'For every configuration of a sector the diagonal Hamiltonian entry equals sum_i,s (H_s,ii + mu) n_is + sum_i V_ii n_iup n_idw + 1/2 sum_{i!=j} V_ij (n_i - z_i)(n_j - z_j), with the half-filled form (n_up-1/2)(n_dw-1/2) of the onsite term and z=1 by default when the half-filling mode is on, for both the separate-spin and the total-number bases. The non-interacting spectrum builder and its onsite helper follow the same definition (sum of occupied onsite energies, double-occupancy energy and constant shift), and inputs are not modified.',
 ['inputs','configurations'],'all H (spin dependent or not), V, mu, z, both modes, both symmetries, all configurations',
 'tests compare one or two parameter sets with V diagonal and hfmode off; mu, z, off-diagonal V, spin-dependent onsite energies and the total-number branch are not sampled',
 [E+'ham_local.py',E+'build_mb_ham.py',E+'espace.py'],
 [('separate-spin diagonal',E+'ham_local.py:_build_ham_local'),('total-number diagonal',E+'ham_local.py:_N_build_ham_local'),('defaults',E+'ham_local.py:build_ham_local'),('onsite sums',E+'build_mb_ham.py:add_onsites, sum_diags_contrib')],
 (),['build_ham_local','add_onsites','build_non_interacting_espace'])
prop('C05','Hopping operators are the exact second-quantised one-body hopping',
 'For a real symmetric hopping T, in every sector the up and down hopping matrices have entry <f|sum_{i!=j} T_ij c+_i c_j|s> for every pair of basis states, with the fermionic sign and with off-diagonal couplings of magnitude at most 1e-7 dropped and no other term lost or added; the storage is exactly filled. The result is a symmetric matrix, the off-diagonal compression of any matrix keeps exactly its significant off-diagonal entries in row order, and the product-space form acts on the addressed spin only.',
 ['inputs','configurations'],'all symmetric T (zero couplings included, spin dependent), all n, nup, ndw',
 'tests use one or two chains; sectors that are empty or full, spin-dependent hoppings, and zero couplings are not sampled',
 [E+'ham_hopping.py'],
 [('off-diagonal compression',E+'ham_hopping.py:count_nnz_offdiag, nnz_offdiag_csrmat'),('row assembly',E+'ham_hopping.py:add_hoppings'),('sector assembly',E+'ham_hopping.py:build_ham_hopping, UpHopping, DwHopping')],
 [('cs_type','CSR triple data/indptr/indices',E+'ham_hopping.py')],['build_ham_hopping(...).todense()'])
prop('C06','Exchange and pair-hopping terms equal their second-quantised definition',
 'For real symmetric couplings the non-local interaction of a sector equals sum_{i!=j} of 1/2 Jx_ij sum_ss\' c+_is c+_js\' c_is\' c_js plus 1/2 Jp_ij sum_s c+_is c+_i-s c_j-s c_js, restricted to the sector, diagonal parts included, for either or both couplings present. The separate-spin and the total-number constructions give the same symmetric operator, and the spectrum is independent of which representation is used.',
 ['inputs','configurations'],'all symmetric Jx, Jp (either may be absent), all sectors, both symmetries',
 'one numba-only test compares a two-orbital exchange; an absent exchange, three or more orbitals (sign strings), and the pair term in the other representation are not sampled',
 [E+'ham_non_local.py',E+'build_mb_ham.py'],
 [('separate-spin construction',E+'ham_non_local.py:_build_ham_non_local'),('total-number construction',E+'ham_non_local.py:_N_build_ham_non_local'),('assembly',E+'build_mb_ham.py:build_mb_ham')],
 (),['build_mb_ham + todense'])
prop('C07','Matrix-free products, dense assembly and sparse kernels agree',
 'For every list of Hamiltonian terms headed by the diagonal one, applying the operator to a vector equals multiplying by the dense matrix assembled from the same terms, which equals diag + I(x)H_up + H_dw(x)I + non-local. The compiled kernels add the product of a CSR matrix (acting on the up index, the down index or the full vector) into the result and change nothing else; the input vector and the Hamiltonian matrices are left unchanged (and writable), a supplied output buffer receives the result, and the dense assembly works for any non-empty subset of terms.',
 ['inputs','configurations'],'all CSR matrices (empty rows, rectangular up/down dimensions), all vectors, all term lists',
 'tests use a single square sector; unequal up and down dimensions, empty rows, accumulation into a non-zero result and diagonal-only operators are not sampled',
 [E+'psparse.pyx',E+'cs_gaxpy.c',E+'matvec_product.py',E+'build_mb_ham.py',E+'ham_local.py',E+'ham_hopping.py',E+'ham_non_local.py'],
 [('CSR kernels',E+'cs_gaxpy.c:csr_gaxpy, csr_saxpy'),('threaded wrappers',E+'psparse.pyx:UPmultiply, DWmultiply, Multiply'),('composition',E+'matvec_product.py:_matvec_operator, todense')],
 (),['matvec_operator(*ops)(v)','todense(*ops)'])
prop('C08','Sector spectra are complete and correct; truncation keeps what matters',
 'Building the eigen-space returns, for every sector asked for, the requested number of lowest eigenpairs of that sector\'s Hamiltonian (all by default), in ascending order, orthonormal, and the lowest energy found over all solved sectors. Screening keeps exactly the states whose Boltzmann weight relative to the ground state exceeds the cutoff, with their vectors, and drops sectors left without any; adjusting the requested counts raises by one (up to the sector dimension) where all requested states were kept and lowers by one (not below one) where fewer were, for every sector, absent ones included. Adding or removing a particle moves to the neighbouring sector and is refused exactly at the edges.',
 ['inputs','configurations','histories'],'all Hamiltonians, sector subsets, eigenvalue counts, temperatures, cutoffs, and sequences of solve/screen/adjust',
 'tests diagonalise one small lattice with all eigenvalues; clipping, skipped sectors, iterative solution, and adjustment with absent sectors are barely sampled',
 [E+'espace.py',E+'sector.py',E+'eigh_arpack.py',E+'build_mb_ham.py'],
 [('solver',E+'espace.py:solve_sector, _solve_lapack, _solve_arpack'),('iteration',E+'espace.py:build_espace'),('screening',E+'espace.py:screen_espace'),('adjustment',E+'espace.py:adjust_neigsector'),('neighbours',E+'sector.py:get_cdg_sector, get_c_sector'),('ARPACK loop',E+'eigh_arpack.py:eigsh')],
 [('espace','dict of solved sectors keyed by particle content',E+'espace.py')],['build_espace','screen_espace','adjust_neigsector','get_c_sector','get_cdg_sector'])
prop('C09','Distributed operations give the serial result for any number of ranks',
 'Redistributing a vector from the down-split to the up-split layout places each element where the layout says, the reverse redistribution restores the original, and a distributed Hamiltonian product, Lanczos step or occupation count returns, rank by rank, the slice (or the total) that the serial computation gives, for every admissible number of ranks. Dimensions that cannot be divided are refused and not silently mishandled.',
 ['configurations','inputs','schedules'],'all numbers of ranks dividing the dimension, all vectors',
 'the MPI tests need a multi-rank launch and are not run here; even then one rank count is used',
 [E+'vector_transpose.py',E+'matvec_product.py',E+'lanczos.py',E+'observs.py',E+'nano_dmft.py'],
 [('transposition',E+'vector_transpose.py:collect_dw, collect_up'),('distributed product',E+'matvec_product.py:_matvec_operator_mpi'),('distributed Lanczos',E+'lanczos.py:_sl_step_mpi'),('distributed counts',E+'observs.py:_get_evecs_occupation_mpi')],
 (),['collect_dw/collect_up','matvec_operator(...,comm)','sl_step(...,comm)','get_evecs_occupation(...,comm)'])
prop('C10','Green-function kernels equal the resolvent of the tridiagonal matrix',
 'For any tridiagonal coefficients the continued-fraction kernel equals b0 (squared norm) times the (0,0) element of (z - T)^-1 for every complex z, scalar or array; the spectral kernel equals sum_r q_r/(z - l_r). The coefficient builders for both representations describe the same function, exponent * b0^2 * <0|(z - s(T - E))^-1|0> for sign s=+1/-1 and reference energy E, and a sum of kernels divided by the partition function is returned by the composite object.',
 ['inputs'],'all coefficient sequences of any length, all complex z off the poles, both signs, all energies and weights',
 'the test compares one random 10-coefficient fraction; sign, energy shift, length one and agreement between the two representations are not sampled',
 [E+'continued_fraction.pyx',E+'gf_lanczos.py',E+'tridiag.py'],
 [('recursion',E+'continued_fraction.pyx:calc, continued_fraction'),('kernels',E+'gf_lanczos.py:continued_fraction, spectral, Gf'),('coefficients',E+'gf_lanczos.py:build_gf_coeff_sp, build_gf_coeff_cf'),('tridiagonal solver',E+'tridiag.py:eigh_tridiagonal')],
 (),['continued_fraction(a,b)(e,eta)','spectral(l,q)(e,eta)','build_gf_coeff_*'])
prop('C11','Exact Green functions equal the Lehmann representation',
 'Given a complete eigen-space, the exact one-particle Green function (diagonal builder for any site and spin, and the matrix builder) equals 1/Z sum_{mn} (e^{-bE_m}+e^{-bE_n}) <n|c_i|m><m|c+_j|n>/(z-(E_m-E_n)), with Z the full partition function. Consequently its diagonal weights are non-negative and add up to one, its imaginary part is non-positive for positive broadening, and the matrix is symmetric for real Hamiltonians.',
 ['inputs','configurations'],'all Hamiltonians, interactions, temperatures, sites, spins and frequencies',
 'the test compares site 0, spin up of one lattice; other sites, the down spin in spin-split Hamiltonians, sum rule and off-diagonal elements are not sampled',
 [E+'gf_exact.py',E+'gf2_exact.py'],
 [('projections',E+'gf_exact.py:project_exact_up, project_exact_dw'),('assembly',E+'gf_exact.py:build_gf_exact, Gf'),('matrix assembly',E+'gf2_exact.py:build_gf2_exact, Gf2')],
 (),['build_gf_exact','build_gf2_exact'])
prop('C12','Lanczos Green functions equal the exact ones',
 'For any retained set of initial eigenstates, the Lanczos-built Green function equals 1/Z sum_n e^{-bE_n} [<n|c 1/(z-(H-E_n)) c+|n> + <n|c+ 1/(z+(H-E_n)) c|n>] for every site, spin and representation, whether or not neighbouring sectors are present in the eigen-space and whichever solver a sector size selects. The particle and hole parts returned separately add up to the whole, and the matrix builder gives the off-diagonal elements by polarisation, symmetric, including elements whose combined excitation vanishes.',
 ['inputs','configurations'],'all Hamiltonians, retained states, sites, spins, both representations, separate or combined output',
 'the single related test compares one site for a free chain and needs packages missing here',
 [E+'gf_lanczos.py',E+'gf2_lanczos.py'],
 [('projections',E+'gf_lanczos.py:project_up, project_dw'),('assembly',E+'gf_lanczos.py:build_gf_lanczos'),('off-diagonal',E+'gf2_lanczos.py:build_gf_offdiag, build_gf2_lanczos, _Gf2, Gf2')],
 (),['build_gf_lanczos','build_gf2_lanczos'])
prop('C13','The Lanczos recursion is a faithful tridiagonalisation',
 'For any real symmetric operator and non-zero start vector, each step returns b = the norm of the incoming vector, the normalised vector, a = its expectation value, and the residual A v - a v - b l; the coefficients satisfy the three-term recurrence, so the tridiagonal matrix is the restriction of the operator to the Krylov space and its lowest eigenvalue never drops below the true one. A zero start vector is reported, the second pass rebuilds eigenvectors of the operator in the full space, and the block variant and the Gram-Schmidt helpers return an orthonormal basis consistent with their projected matrix.',
 ['inputs','histories'],'all symmetric operators, start vectors, iteration limits and tolerances',
 'tests check convergence of the lowest eigenvalue of one random matrix; early termination, invariant subspaces, limits and eigenvector reconstruction are not sampled',
 [E+'lanczos.py',E+'tridiag.py'],
 [('step',E+'lanczos.py:_sl_step'),('driver',E+'lanczos.py:build_sl_tridiag'),('second pass',E+'lanczos.py:sl_solve, _kron'),('block',E+'lanczos.py:build_bd_tridiag'),('orthogonalisation',E+'lanczos.py:gram_schmidt_rows'),('tridiagonal solver',E+'tridiag.py')],
 (),['sl_step','build_sl_tridiag','sl_solve','build_bd_tridiag','eigh_tridiagonal'])
prop('C14','Occupations are exact (thermal) expectation values',
 'The site and spin resolved occupations of every eigenvector equal sum_states |v|^2 n_site,spin, times the state weight when one is given, for either memory layout of the vectors; their sum over sites is the particle number of the sector. The thermal occupation is the Boltzmann-weighted average over all retained states divided by the partition function, lies between 0 and 1, and the single-site counting helpers return the same numbers summed over the spins.',
 ['inputs','configurations'],'all eigenvectors, sectors (unequal spin dimensions), temperatures and memory layouts',
 'the test checks one sector with one layout',
 [E+'observs.py',E+'dedlib.py',E+'dedlib_dev.py'],
 [('per-vector',E+'observs.py:_get_evecs_occupation'),('thermal',E+'observs.py:get_occupation'),('helpers',E+'dedlib.py:get_occupation, '+E+'dedlib_dev.py:get_evecs_occupation, get_occupation')],
 (),['get_occupation','get_evecs_occupation'])
prop('C15','Bath fit objective and gradient are what they claim, in both back ends',
 'The model hybridisation is sum_k V_k^2/(z-e_k), its derivative array is the exact partial derivative with respect to every bath energy and hopping, the objective is the mean squared distance to the target over the frequencies and the gradient is the exact gradient of that objective. The Python and the C implementations compute the same numbers for the same parameters, on the Matsubara frequencies (2n+1)pi/beta.',
 ['inputs'],'all bath parameters, sizes, targets, frequency counts and temperatures',
 'the only tests are stand-alone C programs that print values; no test compares the gradient with the objective or C with Python',
 [E+'fit_cg.py','edpyt_backend/bath.c','edpyt_backend/fit.c','edpyt_backend/f1dim.c','edpyt_backend/df1dim.c'],
 [('Python',E+'fit_cg.py:_delta, _ddelta, _chi2, Chi2, dChi2, fit_hybrid'),('C','edpyt_backend/bath.c:eval_delta, eval_ddelta, eval_chi2, eval_dchi2'),('frequencies','edpyt_backend/fit.c:fit')],
 (),['Delta(z)(p)','DDelta(z,n)(p)','Chi2','dChi2','libfit eval_*'])
prop('C16','The bath minimiser only improves the objective and reports it truthfully',
 'Started from any bath parameters, the conjugate-gradient fit returns parameters whose objective is not larger than at the start, and the reported minimum value is the objective at the returned parameters. Bracketing yields a middle point not higher than its neighbours and lying between them, the line search keeps a minimum bracketed while it runs and returns the best point it evaluated together with its value, one line minimisation moves the point along the search direction by the minimiser it found, and no memory outside the passed arrays is touched.',
 ['inputs','histories'],'all smooth objectives, start points and dimensions',
 'no test runs the minimiser on anything but one fixed fit whose output is printed',
 ['edpyt_backend/frprmn.c','edpyt_backend/dlinmin.c','edpyt_backend/mnbrak.c','edpyt_backend/dbrent.c','edpyt_backend/f1dim.c','edpyt_backend/df1dim.c','edpyt_backend/fit.c','edpyt_backend/fit_wrap.py'],
 [('conjugate gradient','edpyt_backend/frprmn.c'),('line minimisation','edpyt_backend/dlinmin.c, f1dim.c, df1dim.c'),('bracketing','edpyt_backend/mnbrak.c'),('Brent with derivatives','edpyt_backend/dbrent.c'),('entry','edpyt_backend/fit.c, fit_wrap.py')],
 (),['frprmn','dlinmin','mnbrak','dbrent','fit_hybrid'])
prop('C17','The initial bath is well-formed, particle-hole symmetric, and shared',
 'For every number of bath sites the initial guess fills every parameter: all hoppings equal max(0.1, 1/sqrt(nbath)), the energies are symmetric about zero and span exactly the bandwidth from -W to +W for two or more sites, with a level at zero for odd counts of three or more. The Python and the C versions produce the same energies and hoppings, and a supplied parameter array is filled in place.',
 ['inputs'],'all bath sizes and bandwidths',
 'the C test prints one size and the Python function is not tested',
 [E+'fit_cg.py','edpyt_backend/bath.c'],
 [('Python',E+'fit_cg.py:get_initial_bath'),('C','edpyt_backend/bath.c:init_bath')],(),['get_initial_bath','init_bath'])
prop('C18','Sequential-tunnelling rates are golden-rule rates of a Markov generator',
 'Every transition between charge states has amplitude <f|c+_is|i> or <f|c_is|i>, energy E_f-E_i for adding and E_i-E_f for removing an electron, and rate |A.v|^2 times the Fermi (adding) or hole (removing) occupation of the lead. The rate matrix has non-negative off-diagonal entries and columns summing to zero, counts both leads, satisfies detailed balance when both leads share temperature and chemical potential, the current matrix counts added electrons positive and removed ones negative (with the signs of the inject lead, added minus and removed plus, in the total-number variant), and the stationary solution is the normalised null vector of the generator.',
 ['inputs','configurations'],'all eigen-spaces, couplings, temperatures and chemical potentials; transitions into empty and full charge states included',
 'the tests examine one two-level system at one bias and need packages missing here',
 [E+'sqtunneling.py',E+'sqtnl.py',E+'rates.py'],
 [('amplitudes',E+'sqtunneling.py:project_add, project_sub, build_transition_elements'),('rates',E+'sqtunneling.py:Gfe, Gfh, build_rate_matrix, build_transition_matrix'),('total-number variant',E+'sqtnl.py'),('steady state',E+'rates.py:stationary_solution')],
 (),['build_transition_elements','build_rate_matrix','build_transition_matrix','stationary_solution'])
prop('C19','Cotunnelling amplitudes and rate matrices are second-order golden rule',
 'Every cotunnelling element combines the electron path (add through a lead then remove) and the hole path (remove then add) between the same initial and final states, with fermionic signs between the paths, denominators built from E_m-E_f for the electron path and E_i-E_m for the hole path (relative to the electron coming from the injecting lead), and all intermediate states of the neighbouring charge sectors included, empty and full ones too. The rate matrix has columns summing to zero and non-negative off-diagonal entries, counts all four lead pairs, the transition matrix counts extraction minus injection for the chosen leads and so vanishes for equal ones, and the two implementations agree on the same system.',
 ['inputs','configurations'],'all eigen-spaces, couplings, energies and lead pairs',
 'the test evaluates one system against stored numbers and needs packages missing here',
 [E+'cotunneling.py',E+'cotnl.py'],
 [('separate-spin amplitudes',E+'cotunneling.py:project_add, project_sub, project_sector, build_transition_elements'),('total-number amplitudes',E+'cotnl.py:project, excite_electron, excite_hole, build_transition_elements'),('rates',E+'cotunneling.py:build_rate_matrix, build_transition_matrix; '+E+'cotnl.py:build_rate_and_transition_matrices')],
 (),['build_transition_elements','build_rate_matrix','build_rate_and_transition_matrices'])
prop('C20','Cotunnelling energy integrals equal the integrals they stand for',
 'The one-, two- and four-pole closed forms equal, up to the discarded divergent part, the integral of the squared amplitude times the two Fermi factors: they are quadratic in the residues, symmetric under exchange of pole/residue pairs, satisfy detailed balance under exchange of the two chemical potentials, and the four-pole form expands into pole pairs. Coinciding arguments give the limit of the expressions. The approximate form evaluates the amplitude at the midpoint of its thermal window (from mu_extract-dE to mu_inject) times x/(e^(beta x)-1), and the numerical form integrates |amplitude|^2 n_F(e-mu_extract)(1-n_F(e-mu_inject)) over the window.',
 ['inputs'],'all residues, pole energies, chemical potentials and temperatures away from coinciding arguments',
 'no test evaluates the integrals apart from stored totals of one system',
 [E+'integrals.py',E+'cotnl.py',E+'cotunneling.py'],
 [('closed forms',E+'integrals.py:I1, I2, Gamma1, Gamma2, Gamma4'),('window',E+'cotnl.py:G, Sigma.approximate, Sigma.integrate, Sigma.exact; '+E+'cotunneling.py:_Sigma')],
 (),['Gamma1','Gamma2','Gamma4','Sigma.approximate','Sigma.integrate'])
prop('C21','Impurity and lattice Green functions satisfy their Dyson equations',
 'For the impurity, g0^-1 = z + mu - Delta(z) with Delta the fitted bath (and H holding exactly that bath), Sigma = g0^-1 - g^-1 and G = 1/(g0^-1 - Sigma); for lattice functions given by a hybridisation, a Hilbert transform or a matrix, G, the free function, the Weiss field Sigma + G^-1 and the hybridisation z + mu (- e_d) - Weiss are mutually consistent at every frequency. Spin-resolved and multi-impurity containers apply the same operation to each member in order and route each spin and each inequivalent site to its own data.',
 ['inputs','configurations'],'all frequencies, chemical potentials, self-energies, hybridisations, bath parameters, spins and inequivalent-site maps',
 'no test covers the DMFT modules here',
 [E+'dmft.py',E+'nano_dmft.py'],
 [('impurity',E+'dmft.py:Delta, Gfimp, SpinGfimp'),('lattice',E+'dmft.py:Gfloc, Gfhybrid, Gfhilbert'),('matrix lattice',E+'nano_dmft.py:Gfloc, Gfimp')],
 (),['Gfimp','SpinGfimp','Gfhybrid','Gfhilbert','nano_dmft.Gfloc'])
prop('C22','The DMFT loop reports convergence truthfully and stays causal',
 'Each iteration fits and solves the impurity at the current hybridisation and chemical potential, installs its self-energy in the lattice, adjusts the chemical potential only when asked so that the occupation meets the goal, and hands back the lattice hybridisation. The hybridisation used in a step never has a positive imaginary part, convergence is signalled exactly when the change is below the tolerance, failure exactly when the iteration limit is exceeded, and the residual passed to the mixer is the weighted difference between new and old hybridisation.',
 ['histories','inputs'],'all sequences of hybridisations, tolerances, limits and occupation goals',
 'no test runs the loop',
 [E+'dmft.py'],
 [('step',E+'dmft.py:dmft_step, dmft_step_adjust, dmft_step_magnetic'),('loop',E+'dmft.py:DMFT'),('chemical potential',E+'dmft.py:adjust_mu')],
 (),['DMFT.__call__','DMFT.distance','adjust_mu'])
prop('C23','Occupation integrals of Green functions give the exact filling',
 'For a Green function that is a positive sum of simple poles, the Fermi-pole integration and the Matsubara summation return sum_k w_k n_F(e_k - mu) within their quadrature error, for scalar and array chemical potentials; the Fermi poles and residues are the exact ones of the truncated continued-fraction expansion of tanh (poles positive and ascending, every residue negative). The integration leaves the Green function, its chemical potential included, as it found it.',
 ['inputs'],'all pole sets within the convergence radius, temperatures, chemical potentials',
 'no test covers the integration',
 [E+'integrate_gf.py'],
 [('Fermi poles',E+'integrate_gf.py:zero_fermi'),('contour',E+'integrate_gf.py:integrate_gf'),('Matsubara',E+'integrate_gf.py:matsum_gf')],
 (),['zero_fermi','integrate_gf','matsum_gf'])
prop('C24','Distributional ED builds the Anderson models it samples',
 'Sampled poles lie in the requested range, follow the cumulative distribution, and are sorted; the fitted Anderson model has the same Green function as the sampled poles (bath energies between consecutive poles, positive weights, level at their mean), and the single- and multi-impurity Hamiltonians hold exactly that star geometry and interaction. The self-energy and occupations returned are averages of the samples that meet the particle-number condition over exactly that many (weighted) samples, and the impurity entropy is the difference between the full and the bath entropies computed from their partition functions.',
 ['inputs','histories'],'all sampled pole sets, sizes, interactions, densities of states and random streams',
 'no reliable test covers the sampler; the MPI one is disabled',
 [E+'dedlib.py',E+'dedlib_dev.py',E+'espace.py'],
 [('sampler',E+'dedlib.py:RandomSampler, cumsum'),('fit',E+'dedlib.py:Gf0, Gfimp'),('models',E+'dedlib.py:build_siam, build_moam'),('averages',E+'dedlib.py:siam_solve, moam_solve; '+E+'dedlib_dev.py:ded_solve, ded_solve_multi'),('entropy',E+'dedlib.py:get_entropy')],
 (),['RandomSampler','Gfimp.fit','build_siam','build_moam','siam_solve','ded_solve'])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    s=p['statement']; import re
    n=len(re.findall(r'[.](?:\s|$)',s)); print(p['id'],n,len(s))
