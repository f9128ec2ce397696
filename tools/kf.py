import json
F=[("C01","5048ad1","sector dimension / basis size truncated (floating-point binomials), e.g. n=31, p=14"),
("C02","a8b87cb","intrep did not invert binrep"),
("C04","d0de5d1","todense of a Hamiltonian with only diagonal operators (one level, or charge symmetry)"),
("C05","5fffd39","pair hopping dropped when given without exchange in the up/down classification"),
("C05","7bc3c9d","spin-dependent level energies ignored with charge symmetry"),
("C05","6f7bc6b","interaction dictionary without the density term refused"),
("C05","0baa883","sign of the spin-flip exchange in up/down sectors"),
("C06","42cc255","Hamiltonian operator with a supplied output vector"),
("C10","03ccec1","exact Green's function of the down spin used the sector of one more up electron (also C12)"),
("C11","45200c2","build_gf_lanczos replaced kept eigenstates of small sectors in the caller's eigenspace"),
("C12","4e8917b","build_gf_offdiag crashed where the combined excitation vanishes"),
("C13","dc727ff","get_evecs_occupation reshaped the caller's row-ordered eigenvectors in place"),
("C14","6259045","sl_solve(eigvals_only=True) crashed"),
("C15","9e17d3c","block Lanczos did not deflate linearly dependent starting vectors"),
("C15","acb3c6f","block Lanczos wrote the initial norms into the last columns of the band matrix"),
("C16","1eb95a0","index-range tridiagonal solver with a single level"),
("C16","f4f30d5","eigenvalues of split tridiagonal matrices not ascending for an index range"),
("C18","1ac2b17","integrate_gf with one chemical potential per component paired expansion poles with wrong residues"),
("C20","110402e","cotunneling integrals were zero or inaccurate at zero and tiny bias"),
("C20","70386b7","interference term of Gamma2/Gamma4 counted once instead of twice"),
("C20","091402e","cotunneling integrals of degenerate virtual states divided by zero"),
("C21","b98d638","stationary solution picked the eigenvalue closest to one, not zero"),
("C23","29c753d","charge-sector sequential tunneling to and from the empty and the full system refused"),
("C25","3f6f0af","charge-sector cotunneling with an empty or full virtual state refused"),
("C24","c300df0","cotunneling from sectors without a spin-exchange process crashed (Sigma(None,None))"),
("C24","c4b4228","approximate cotunneling rate at zero energy gain was 1 instead of 1/beta (also C25)"),
("C24","7b562fe","electron and hole parts of the cotunneling amplitude used different energies; no detailed balance (also C25)"),
("C24","c78e2c1","integrated cotunneling rates left out virtual states beyond the second"),
("C24","9d18180","get_active_neig requested states outside the space"),
("C24","d358d75","squared cotunneling amplitude at several energies summed over the energies"),
("C25","bde6526","cotnl could not be imported without unrelated packages"),
("C25","843e661","numerical cotunneling integral used a product of two occupied factors"),
("C25","80675ce","closed-form cotunneling integral had the poles at the wrong sign and only 1, 2 or 4 virtual states"),
("C25","320d29f","screening removed processes that only vanish for uniform lead couplings"),
("C25","3183b1a","rate matrix of cotunneling left out states without inelastic processes"),
("C26","c95d56e","pole sampling raised IndexError for random numbers close to one"),
("C27","2ca3708","multi-orbital solver crashed with a single (default) interaction strength"),
("C27","3e241ad","multi-orbital averages divided by the number of draws, not by the samples accepted for each impurity"),
("C29","a74688f","compiled initial bath with three levels left the middle level unset"),
("C29","444da57","compiled fit ended the calling process when it ran out of iterations"),
("C29","2ab6f74","ctypes fit started from uninitialised memory"),
("C31","474b157","impurity hybridisation at a scalar frequency failed (integrate crashed)"),
("C31","625062f","spin-resolved impurity integrate() crashed with its default chemical potential"),
("C31","01770df","Bethe-lattice Hilbert transform of several frequencies"),
("C31","a09faf2","Bethe-lattice Hilbert transform lost all digits at large frequencies"),
("C33","c6d8b4d","local Green's function for groupings whose representatives are not the first sites, and for a single group"),
("C16","9b5296d","full tridiagonal solver returned garbage when LAPACK did not converge"),
("C36","866fd2b","printing an eigenspace classified by both spins crashed"),
("C32","ca1b6db","loop could not start with the provided lattices (no local level)"),
("C32","b44d129","loop crashed without an occupancy goal"),
("C32","87f559e","non-causal hybridisations were not made causal"),
("C40","64c7708","draw_spin_density crashed for an eigenvector given as a flat vector"),
("C39","a2bdece","a read-only Hamiltonian crashed build_mb_ham, a read-only spin-resolved one was made writeable"),
("C12","0ad5903","single elements below the diagonal of the matrix Green's function crashed"),
("C33","801ec86","occupations of a one-site lattice with spin were doubled per spin instead of summed"),
("C32","a4d8722","chemical-potential adjustment to a plain number crashed"),
]
json.dump({"findings":[dict(property=p,status="fixed",text="fixed: property=%s %s %s"%(p,c,t)) for p,c,t in F]},open('/verif/known_findings.json','w'),indent=1)
