#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(prop, commit, what):
    F.append(dict(property=prop, status='fixed', commit=commit,
                  what='fixed: property=%s %s %s' % (prop, commit, what)))
def known(prop, kind, case, what):
    F.append(dict(property=prop, status='known', kind=kind, case=case, what=what))

fixed('C01', '907c607', 'find_assignments dropped trailing tasks of zero weight (n=2, weights=[0,0], 1 worker assigned only the first task)')
fixed('C02', '375ff3d', 'inner product arrays took the type of the first product: a real first value discarded the imaginary parts of all others')
fixed('C02', '3193aa7', 'VectorSpaceArrays with weights for vectors of a single entry raised (weights squeezed to 0D)')
fixed('C05', 'dab71a5', 'get_decomp of a decomposition with one eigenvalue left a 0D array, so computing modes afterwards raised (also listed under C23)')
fixed('C23', 'dab71a5', 'get_decomp of a decomposition with one eigenvalue left a 0D array, so computing modes afterwards raised')
fixed('C10', '2547047', 'spectral_coeffs was 0D for a single DMD mode')
fixed('C13', '31bc9ae', 'save_array_text failed or wrote wrong numbers for complex arrays not C-contiguous or of non-default complex type')
fixed('C19', '1abd21e', 'balanced_truncation used continuous-time Gramians for discrete-time systems and transposes without conjugation')
fixed('C12', '087c575', 'eigh(is_positive_definite=True, atol=None) raised although None is documented')
fixed('C11', 'a413288', 'snapshot-method TLSqrDMD spectral coefficients of complex data missed a conjugation')
fixed('C10', '3bcd3ff', 'rtol was ignored by DMD (positional arguments to eigh/svd)')
fixed('C11', '3bcd3ff', 'rtol was ignored by total-least-squares DMD')
fixed('C24', '29bf944', 'sequential DMD after paired DMD on one object used the advanced vectors of the earlier data for exact modes')
fixed('C24', 'f230e43', 'compute_exact_modes without suitable data created a ValueError without raising it')
fixed('C14', 'e9e686b', 'a handle with a base handle subtracted the base vector cached from another handle or an earlier put')
fixed('C16', '07ee287', 'the sanity check rejected valid vectors of large magnitude (absolute tolerance)')
fixed('C17', 'bda726c', 'ERA ignored mc and mo given to its constructor')
fixed('C24', '556d978', 'weights, last rows and systems given as lists were not converted, unlike all other arrays')
fixed('C23', 'd008105', 'get_spectral_coeffs restored a 0D or 2D array')

fixed('C26', '78a9b6f', 'print_from_rank_zero ignored output_channel, so messages for standard error went to standard output')
fixed('C29', 'cd7c12b', 'DMDHandles and TLSqrDMDHandles kept the vectors of a refused compute_decomp (unequal numbers) and computed later modes from them and the earlier decomposition')
fixed('C17', '4afb2d0', 'make_sampled_format and ERA discarded imaginary parts of complex Markov parameters')
fixed('C28', '4afb2d0', 'ERA of complex Markov parameters differed from BPOD with Galerkin projection of the same system')
fixed('C06', '6612afb', 'call_and_bcast left all other processors waiting forever when the function raised on rank zero')
fixed('C29', '6612afb', 'get_decomp and get_* from a missing source left all processors but rank zero waiting forever')
fixed('C29', '876601f', 'BPODHandles.compute_decomp with numbers of vectors that are not multiples of inputs/outputs kept the vectors and, with MPI, left processors waiting forever')
fixed('C05', '49d0585', 'after lin_combine or compute_derivs_handles put a new base vector, the other processors kept subtracting the old one (cached)')
fixed('C13', 'e4fadb4', 'load_multiple_signals accepted files with different times when times are tiny (below 1e-8) or large (differences of 10 at 1e6)')
fixed('C19', 'bb90cfb', 'balanced_truncation dropped all states of systems with small inputs or outputs (B of size 1e-7)')
fixed('C17', '2b086b3', 'ERA dropped states of models with small Markov parameters (below 1e-13)')
fixed('C02', '4affcf5', 'inner product arrays had dtype object, and decompositions raised, when the inner product returns 0-d arrays (as np.tensordot does)')
fixed('C17', '2b1051b', 'make_sampled_format repeated and skipped time step indices of long records (350 steps) whose first time step deviates within dt_tol')
fixed('C18', 'cfa275a', 'OKID raised for, or gave wrong Markov parameters of, complex signals')

base = dict(level=.2, aslist=False, ht='mem', max_vecs=None, idxkind='none', idx=[0],
            cplx=False, w='none', ties=False)
known('C08', 'level', dict(base, n=3, m=2, r=2, d=0, seed=0, scale=.01, trunc='atol',
                           impl='direct', vt='nd1', cut=1),
      'compute_POD_arrays_direct_method(3 x 2 data with singular values 0.03 and 0.003, atol=9e-5): '
      'atol and rtol are compared with singular values of the data, not with eigenvalues of the '
      'correlation array as documented (2 modes instead of 1)')
dm = dict(base, n=3, m=3, d=0, data='paired', noise=0., over=0, impl='direct', explicit=True)
known('C10', 'documented', dict(dm, r=1, d=1, seed=3, trunc='atol', cut=9, vt='plain',
                                idxkind='array'),
      'compute_DMD_arrays_direct_method: atol and rtol are compared with singular values of the '
      'data, not with eigenvalues of the correlation array as documented (2 modes instead of 1)')
known('C11', 'documented', dict(dm, r=3, seed=285, trunc='rtol', cut=16, vt='nd1',
                                idxkind='array', idx=[29]),
      'compute_TLSqrDMD_arrays_direct_method: atol and rtol are compared with singular values of '
      'the stacked and de-noised data, not with eigenvalues of the correlation arrays as '
      'documented (3 instead of 2 components)')
with open(os.path.join(here, 'known_findings.json'), 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(json.dumps(x) for x in F) + '\n]}\n')
