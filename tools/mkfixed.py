import json, subprocess, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
('C26', 'do not weight overlapping', 'ESPRIT with row weights: weighting the two overlapping subarray views in place applied some weights twice and modified the eigenvectors'),
('C01', 'forward keyword arguments of uniform', 'UniformCircularArray dropped element= and perturbations= keyword arguments'),
('C01', 'accept 20-element', 'MinimumRedundancyLinearArray(20, d0) raised although 20 elements are documented and preset'),
('C14', 'accept list-like gain', 'GainErrors([..]) / PhaseErrors([..]) with a list raised AttributeError'),
('C14', 'reject non-square mutual', 'MutualCoupling accepted non-square and non-2D matrices'),
('C14', 'add location errors to integer', 'location errors on an array given with integer coordinates (or integer location errors with more dimensions than the array) raised a casting error'),
('C16', 'report the output size', 'ArrayDesign.output_size ignored the output size of vector elements, contrary to its documentation'),
('C12', 'raise ValueError for out-of-range', 'FarField1DSourcePlacement with an out-of-range direction raised TypeError instead of ValueError'),
('C18', 'accept scalar amplitudes', 'RandomPhaseSignal(dim, scalar) raised TypeError'),
('C20', 'build far-field 1D grids from multiple', 'FarField1DSearchGrid with list start/stop/size raised (2D axis) and overwrote the first segment'),
('C21', 'define create_refined_grid_at', 'NearField2DSearchGrid could not be instantiated: abstract create_refined_grid_at missing'),
('C21', 'refine grids with non-uniform', 'refining a grid whose axis combines several uniform ranges placed the points by interpolating between the outer neighbours only, so that neither the chosen point nor its neighbours were contained in the refined grid'),
('C23', 'store grid axes as', 'with a search grid built from an integer axis the refined estimates were truncated to integers'),
('C37', 'check both dimensions of the cov', 'an m x n covariance matrix with n != m was accepted'),
('C35', 'use the inter-element spacing of the array in the coarray', 'ecov_coarray_music_1d assumed half-wavelength spacing whatever the array spacing'),
('C25', 'keep one root of every pair', 'RootMUSIC1D on an exact (noise-free) covariance raised RuntimeError or returned unresolved when roots lie exactly on the unit circle: both roots of a pair were dropped (e.g. two elements, source at sine 0.3)'),
('C25', 'reject unknown units when', 'FarField1DSourcePlacement.from_z (and the root-MUSIC / ESPRIT estimators) silently returned degrees for an unknown unit'),
('C28', 'allow integer covariance matrices in', 'spatial_smooth of an integer-valued (real) covariance matrix raised a casting error'),
('C29', 'do not multiply the eigenvalues', 'aic and mdl multiplied the eigenvalues: the product over- or underflowed for many sensors, e.g. 24 eigenvalues of 1e12 raised a math domain error and 24 of 1e-17 gave 7 sources instead of 2'),
('C29', 'make SORTE independent of', 'sorte compared variances with an absolute threshold: eigenvalues of a covariance scaled by 1e-8 always gave one source'),
('C31', 'allow integer initial guesses', 'the ML estimators raised a casting error when the initial guess was given in integers (e.g. whole degrees)'),
('C33', 'use the modulus of the cross terms', 'crb_stouc_farfield_1d: the power block of the Fisher information used Re((a_i^H R^-1 a_j)^2) instead of |a_i^H R^-1 a_j|^2, so the bound was wrong for two or more sources unless the array is centred on its reference (e.g. three elements, two sources: 0.097 instead of 0.141)'),
('C30', 'evaluate the stochastic likelihood', 'f_nll_stouc returned infinity for every model covariance whose determinant is less than one (e.g. one source of power 1 and noise of power 0.1 on two elements)'),
('C38', 'detect location errors', 'plot_array(show_location_errors=True) never drew the actual locations'),
('C38', 'draw 1D spectra on the given axes', 'plot_spectrum_1d drew line spectra on the current axes rather than the given axes'),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
out = []
for p, k, w in F:
    h = [l.split()[0] for l in log if k in l]
    assert len(h) == 1, (k, h)
    out.append({'status': 'fixed', 'property': p, 'entry': 'fixed: property=%s %s %s' % (p, h[0], w)})
K = os.path.join(R, 'tools', 'known.json')
if os.path.exists(K):
    out += json.load(open(K))
json.dump(out, open(R + '/known_findings.json', 'w'), indent=1)
