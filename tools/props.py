"""Single source of properties.jsonl; run tools/gen.py after editing."""
M = 'doatools/model/'
E = 'doatools/estimation/'
P = 'doatools/performance/'


def p(id, title, statement, over, q, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))


PROPS = [
p('C01', 'Named array designs have exactly the geometry they document',
  'Uniform linear, nested, co-prime, minimum-redundancy, uniform rectangular and uniform circular arrays report the documented number of elements, grid indices, spacing and element positions (grid positions are index times spacing, circular neighbours are one arc apart on the given radius), for every design parameter and spacing. Optional keyword arguments such as the element model and perturbations are honoured by every design, and invalid design parameters are rejected.',
  ['inputs', 'configurations'], 'all spacings and radii > 0 (symbolic), all small element counts, both co-prime modes, all documented keyword arguments',
  'The tests pin a handful of sizes with one numeric spacing; the formulas must hold for every spacing and every design size.',
  [M + 'arrays.py'], [('grid-based layout', M + 'arrays.py: GridBasedArrayDesign'), ('index constructions', M + 'arrays.py: NestedArray, CoPrimeArray, MinimumRedundancyLinearArray, UniformRectangularArray')],
  ['element_locations', 'element_indices', 'd0', 'bases', 'size', 'ndim']),
p('C02', 'Sparse linear arrays deliver their promised difference coarrays',
  'A nested array with n1 and n2 elements per level has the hole-free difference coarray -(n2(n1+1)-1)..n2(n1+1)-1; minimum-redundancy arrays have hole-free coarrays for every supported size; a co-prime array with M < N contains every lag from -(MN+M-1) to MN+M-1 in 2M mode and every lag from -(M+N-1) to M+N-1 in M mode (for M > 1). The longest consecutive central run, the first hole and the virtual array size reported for the coarray agree with these ranges.',
  ['configurations', 'inputs'], 'all level sizes / co-prime pairs / presets within the bounds',
  'Tests check two or three array sizes; the guarantee is about every size.',
  [M + 'arrays.py', M + 'coarray.py'], [('index constructions', M + 'arrays.py'), ('central ULA search', M + 'coarray.py: WeightFunction1D.get_central_ula_size')],
  ['WeightFunction1D.differences', 'get_central_ula_size']),
p('C03', 'Coarray weights count element pairs exactly',
  'For any one-dimensional grid array the weight of a lag equals the number of ordered element pairs with that index difference, is symmetric in the lag, is zero for absent lags and sums to the square of the element count. The reported list of lags is sorted and complete, and the index list of a lag points exactly at the entries of the column-stacked covariance matrix that carry that lag.',
  ['inputs'], 'all integer element index vectors within the bounds (symbolic integers, any order, offsets and repetitions of spacing)',
  'Tests use two concrete arrays; counting must be right for every geometry, including unsorted and offset ones.',
  [M + 'coarray.py'], [('pair counting', M + 'coarray.py: WeightFunction1D')], ['weights()', '__call__', 'indices_of', 'differences']),
p('C04', 'Coarray selection matrix averages exactly the entries of each central lag',
  'The coarray selection matrix has one row per lag of the central run of consecutive lags (or of its non-negative half), in increasing lag order; applied to the column-stacked covariance matrix it yields, for every lag, the mean of exactly the covariance entries whose element pair has that lag. Consequently it recovers the virtual linear-array measurement of any stationary covariance exactly.',
  ['inputs', 'configurations'], 'all covariance matrices and all geometries within the bounds',
  'The test compares one small array against a stored matrix.',
  [M + 'coarray.py'], [('selection matrix', M + 'coarray.py: WeightFunction1D.get_coarray_selection_matrix')], ['get_coarray_selection_matrix']),
p('C05', 'Pairwise location differences and row de-duplication are exact',
  'The pairwise location differences of n elements are all n*n ordered differences in the documented order; the unique differences contain every such difference up to the tolerance, contain no two entries that are within the tolerance in every coordinate, and keep the dimension. Row de-duplication returns representatives and index maps that are consistent with the input.',
  ['inputs'], 'all real locations (symbolic) in one to three dimensions',
  'Tests use a few literal matrices.',
  [M + 'coarray.py', 'doatools/utils/math.py'], [('row clustering', 'doatools/utils/math.py: unique_rows'), ('differences', M + 'coarray.py')], ['compute_location_differences', 'compute_unique_location_differences', 'unique_rows']),
p('C06', 'Far-field 1D steering vectors are exact plane-wave responses',
  'For every array geometry in one to three dimensions, every direction in radians, degrees or sine units and every wavelength, each steering entry equals exp(j*2*pi*d/wavelength), where d is the projection of the element position on the propagation direction measured from broadside.',
  ['inputs'], 'all element positions, directions and wavelengths (symbolic reals)',
  'Tests compare a few literal values; sign, unit and dimension conventions must hold everywhere.',
  [M + 'arrays.py', M + 'sources.py'], [('phase delays', M + 'sources.py: FarField1DSourcePlacement'), ('steering matrix', M + 'arrays.py: ArrayDesign.steering_matrix')], ['steering_matrix', 'phase_delay_matrix']),
p('C07', 'Derivative matrices are the true derivatives of the steering matrix',
  'The matrix returned together with the steering matrix is, entry by entry, the derivative of that steering matrix with respect to the source parameters in the unit in which the directions are expressed (radians, degrees or sine). This holds for every geometry, direction and wavelength, and with element position, gain, phase and mutual-coupling perturbations applied.',
  ['inputs', 'configurations'], 'all geometries, directions, wavelengths and perturbation values (symbolic reals)',
  'Tests compare to finite differences at a handful of points in one unit.',
  [M + 'arrays.py', M + 'sources.py', M + 'perturbations.py'], [('derivative propagation', M + 'arrays.py: ArrayDesign.steering_matrix'), ('phase derivative', M + 'sources.py')], ['steering_matrix(compute_derivatives=True)', 'phase_delay_matrix(derivatives=True)']),
p('C08', 'Far-field 2D steering is the plane-wave response, consistent with 1D',
  'For azimuth/elevation sources each steering phase is 2*pi/wavelength times the inner product of the element position with the unit vector (cos az cos el, sin az cos el, sin el), in radians and in degrees, whatever the array dimension. A source on the horizon seen by a linear or planar array gives the same response as the corresponding one-dimensional source.',
  ['inputs'], 'all positions, azimuths, elevations and wavelengths (symbolic reals)',
  'Tests compare a few literal directions.',
  [M + 'sources.py', M + 'arrays.py'], [('phase delays', M + 'sources.py: FarField2DSourcePlacement')], ['steering_matrix', 'phase_delay_matrix', 'calc_spherical_coords']),
p('C09', 'Near-field steering uses the exact element-to-source distance',
  'For near-field sources each steering phase is -2*pi/wavelength times the difference between the Euclidean distance from the source to that element and the distance from the source to the first element (so the first element has zero phase), for one-, two- and three-dimensional arrays.',
  ['inputs'], 'all element positions, source positions and wavelengths (symbolic reals)',
  'Tests compare a few literal positions.',
  [M + 'sources.py'], [('phase delays', M + 'sources.py: NearField2DSourcePlacement')], ['steering_matrix', 'phase_delay_matrix']),
p('C10', 'Unit conversion preserves the physical direction',
  'Converting far-field source placements between radians, degrees and sine units keeps the physical direction, is its own inverse, reports the requested unit and does not change the source object it starts from; the scalar angle conversion helpers agree. Conversion to an unknown unit is rejected.',
  ['inputs'], 'all directions in the valid range, all ordered unit pairs',
  'Tests convert a few literal values.',
  [M + 'sources.py', 'doatools/utils/conversion.py'], [('conversion', M + 'sources.py: as_unit'), ('helpers', 'doatools/utils/conversion.py')], ['as_unit', 'convert_angles', 'steering_matrix']),
p('C11', 'Spherical coordinates of sources are geometrically exact',
  'The spherical coordinates (range, azimuth, elevation) reported for a source placement relative to any reference points reproduce the source position exactly: converting them back to Cartesian coordinates and adding the reference point gives the source location; far-field sources report infinite range and their own azimuth and elevation, with one-dimensional broadside angles mapped to azimuth pi/2 minus angle.',
  ['inputs'], 'all source locations and reference points (symbolic reals)',
  'Tests use a few literal triples.',
  [M + 'sources.py', 'doatools/utils/conversion.py'], [('coordinates', M + 'sources.py: calc_spherical_coords')], ['calc_spherical_coords', 'cart2spherical']),
p('C12', 'Source placements accept exactly the valid locations',
  'A one-dimensional far-field placement accepts precisely the directions inside the closed valid range of its unit and rejects all others with a ValueError, a two-dimensional far-field placement does the same for its azimuth and elevation ranges, and placements of every kind reject unknown units and arrays of the wrong shape with a ValueError.',
  ['inputs', 'configurations'], 'all real locations, all shapes and units within bounds',
  'Tests do not reach the rejection paths.',
  [M + 'sources.py'], [('validation', M + 'sources.py: constructors'), ('z conversion', M + 'sources.py: FarField1DSourcePlacement.from_z')], ['FarField1DSourcePlacement(...)', 'FarField2DSourcePlacement(...)', 'NearField2DSourcePlacement(...)']),
p('C13', 'Source placements are sequences whose subsets never alias',
  'Indexing, slicing and iterating a source placement yields exactly the selected locations with the same unit and kind, negative and slice indices follow sequence semantics, and changing a sliced or index-selected subset never changes the original placement.',
  ['inputs', 'histories'], 'all locations (symbolic) and all index expressions within bounds',
  'Tests index a few literal placements.',
  [M + 'sources.py'], [('subsets', M + 'sources.py: __getitem__')], ['__getitem__', '__len__', 'locations', 'units']),
p('C14', 'Perturbations enter the steering model exactly as documented',
  'With perturbations enabled, location errors move the elements, gain and phase errors scale each element response by (1+gain)*exp(j*phase), and mutual coupling multiplies the steering matrix from the left, in whatever combination they are set (applied in the order in which they were set); selecting all, known or no perturbations applies exactly that subset. A request with no perturbations gives the nominal response, and list-like parameters behave like arrays, while parameters of the wrong shape are rejected with a ValueError and perturbations that do not fit the array are rejected.',
  ['inputs', 'configurations'], 'all perturbation values (symbolic), all combinations of kinds and known flags',
  'Tests set one combination of literal values.',
  [M + 'arrays.py', M + 'perturbations.py'], [('selection', M + 'arrays.py: ArrayDesign.steering_matrix'), ('perturbation objects', M + 'perturbations.py')], ['steering_matrix(perturbations=...)', 'perturbations', 'is_perturbed', 'has_perturbation', 'actual_element_locations']),
p('C15', 'Deriving arrays never changes the array they are derived from',
  'Creating perturbed or perturbation-free copies, in any sequence, leaves the original array and earlier copies with the same elements, perturbations and steering response; a copy without perturbations is indistinguishable from the nominal array, and setting a new perturbation of a kind replaces the previous one of that kind only.',
  ['histories', 'inputs'], 'all histories of copy/perturb operations within the bound, all perturbation values',
  'Tests exercise a single copy.',
  [M + 'arrays.py'], [('copy semantics', M + 'arrays.py: get_perturbed_copy, get_perturbation_free_copy')], ['get_perturbed_copy', 'get_perturbation_free_copy', 'perturbations']),
p('C16', 'Element responses enter the steering matrix exactly',
  'For non-isotropic scalar elements each steering entry is the plane-wave phase factor times the element response at the direction seen from that element; for vector elements (several outputs per element) the steering matrix stacks the outputs as documented and its size is outputs times elements. Isotropic elements leave the steering matrix unchanged, and custom responses are evaluated at the correct range, azimuth and elevation.',
  ['inputs', 'configurations'], 'all element responses (symbolic functions), directions and geometries within bounds',
  'Tests use one literal response.',
  [M + 'arrays.py', M + 'array_elements.py'], [('response application', M + 'arrays.py: ArrayDesign.steering_matrix'), ('elements', M + 'array_elements.py')], ['steering_matrix', 'output_size', 'calc_spatial_response']),
p('C17', 'Simulated snapshots follow the narrowband measurement model',
  'Generated snapshots equal steering matrix times source signals plus noise, with the perturbed (actual) array response, the requested number of snapshots and the given signal and noise generators; the returned sample covariance is exactly Y*Y^H divided by the number of snapshots and is Hermitian positive semidefinite.',
  ['inputs', 'configurations'], 'all signal and noise realisations (symbolic), arrays and directions',
  'Tests never check the identity, only estimator output on random draws.',
  [M + 'snapshots.py', M + 'signals.py'], [('model', M + 'snapshots.py: get_narrowband_snapshots')], ['get_narrowband_snapshots']),
p('C18', 'Signal generators emit the configured power and covariance',
  'Each generator emits a dim-by-n array; complex Gaussian signals built from independent standard normal draws have exactly the configured covariance for scalar, vector and matrix specifications (including singular ones); random-phase signals have exactly the configured amplitudes for scalar and vector specifications, with independent phases drawn uniformly from a full turn.',
  ['inputs', 'configurations'], 'all covariances/amplitudes (symbolic), all random draws',
  'Tests compare sample statistics of one literal covariance with a tolerance.',
  [M + 'signals.py'], [('generators', M + 'signals.py')], ['emit', 'dim']),
p('C19', 'Linear-algebra helpers satisfy their defining identities',
  'The Khatri-Rao product is the column-wise Kronecker product, column stacking (vec) is exact, the Cartesian product lists every combination once in the documented order, the projection helper returns the orthogonal projector onto the column range (Hermitian, idempotent, reproducing the matrix) with or without the pseudo-inverse, and the absolute-square helper agrees with its definition.',
  ['inputs'], 'all real/complex matrix entries (symbolic) and all shapes within bounds',
  'Tests use literal matrices.',
  ['doatools/utils/math.py'], [('helpers', 'doatools/utils/math.py')], ['khatri_rao', 'vec', 'cartesian', 'projm', 'abs_squared', 'unique_rows']),
p('C20', 'Search grids enumerate exactly the requested points',
  'A search grid has the requested number of points per axis, evenly spaced from the start and excluding the stop, default ranges covering the unit, and several ranges concatenated in order when lists are given; the source placement of the grid enumerates all axis combinations in row-major order, so that the flat index and the multi-dimensional coordinate of a point refer to the same location.',
  ['inputs', 'configurations'], 'all starts, stops and spacings (symbolic), all small sizes, all grid kinds and units',
  'Tests use a few literal grids.',
  [E + 'grid.py'], [('grid construction', E + 'grid.py')], ['axes', 'source_placement', 'shape', 'size', 'units']),
p('C21', 'Refined grids subdivide exactly the neighbourhood of the chosen point',
  'Refining a grid around a point gives, on every axis, an increasing list that contains the point itself, stays within the neighbouring span of original points (clipped at the border), contains those original points and subdivides each adjacent interval, also on non-uniform axes, into the requested number of equal parts; kind and unit of the grid are preserved, for one and for several points at once.',
  ['inputs', 'configurations'], 'all strictly increasing axes (symbolic reals), every coordinate, densities and spans within bounds',
  'Tests refine a few literal points.',
  [E + 'grid.py'], [('refinement', E + 'grid.py: SearchGrid.create_refined_axes_at')], ['create_refined_grid_at', 'create_refined_grids_at', 'create_refined_axes_at']),
p('C22', 'Spectrum estimators return the k largest peaks in grid order',
  'When the spectrum has at least k peaks, a spectrum-based estimator reports resolved=True and returns the locations of the k highest peaks, in increasing grid order; when there are fewer peaks it reports resolved=False and no estimates. This holds in one and two dimensions, for built-in and custom peak finders, and the returned spectrum is the one the peaks were taken from.',
  ['inputs'], 'all spectra (symbolic heights) on grids within bounds, all k',
  'Tests only see spectra of well-behaved scenes.',
  [E + 'core.py'], [('peak selection', E + 'core.py: SpectrumBasedEstimatorBase')], ['estimate']),
p('C23', 'Refinement never loses the coarse peak and estimator reuse is safe',
  'Refining estimates returns for every coarse peak a point within the refinement neighbourhood of that peak whose spectrum value is not lower than the coarse one, for any number of iterations. Repeated calls on one estimator, with or without caching of the steering matrix, with different data and with grid refinement in between, give the same results as fresh estimators.',
  ['inputs', 'histories'], 'all spectra (symbolic), all histories of estimate calls within bounds',
  'Tests never reuse an estimator across different data and check refinement on one scene.',
  [E + 'core.py', E + 'grid.py'], [('refinement loop', E + 'core.py: SpectrumBasedEstimatorBase'), ('steering cache', E + 'core.py')], ['estimate(refine_estimates=True)']),
p('C24', 'Beamforming, MUSIC and Min-Norm spectra equal their definitions',
  'For every covariance matrix and grid the Bartlett spectrum is Re(a^H R a), the MVDR spectrum is 1/Re(a^H R^-1 a), the MUSIC spectrum is 1/||E_n^H a||^2 with the noise eigenvectors of the smallest eigenvalues, and the Min-Norm spectrum uses the minimum-norm noise-subspace vector with unit first entry; grid order is preserved, known array perturbations are part of the steering vectors and unknown ones are not.',
  ['inputs'], 'all Hermitian covariances / subspaces (symbolic), steering vectors and noise dimensions within bounds',
  'Tests check only that peaks are near true directions in one scene.',
  [E + 'beamforming.py', E + 'music.py', E + 'min_norm.py'], [('spectra', 'f_bartlett, f_mvdr, f_music, MinNorm')], ['estimate', 'f_bartlett', 'f_mvdr', 'f_music']),
p('C25', 'Root-MUSIC roots the noise-subspace polynomial and picks the right roots',
  'Root-MUSIC roots the polynomial whose coefficients are the diagonal sums of the noise projector, discards roots outside the unit circle, returns the k admissible roots closest to the circle and maps each root angle to a direction through the array spacing and wavelength exactly, in every unit; the mapping inverts the steering phase of a uniform linear array, with half a wavelength as the default spacing. Covariances that are not square, unknown units and more sources than the covariance can resolve are rejected.',
  ['inputs'], 'all noise subspaces and root locations (symbolic), spacings, wavelengths',
  'Tests see one scene.',
  [E + 'music.py', M + 'sources.py'], [('polynomial and root selection', E + 'music.py: RootMUSIC1D'), ('root to direction', M + 'sources.py: from_z')], ['estimate', 'from_z']),
p('C26', 'ESPRIT recovers directions exactly from a noise-free subspace',
  'Given the signal subspace of any noise-free scene on a shift-invariant uniform array, ESPRIT recovers the exact directions in the requested unit, with least-squares and total-least-squares rotation, with any admissible subarray displacement and with default or custom row weights; the weights apply once to both subarrays and the input covariance is not modified. Invalid displacements or weights of the wrong size are rejected.',
  ['inputs', 'configurations'], 'all directions, subspace bases and weights (symbolic) within bounds',
  'Tests use one scene and default weights.',
  [E + 'esprit.py'], [('rotation', E + 'esprit.py: Esprit1D')], ['estimate']),
p('C27', 'Coarray covariance builder produces the exact virtual covariance',
  'The spatially smoothed or direct-augmented coarray covariance of any covariance matrix equals the documented construction (averaged virtual measurements arranged Toeplitz-wise, or the normalised squares of sliding windows) and, for the exact covariance of uncorrelated sources, equals the virtual uniform array covariance (or its square over the size); its size is the virtual array size reported, and the virtual array has the same spacing.',
  ['inputs', 'configurations'], 'all covariance matrices (symbolic), geometries and modes within bounds',
  'Tests compare one array.',
  [E + 'coarray.py', M + 'coarray.py'], [('builder', E + 'coarray.py: CoarrayACMBuilder1D')], ['transform', '__call__', 'virtual array']),
p('C28', 'Spatial smoothing and SVD reduction equal their definitions',
  'Spatial smoothing of a real, complex or integer covariance matrix returns the average of the covariance matrices of all overlapping subarrays, with the backward term when requested, preserving Hermitian symmetry and leaving its input unchanged, and rejects impossible numbers of subarrays; the SVD-based reduction returns the data projected on its leading right singular vectors, with the requested number of columns.',
  ['inputs'], 'all covariance/snapshot matrices (symbolic), sizes within bounds',
  'Tests compare one literal matrix.',
  [E + 'preprocessing.py'], [('smoothing', E + 'preprocessing.py')], ['spatial_smooth', 'l1_svd']),
p('C29', 'Source-number criteria implement their formulas and invariances',
  'AIC, MDL and SORTE return the number of sources minimising exactly their documented criterion over the admissible range for every list of positive eigenvalues in ascending order, and for a covariance matrix they use its eigenvalues; the result does not depend on the scale of the covariance matrix.',
  ['inputs'], 'all positive eigenvalue lists (symbolic) and snapshot counts within bounds',
  'Tests check one scene.',
  [E + 'source_number.py'], [('criteria', E + 'source_number.py')], ['aic', 'mdl', 'sorte']),
p('C30', 'Maximum-likelihood objectives equal the documented likelihoods',
  'The objective minimised by the deterministic and asymptotic (stochastic) maximum-likelihood and weighted subspace fitting estimators equals the documented function of the covariance matrix and the candidate directions (projection residual, concentrated likelihood, weighted fitting residual) for all directions and covariances, in every unit and for one- and two-dimensional source locations, with known array perturbations included and unknown ones ignored, whatever was estimated before. The stochastic likelihood of uncorrelated sources (f_nll_stouc) is log|S| + tr(S^-1 R) for every positive definite model covariance S, however small.',
  ['inputs'], 'all covariance matrices and candidate directions (symbolic) within bounds',
  'Tests do not cover these estimators at all.',
  [E + 'ml.py'], [('objectives', E + 'ml.py')], ['AMLEstimator', 'CMLEstimator', 'WSFEstimator']),
p('C31', 'Maximum-likelihood drivers respect bounds and never modify their inputs',
  'The optimiser is started from the given initial directions, restricted to the valid range of the unit for every source and coordinate, and the returned estimates are exactly the final optimiser point in the same unit and kind as the initial guess; a failed optimisation yields no estimates; neither the covariance matrix, the initial guess nor earlier estimates are modified by a run or by later runs; too many sources and covariances of another size are rejected.',
  ['inputs', 'histories'], 'all initial guesses and optimiser trajectories (symbolic) within bounds',
  'Tests do not cover these estimators at all.',
  [E + 'ml.py'], [('driver', E + 'ml.py: estimate')], ['estimate']),
p('C32', 'Sparse-recovery estimators pose the documented convex problem',
  'The sparse covariance-matching and group-sparse estimators build a dictionary whose columns are the (vectorised outer products of) steering vectors on the grid plus the noise column, pose exactly the documented penalised or constrained least-squares problem on the data, exclude the noise estimate, map the non-negative (or row-norm) solution back to the grid in order, and leave the data unchanged; the l1 and l2,1 problem objects pose the documented objective and constraints for real and complex data, for each use with the data of that use, and return the solution of the solver (zeros when there is none).',
  ['inputs', 'configurations'], 'all covariances, regularisation values, candidate solutions (symbolic) and formulations within bounds',
  'Tests do not cover these estimators at all.',
  [E + 'sparse.py', 'doatools/optim/l1lsq.py'], [('dictionary', E + 'sparse.py'), ('problems', 'doatools/optim/l1lsq.py')], ['estimate', 'L1RegularizedLeastSquaresProblem', 'L21RegularizedLeastSquaresProblem']),
p('C33', 'Cramer-Rao bounds are inverse Fisher information of the model',
  'The stochastic, deterministic and uncorrelated-source bounds equal the direction block of the inverse Fisher information matrix of their measurement model (stochastic: directions, all entries of the source covariance and the noise variance; deterministic: directions and signals; uncorrelated: directions, source powers and noise variance) in the unit of the source directions. They take every array perturbation, known or not, as part of the array, scale inversely with the number of snapshots (one by default), are symmetric, leave their inputs unchanged, and reject sources that are not far-field 1D and source covariances of the wrong size.',
  ['inputs'], 'all directions, powers, noise levels (symbolic) on arrays within bounds',
  'Tests compare a few stored numbers.',
  [P + 'crb.py'], [('bounds', P + 'crb.py')], ['crb_sto_farfield_1d', 'crb_det_farfield_1d', 'crb_stouc_farfield_1d']),
p('C34', 'Analytical MUSIC error covariance equals the documented expression',
  'The analytical error covariance of MUSIC equals the documented asymptotic expression for every uniform or arbitrary array, direction set, source covariance and noise level; it uses the perturbations selected by its argument (all by default), scales inversely with the number of snapshots (one by default), its diagonal and mean-diagonal modes agree with the full matrix, and as many sources as elements, sources that are not far-field 1D and unknown modes are rejected.',
  ['inputs'], 'all directions, source covariances, noise levels (symbolic) within bounds',
  'Tests compare stored numbers of one scene.',
  [P + 'mse.py'], [('expression', P + 'mse.py: ecov_music_1d')], ['ecov_music_1d']),
p('C35', 'Analytical coarray-MUSIC error covariance equals the documented expression',
  'The analytical error covariance of coarray-based MUSIC equals the documented asymptotic expression for any sparse linear array and any inter-element spacing, also with more sources than elements as long as the virtual array resolves them; it scales inversely with the number of snapshots and uses only the powers (the diagonal) of a source covariance. Perturbed arrays, arrays that are not linear grids, sources that are not far-field 1D and sources beyond the virtual array size are rejected.',
  ['inputs', 'configurations'], 'all directions, powers, noise levels and spacings (symbolic) within bounds',
  'Tests compare stored numbers at half-wavelength spacing.',
  [P + 'mse.py'], [('expression', P + 'mse.py: ecov_coarray_music_1d')], ['ecov_coarray_music_1d']),
p('C36', 'Source-power formats and return modes are interchangeable',
  'Specifying source powers as a scalar, a vector or a matrix with the same meaning gives the same covariance, bounds and error covariances, also for integers; functions that assume uncorrelated sources use only the diagonal of a matrix; the diagonal and mean-diagonal return modes equal the corresponding reduction of the full matrix and other modes are rejected, as are power arrays of the wrong size.',
  ['inputs', 'configurations'], 'all powers (symbolic) and all modes',
  'Tests use one format.',
  [P + 'utils.py', P + 'crb.py', P + 'mse.py'], [('normalisation', P + 'utils.py')], ['unify_p_to_matrix', 'unify_p_to_vector', 'reduce_output_matrix']),
p('C37', 'Estimators reject inconsistent inputs instead of mis-estimating',
  'Every estimator rejects, with a ValueError, covariance matrices that are not square or do not match the array, source counts that the method cannot resolve, and array types or options it cannot handle (including impossible subarray displacements, row weights or formulations, and refinement or missing noise levels where they are unsupported); consistent inputs are accepted, and a rejected call has no effect on later ones.',
  ['inputs', 'configurations'], 'all matrix shapes, source counts and array kinds within bounds',
  'Tests do not reach the rejection paths.',
  [E + 'core.py', E + 'music.py', E + 'min_norm.py', E + 'esprit.py', E + 'coarray.py'], [('validation', E + 'core.py: ensure_covariance_size, ensure_n_resolvable_sources')], ['estimate', 'constructors']),
p('C38', 'Plots draw exactly the data they are given on the given axes',
  'Spectrum plots draw, on the axes supplied, every given spectrum normalised by its maximum against the grid axis in the grid unit with the given labels, plus markers at the given estimates and true directions; array and coarray plots scatter exactly the nominal (and, on request, the actual) positions or unique differences. A logarithmic scale is used only on request. Nothing is drawn on other axes, a new figure is made only when no axes are given, and spectra, estimates or sources of the wrong shape, type or unit are rejected.',
  ['inputs', 'configurations'], 'all spectra and positions (symbolic), all option combinations within bounds',
  'Tests do not cover plotting at all.',
  ['doatools/plotting/plot_spectrum.py', 'doatools/plotting/plot_array.py'], [('plotting', 'doatools/plotting')], ['plot_spectrum', 'plot_spectrum_1d', 'plot_spectrum_2d', 'plot_array', 'plot_coarray']),
]
