"""Metadata of the properties (source of properties.jsonl and MANIFEST.json)."""
MO, GM = 'src/models/matrix_operations.py', 'src/models/gpu_matrix_operations.py'
HOOKS = None
NA = {}
P = []
EX = 'exact reals (no rounding), sizes as bounded; '


def prop(id, title, statement, quant, why, files, mech, observe, note, over=('inputs',), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech,
                  state=list(state), observe=observe, note=note))


prop('C01', 'Vectorisation and real/complex conversions are lossless',
     'Stacking a matrix into a vector is column by column and undoing it with the original shape restores the matrix, for views too. '
     'Complex vectors and matrices, dense or sparse, convert to their real forms (real part then imaginary part; block [[Re, -Im], [Im, Re]]) '
     'and back without loss, and the matrix form turns complex products, matrix-vector products and conjugate transposes into real products, '
     'real matrix-vector products and transposes.',
     'every complex or real matrix and vector of the bounded shapes, every sparse format the code handles',
     'the tests convert one or two literal matrices; a wrong sign, order or shape rule shows only for other entries, non-square shapes, views or sparse formats',
     [MO], [('column-major vectorisation', 'vectorize_matrix, unvectorize_matrix'), ('real embedding', 'make_real_vector, make_complex_vector, make_real_matrix, make_complex_matrix')],
     'return values of the conversion functions', EX + 'matrices to 3x3 (thorough 5x4)')

prop('C02', 'Symmetric parametrisation: duplication and elimination are exact inverses',
     'For every size, expanding the lower-triangle parameters of a symmetric matrix gives back the stacked matrix, the expansion of any parameter '
     'vector is symmetric, and eliminating after expanding returns the parameters. Eliminating an arbitrary matrix yields the parameters of '
     'its symmetric part, each mirrored pair being averaged.',
     'every complex symmetric matrix, every parameter vector and every square matrix, n up to the bound',
     'the tests check a few sizes on literal matrices; index formulas can go wrong at other sizes only', [MO],
     [('index formula of the lower triangle', 'duplication_matrix'), ('averaging elimination', 'elimination_sym_matrix')],
     'products of the built matrices with arbitrary vectors', EX + 'n <= 6 (thorough 12)')

prop('C03', 'Laplacian parametrisation: branch admittances and Laplacians are equivalent',
     'For every size, expanding a vector of branch admittances gives the symmetric zero-row-sum matrix whose off-diagonal entries are their '
     'negatives, listed column by column. Eliminating any matrix reads minus the average of its mirrored off-diagonal entries, so expanding and '
     'eliminating are inverse to each other on Laplacian matrices.',
     'every vector of branch admittances and every square matrix, n up to the bound',
     'the tests use one literal size; the index arithmetic of the diagonal rows differs for every size', [MO],
     [('diagonal rows as sums of branches', 'transformation_matrix'), ('dropping the diagonal', 'elimination_lap_matrix')],
     'products of the built matrices with arbitrary vectors', EX + 'n <= 6 (thorough 12)')

prop('C04', 'Re-inserting deleted rows or columns restores their positions',
     'After deleting any set of distinct rows or columns from a matrix, re-inserting with the same indices, in any order and container, gives a '
     'matrix of the original shape with zeros at exactly those positions and every remaining entry where it was. Deleting them again gives the '
     'reduced matrix back, and the index container is not modified.',
     'every matrix and every index set in every order within the bounds, both axes',
     'the tests delete one or two fixed positions; errors appear for unsorted, adjacent, first/last or empty index sets', [MO],
     [('ascending insertion', 'undelete')], 'return value of the re-insertion', EX + 'up to 5x2, 3 positions (thorough 6x2, 4)')

prop('C05', 'GPU and CPU matrix operations agree',
     'The GPU versions of vectorisation, its inverse and the real/complex conversions of vectors and of dense or sparse matrices return exactly '
     'what the CPU versions return on the same input, and leave their input unchanged.',
     'every complex or real matrix and vector of the bounded shapes, dense and sparse',
     'the GPU module is never executed by the tests (no GPU)', [GM, MO],
     [('row-major only flatten on the GPU', 'vectorize_matrix'), ('block assembly from halves', 'make_real_matrix')],
     'return values of both implementations', EX + 'cupy is modelled by the numpy semantics it documents; CUDA kernels are outside')

prop('C06', 'Error metrics equal their definitions',
     'For real or complex parameters of any shape and zero pattern, the Frobenius error is the root of the summed squared deviations, the max '
     'error is an upper bound of the entrywise deviations that one entry attains, the relative error is the Frobenius error over the norm of the '
     'true parameters in percent, and the known-topology error is the same ratio restricted to the true non-zeros. All are non-negative, zero '
     'against itself, and the known-topology error never exceeds the relative error.',
     'every pair of bounded shape, every zero pattern of the true parameters', 'the tests evaluate one literal pair', ['src/models/error_metrics.py'],
     [('formulas', 'fro_error, max_error, rrms_error, map_error, error_metrics')], 'returned metrics', EX + 'an all-zero reference is excluded')

prop('C07', 'Adding prior knowledge appends exactly the rows that express it',
     'From any state of a prior (base, dense or sparse), adding exact, adaptive exact, sparsity, adaptive sparsity, contrast or ratio knowledge '
     'appends one row, offset and order per item with the documented coefficients (residual w(x-v), w(x/v-1), wx, x/v, w(sum/v-1), w(x1-v*x2)), '
     'scalar, per-item or missing weights and orders being expanded, and changes nothing else. A prior copied from another starts with its '
     'rows and later additions do not leak back.',
     'every prior state, index, value, weight and order within the bounds, every operation; histories by induction on one step',
     'the tests run one fixed history with literal values, several of which (value 1) hide mistakes',
     ['src/models/bayesian_prior.py', 'src/models/smooth_prior.py'],
     [('row construction', 'BayesianPrior.add_*'), ('orders and sparse storage', 'SmoothPrior.add_*, SparseSmoothPrior.add_*')],
     'the rows, offsets and orders of the prior after the call', EX + '3 parameters, 2-row arbitrary pre-state', over=('inputs', 'histories'),
     state=[('L, mu, gamma', 'rows, offsets, orders')])

prop('C08', 'The prior evaluates to its reweighted quadratic surrogate',
     'At any point, the prior returns the matrix L^T W L and vector L^T W mu where W is the diagonal of inverse smoothed residual powers '
     '1/(|r|^(2-order)+smoothing), so lower-order rows are reweighted by the current residual and quadratic rows are not. Dense and sparse '
     'priors agree, l1 rows report the smoothed l1 norm of their residual as penalty, evaluation does not change the prior, and one row or one '
     'parameter is enough.',
     'every rows/offsets/point/smoothing > 0 and every assignment of orders 0, 1, 2 within the bounds',
     'the tests evaluate one literal prior at one point', ['src/models/smooth_prior.py'],
     [('iterative reweighting', 'SmoothPrior.log_distribution, SparseSmoothPrior.log_distribution')], 'returned matrix, vector and penalty',
     EX + 'up to 3x2 (thorough 5x2, 4x4)')

NTF = 'src/models/noise_transformation.py'
prop('C13', 'Cartesian covariances of polar noise equal their probabilistic definition',
     'For every sample and channel, the exact covariance is the covariance of the complex value under gaussian magnitude and phase noise, the '
     'linearised one its first-order propagation, and the averaged one the expectation of the exact one given the noisy value. The result is '
     'the covariance of the stacked [real; imaginary] vector, channel by channel, with a common or per-channel magnitude deviation (of any other length: the first one), and '
     'different measurements are uncorrelated.',
     'every non-zero measurement and every magnitude and phase deviation >= 0 (common, per channel, single entry), sizes as bounded',
     'the tests compare one literal measurement against stored numbers; a wrong trigonometric or exponential term may vanish there', [NTF],
     [('moments of polar noise', 'exact_noise_covariance'), ('first-order propagation', 'naive_noise_covariance'),
      ('expectation over the true value', 'average_true_noise_covariance')], 'entries of the returned sparse matrix',
     EX + 'up to 2x2, 1x3 (thorough 3x3); cos/sin of the angle are algebraic, exp(k s) are powers of one unknown')

prop('C14', 'Noise covariances are valid and the inverted form is their inverse',
     'Each covariance is symmetric and positive semidefinite for every non-zero measurement and noise level, vanishes without noise, and the '
     'inverted form returned instead is its exact inverse whenever that exists. Both keep different measurements uncorrelated, for common and '
     'per-channel deviations.',
     'every non-zero measurement and noise level within the bounds', 'the tests never multiply a covariance with its inverted form',
     [NTF], [('closed form 2x2 inversion per measurement', 'exact_noise_covariance, naive_noise_covariance, average_true_noise_covariance')],
     'entries of the returned sparse matrices', EX + 'sizes to 2x2 (thorough 3x3); the inverse is checked for each 2x2 block of positive determinant')

prop('C09', 'Ordinary and total least squares return their defining solutions',
     'For any full-rank complex data with one or several outputs, the ordinary fit leaves a residual orthogonal to every regressor, and the total '
     'fit is the parameter matrix whose stacked [y; -1] spans the smallest right singular directions of the joined data. Noise-free data return '
     'the true parameters, one-dimensional outputs give one-dimensional parameters, and the data are not modified.',
     'every complex data set of full rank within the bounds', 'the tests fit one noise-free data set, where conjugation or transposition mistakes cancel',
     ['src/models/regression.py', 'src/models/error_in_variable.py'], [('pseudo inverse', 'ComplexRegression.fit'), ('null space of the joined data', 'TotalLeastSquares.fit')],
     'fitted admittance matrix', EX + 'up to 3x2 complex (thorough 5x3); singular value decomposition and inverses are trusted primitives')

RG, EV = 'src/models/regression.py', 'src/models/error_in_variable.py'
prop('C10', 'Each Bayesian regression iterate minimises the regularised cost',
     'For any data, starting point, regularisation weight and prior, every iterate minimises the squared residual of z = x y plus the weighted '
     'quadratic surrogate of the prior evaluated at the previous iterate, within the full, symmetric or Laplacian matrices. Each logged target is '
     'the squared residual plus the weighted penalty at that iterate, the default parametrisation is the full matrix, and the result is the last iterate.',
     'every data, guess, weight and (arbitrary) prior value within the bounds', 'the tests fit one data set with tolerance 1e-2 and cannot see a wrong gradient or target', [RG],
     [('normal equations over the real parameters', 'BayesianRegression.fit'), ('expansion and elimination matrices', 'dt_matrix_builder, e_matrix_builder')],
     'iteration log and fitted matrix', EX + 'up to 2 nodes, 2 iterations (thorough 3, 3); linear solves are trusted primitives')

prop('C11', 'Each errors-in-variables iterate minimises its alternating subproblems',
     'For any data, weights, starting point and prior, each iteration first corrects x to minimise the weighted squared errors of x and z for the '
     'current parameters (without weights of both: by projection, unweighted), and then chooses the parameters minimising the weighted residual for the corrected x plus the '
     'weighted prior surrogate. The weights of x and of z each apply to their own variable, non-symmetric matrices included, and each logged target is '
     'the sum of both weighted errors and the penalty.',
     'every data, symmetric weight, guess and prior value within the bounds',
     'the tests use identity weights and noise-free data, where x and z weights are interchangeable', [EV],
     [('correction of x', 'BayesianEIVRegression.fit'), ('parameter update', 'BayesianEIVRegression.fit')], 'iteration log and fitted matrix',
     EX + 'up to 2x2, 1-2 iterations; linear solves are trusted primitives')

prop('C12', 'The iteration log, stopping rule and result are consistent',
     'Every fit logs its iterations from zero with parameters and target, stops exactly at the first iteration whose target did not increase and changed '
     'by less than the absolute or the relative tolerance, or at the maximum, and returns the last logged parameters. Fitting the same model again '
     'starts a new log that does not depend on the first fit.',
     'every sequence of targets and every tolerance, up to the bounded number of iterations', 'the tests never look at the log or the number of iterations', [RG, EV],
     [('stopping rule', '_is_stationary_point'), ('log', 'iterations')], 'iteration log, number of iterations, fitted matrix', EX + 'up to 3 iterations (thorough 4), two fits',
     over=('inputs', 'histories'), state=[('iterations', 'the log')])

NO = 'src/simulation/noise.py'
prop('C15', 'Measurement noise has the stated form and is independent per measurement',
     'Polar noise multiplies magnitude and phase of every measurement by one plus its deviation times a draw of its own, and cartesian noise shifts the real '
     'and imaginary parts by a third of the accuracy times the mean absolute real or imaginary part of the channel times a draw of its own, these '
     'deviations being returned. Deviations are common or per channel (any other length: the first one), zero deviations and zero measurements change nothing, '
     'the two-signal versions return noisy voltage then noisy current, each with its own accuracy, and the measurements given are not modified.',
     'every complex measurement, deviation >= 0 and value of the random draws within the bounds',
     'the tests only check that noisy values are near but not equal; a shared draw, a swapped deviation or a wrong channel stays within tolerance', [NO],
     [('polar noise', 'add_polar_noise_to_measurement'), ('cartesian noise', 'add_cartesian_noise_to_measurement')], 'returned noisy matrices',
     EX + 'up to 2x2, 1x3 (thorough 3x3); random draws are arbitrary real numbers')

prop('C16', 'Resampling interpolates, adds noise per series and averages blocks',
     'For every series, resampling evaluates the linear interpolation of the measurement at the new times, applies the noise function with the deviations '
     'of that series (a common one or one per series, none if a deviation or the function is missing) and returns the mean of each complete block. An '
     'incomplete last block is dropped, omitted new times are the old ones, omitted old times are the sample numbers, and the measurement is not modified.',
     'every measurement, increasing sequence of times, new times in range, deviation and block length within the bounds', 'resampling is never called by the tests', [NO],
     [('interpolation, noise, block average', 'filter_and_resample_measurement')], 'returned matrix', EX + 'up to 3 original and 5 new samples, 2 series (thorough 4, 7, 3)')

prop('C17', 'Kron reduction gives the network seen from the kept nodes',
     'Reducing any set of nodes with invertible block, in any order or container, returns the matrix that maps kept voltages to kept currents, in the order of the '
     'nodes, whenever no current is injected at the reduced nodes. Symmetry and zero row sums are kept, reducing step by step equals reducing at once, reducing '
     'nothing changes nothing, and the given matrix (by default the one of the network) is not modified.',
     'every complex admittance matrix and every subset of reduced nodes within the bounds', 'no test reduces a network', ['src/simulation/abstract_network.py'],
     [('Schur complement', 'Net.kron_reduction')], 'returned matrix', EX + 'up to 4 nodes, 2 reduced (thorough 5, 3)')

prop('C18', 'Sequence and phase quantities convert consistently and without loss',
     'Phase measurements are the sums of their zero, positive and negative sequence components rotated by 120 degrees, node by node, and converting back recovers '
     'them, for measurements and admittance matrices in both directions. The law current = admittance times voltage holds in sequence components exactly when it '
     'holds in phases, a balanced system has only the positive sequence, and nothing given is modified.',
     'every complex measurement and admittance matrix within the bounds', 'no test converts between sequences and phases', ['src/simulation/lines.py'],
     [('block diagonal transformation', 'admittance_sequence_to_phase, admittance_phase_to_sequence'), ('row transformation', 'measurement_sequence_to_phase, measurement_phase_to_sequence')],
     'returned matrices', EX + '1-2 nodes, 2 samples (thorough 3)')


NET, SIM = ['src/simulation/network.py', 'src/simulation/network_3ph.py', 'src/simulation/abstract_network.py'], \
    ['src/simulation/simulation.py', 'src/simulation/simulation_3ph.py']
prop('C19', 'Voltages and currents follow from simulation results in bus order',
     'After a simulation, the voltage at every step and bus is the complex number with the simulated magnitude and angle (in degrees), in the order of the buses and, '
     'in three-phase networks, with the phases of a bus side by side; the current is the admittance matrix applied to it. The three-phase admittance matrix is the '
     'conversion to phases of the three sequence matrices, whatever their format, and there is nothing to extract before a simulation.',
     'every simulated magnitude and angle, line impedance and sequence matrix within the bounds', 'the tests only check shapes or one small network', SIM + NET[1:],
     [('voltages and currents', 'get_current_and_voltage'), ('phase admittances', 'NetData3P.make_y_bus')], 'returned matrices',
     EX + '2-3 buses (thorough 4), 1-2 steps; the power flow is a stand-in')

prop('C20', 'Networks have the buses, loads, lines and admittances they were described with',
     'A network built from bus and line descriptions, at once or call by call, has one bus per description in order, the described voltages, loads and external grids at '
     'their buses, and one line per working description, single-phase or three-phase. Its admittance matrix is the sum of the admittances of its lines in per unit, computing '
     'it changes nothing, and lines created from an admittance matrix give that matrix back. Removing buses or lines removes exactly those, with the lines and loads of removed buses.',
     'every load, voltage, impedance and line length, and the listed numberings and topologies within the bounds',
     'the tests build one network with buses numbered 1 to n and equal voltages', NET,
     [('construction', 'NetData, NetData3P: __init__, create_bus(es), create_line(s)'), ('from admittances', 'create_lines_from_ybus'), ('removal', 'remove_bus(es), remove_line(s)')],
     'tables of the network and make_y_bus()', EX + '2-3 buses (thorough 4); pandapower tables are real, its line admittances are modelled and compared on replays')

prop('C21', 'In a time series every load follows its own column of the profile',
     'At every step of a simulation each load has the power given in its own column, symmetric loads and loads given per phase alike; loads without a profile keep their nominal power. '
     'The results returned are those of the power flow, one row per step and one column per bus in order, with the options given. The profiles and the network are not modified.',
     'every power profile within the bounds', 'the tests simulate one network and look at shapes', SIM,
     [('controllers and logging', 'SimulatedNet.run, SimulatedNet3P.run'), ('reading back', 'OutputWriter files read by run')], 'simulation results',
     EX + '2-3 buses (thorough 4), 1-2 steps (thorough 3); the power flow is a recording stand-in')

prop('C22', 'Passive nodes are exactly those without power, phase by phase',
     'For each phase, a node is reported as passive exactly when it is not an external grid connection and every load at it, symmetric or given per phase, has zero active and '
     'reactive power in that phase. The nodes are listed by their bus numbers in the order of the buses, however buses and loads are numbered, several loads per bus and '
     'removed buses included.',
     'every active and reactive power, any sign, within the bounds', 'no test looks for passive nodes; numbers of buses and of loads coincide in small examples', NET[2:],
     [('search', 'Net.give_passive_nodes')], 'returned lists', EX + '2-3 buses (thorough 4), up to two loads per bus', over=('inputs',))

prop('C23', 'Random and household load profiles follow the nominal powers',
     'Gaussian loads are the nominal power times one plus the deviation times a draw of their own, per sample and load. Household profiles give every load the sum, over the selected '
     'rows in order and in megawatts, of as many independently drawn households as its nominal power contains, rounded, of the 90th percentile of a household averaged over households. '
     'Three-phase results are ordered as the active powers of the three phases followed by the reactive ones, and the nominal powers are not modified.',
     'every non-negative nominal power, household profile and random draw within the bounds', 'the tests use one Gaussian profile and only compare means within tolerances',
     ['src/simulation/load_profile.py'], [('Gaussian loads', 'generate_gaussian_load'), ('households', 'load_profile_from_numpy, load_profile_from_csv')],
     'returned matrices', EX + '1-2 loads, 1-2 rows, 2 households, up to 2 per load (thorough 3)')

prop('C24', 'The simulation steps pass on the right data and read back what they saved',
     'Generated loads cover one sample per minute of the requested days, follow the nominal powers of the loads in their order and the selected weeks, and at nodes listed as '
     'constant are blended with the nominal power by the configured constancy. Simulating passes all profiles to the time series once and returns its voltages and currents with the '
     'admittance matrix of the network. Loads and results read back later equal those returned when they were generated, and generating again gives the same loads.',
     'every profile, nominal power, constancy and deviation within the bounds, every listed choice of constant nodes', 'no test runs the simulation steps',
     ['src/simulation/run.py', 'src/simulation/run3ph.py'], [('loads', 'generate_loads'), ('time series', 'simulate_net'), ('templates', 'make_net')],
     'returned values and what is read back from the files', EX + '2-3 buses (thorough 4), 1-2 rows')

prop('C25', 'Simulated measurements are filtered and carry noise scaled by sensor ratings',
     'The rating of a sensor is the safety factor times the apparent power of its node (and phase), and that of a source is the sum of all ratings of its phase; ratings are ordered like '
     'the measurements. Voltages and currents are interpolated at the sampling frequency, get polar noise of their own with the given deviations (times the rating for current magnitudes), and are averaged over '
     'blocks; equivalent noise divides the deviations by the root of the block length and samples once per block, and the block length is returned in both cases. '
     'The actual measurements are filtered in the same way without noise, repeating gives the same noise, and measurements read back equal those returned.',
     'every voltage, current, power, safety factor, deviation and random draw within the bounds', 'no test adds noise to a simulation',
     ['src/simulation/run.py', 'src/simulation/run3ph.py'], [('ratings, noise, filter', 'add_noise_and_filter')],
     'returned values and what is read back from the files', EX + '2-3 buses, 2-3 samples, blocks of 1-3')

prop('C26', 'The reduced network is the one seen from the nodes that keep their measurements',
     'Reducing a network deletes the measurements of passive and hidden nodes (per phase where asked) and of sources, except that sources stay when a single-phase admittance matrix is Laplacian; '
     'the returned matrix has one row and column per kept measurement, in their order. Sources are cut out, hidden loads are replaced by the constant shunt that draws their mean current '
     'at their mean voltage, and the rest is eliminated, so that with constant hidden loads and source voltages the variations of the kept currents are the returned matrix times those of the kept voltages. '
     'Measurements, admittances and the list of hidden nodes given are not modified.',
     'every complex admittance matrix, voltage and current within the bounds', 'no test reduces a network',
     ['src/simulation/run.py', 'src/simulation/run3ph.py', 'src/simulation/abstract_network.py'], [('reduction', 'reduce_network'), ('elimination', 'kron_reduction')],
     'returned indices and matrix', EX + '2-5 buses, one or two sources, up to two (three-phase: three) reduced elements')

RUN = ['src/identification/run.py', 'src/identification/run3ph.py']
prop('C27', 'Priors of the identification put the configured beliefs on the right parameters',
     'The sparsity prior weights the real and the imaginary part of every parameter by the inverse of its own estimate, symmetrised. The tradeoff prior weights each branch by the inverse of its '
     'estimate and adds, with its own weight, beliefs that the sum of the branches of each node, or of all branches, is that of the estimate; regularising the diagonal only adds the beliefs on it '
     'and changes nothing for Laplacian matrices. The priors from measured loads and from known lines hold exactly the beliefs given on the branches concerned, and the estimates given are not modified.',
     'every complex estimate, weight and regularisation within the bounds', 'no test builds the priors of the identification', RUN,
     [('sparsity prior', 'build_lasso_prior'), ('tradeoff prior', 'build_complex_prior'), ('loads prior', 'build_loads_id_prior'), ('known lines', 'add_known_lines')],
     'penalties and their derivatives', EX + '2-3 nodes, Laplacian or not, one or three phases')

prop('C28', 'The identification steps use the measurements and covariances they are given',
     'Ordinary, total and sparse least squares are given each channel with its own mean removed (for Laplacian matrices, voltages with their overall mean removed and currents as they are). '
     'The weighted identification uses the covariances of exactly these measurements for the given deviations and ratings; without phase synchronization it uses voltage magnitudes and currents rotated by '
     'the voltage angles. In three phases each sequence is identified on its own and put back in its place; results saved, merged and read back later equal those returned, and no data is modified.',
     'every complex measurement, deviation and rating within the bounds', 'no test runs the identification steps', RUN,
     [('standard methods', 'standard_methods'), ('weighted identification', 'bayesian_eiv')],
     'data given to the methods, returned values, and what is read back from the files', EX + '2-3 nodes, 2-3 samples; the methods themselves are those of C09-C12 and are stand-ins here')

prop('C29', 'The simulation command saves the kept measurements with what describes them',
     'Simulating from the command line redoes the steps asked for (all of them by default) and reads the others back, with the configured loads, sampling and deviations, and reduces the configured hidden nodes, '
     'in single-phase networks that are not Laplacian the sources too. It saves actual and measured voltages and currents of exactly the kept columns, in order, with the ratings and phases of these columns, the block '
     'length and the reduced admittance matrix, all in phases or all in sequences. The configuration is not modified.',
     'every voltage, current, admittance, rating and configured value within the bounds', 'no test runs the command', ['simulate_network.py'],
     [('command', 'simulate')], 'arguments of the steps and contents of the saved file', EX + '2-3 buses, 1-2 samples; the steps are those of C24-C26 and are stand-ins here')

prop('C30', 'The identification command selects the phases asked for and passes everything on',
     'Identifying from the command line uses the saved measurements, ratings and admittances of exactly the phases or sequences asked for, and refuses phases without data and pairs of phases. Deviations are '
     'divided by the root of the block length, the weighted identification starts from the symmetric part of total least squares or from the previous estimate, continued identifications '
     'save all iterations in order, and only the methods asked for are redone. The reference, and the uncertainty at actual and estimated parameters, are saved.',
     'every voltage, current, admittance, rating, deviation, block length and estimate within the bounds', 'no test runs the command', ['identify_network.py'],
     [('command', 'identify')], 'arguments of the steps and contents of the saved files', EX + '2-6 columns, 1-2 samples; the steps are those of C27-C28 and are stand-ins here')

prop('C31', 'Reported uncertainties are those of the equation errors',
     'The information about the parameters is the sum, over samples and outputs, of the squared sensitivities of the real and imaginary equation error weighted by the inverse of its covariance, which is '
     'that of the output plus that of the inputs seen through the parameters. The covariance reported is the inverse of the information. Both are computed from the centred measurements and the covariances of their noise for the given deviations and ratings, and the data is not modified.',
     'every complex voltage, parameter and covariance within the bounds', 'no test computes uncertainties', ['src/models/error_in_variable.py', 'src/identification/run.py'],
     [('information', 'TotalLeastSquares.fisher_info'), ('step', 'eiv_fim')], 'returned matrices', EX + '1-2 nodes (thorough 3), 1-3 samples (thorough 4)')

prop('C32', 'Results are shown against the reference in the coordinates asked for',
     'The plotting command compares every saved estimate and iteration with the saved reference, all converted alike: sequences to phases unless sequences are asked for, phases to sequences if they are, single phases '
     'unchanged. Metrics are written under the name of their method, iterations keep their order, the comparison shows all methods at the admittances between nodes, and results that were not saved '
     'are skipped. Every plot draws each column of the data given, with its own label and color, and saves the data unmodified.',
     'every admittance, estimate, voltage and cost within the bounds', 'no test plots results', ['plot_results.py', 'src/identification/utils.py'],
     [('command', 'plot_results'), ('plots', 'plot_heatmap, plot_scatter, plot_series')], 'data given to the metrics and plots, and saved files', EX + '1-3 columns (thorough 6); plotting libraries are stand-ins')

prop('C33', 'Built-in networks are connected and agree with each other',
     'Every built-in network can be built by name, again and again with the same result, and has buses numbered from one at one voltage level, a single source, and lines of positive length and impedance '
     'through which every bus is reached from the source. The 33-bus and 21-bus versions of the 56-bus network have the loads, the source and the lines of the buses they stand for, the three-phase one has '
     'the same lines (0.3 km per thousand feet) and the same total loads, and the three-phase CIGRE feeder has the lines of the single-phase one and its loads on every phase. Overhead and underground line types have the voltage drops of their documented self and '
     'mutual impedances.',
     'every potential, voltage, weight and current vector', 'tests build one network and do not look at its content', ['src/simulation/net_templates.py', 'src/simulation/net_templates_3ph.py', 'src/simulation/run.py', 'src/simulation/run3ph.py'],
     [('construction by name', 'make_net'), ('descriptions', 'module level tables')], 'bus, load, line and source tables of the networks built', EX + 'networks of up to 56 buses as they are, with arbitrary voltages, weights and currents')
