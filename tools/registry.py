"""Writes properties.jsonl and MANIFEST.json (run: python3 tools/registry.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'moirae/'
ECM = [M + 'models/ecm/__init__.py', M + 'models/ecm/components.py', M + 'models/ecm/utils.py', M + 'models/ecm/advancedSOH.py',
       M + 'models/ecm/transient.py', M + 'models/ecm/ins_outs.py']
UKF = [M + 'estimators/online/filters/kalman/unscented.py', M + 'estimators/online/filters/kalman/utils.py']
ONLINE = [M + 'estimators/online/__init__.py', M + 'estimators/online/joint.py', M + 'estimators/online/dual.py',
          M + 'estimators/online/utils/model.py']
PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, na=na))


CONTRACT = 'contracts on the real functions, obligations discharged by normal form, z3 and cvc5'
REAL = ('Obligations hold for all real values of every quantity and on every path of the listed configurations (dimensions, batch sizes '
        'and tree shapes are bounded and listed in the evidence); floating point is treated as real arithmetic; numpy, pydantic and the '
        'standard library are trusted through the contracts of vc/shim.py, which every run checks against the real library. ')

P('C01', 'Health parameters: reading and writing as a vector agree and touch nothing else',
  'For any selection of health parameters, written by name or by collection, the vector read holds exactly the stored values in the order of '
  'the selection, and writing a vector makes the next read return it while every other parameter, the updatable flags and the vector itself '
  'stay as they were. Selecting by default means exactly the parameters marked updatable along their whole path. A name that does not exist, a '
  'parameter that is not updatable and a vector with the wrong number of values are refused.',
  ['inputs', 'configurations'], 'every parameter tree, choice of updatable flags, selection of names and vector of values (one per batch member)',
  'The tests read and write a few hand-picked names of one cell; the property is about every tree, selection, batch and value.',
  [M + 'models/base.py'], [('tree walk, get and update of parameters', M + 'models/base.py: HealthVariable')], CONTRACT)
P('C02', 'The k-th name designates the k-th column, everywhere names are offered',
  'Whenever the package offers a list of names for a vector - of a state, of inputs or outputs, of any selection of health parameters or '
  'collections, of the states, controls and outputs of an estimator - there is one distinct name per column and the k-th name designates the '
  'k-th column. In particular, setting only the parameter called by the k-th name changes column k of the vector and no other.',
  ['inputs', 'configurations'], 'every container, parameter tree, selection and estimator, with scalar and vector valued quantities',
  'Tests compare literal name lists of one model; no test relates names to columns for arbitrary selections and sizes.',
  [M + 'models/base.py', M + 'estimators/online/utils/model.py', M + 'estimators/online/__init__.py'],
  [('names of containers and parameters', M + 'models/base.py'), ('names of the estimators', M + 'estimators/online/')], CONTRACT)
P('C03', 'States and inputs survive the conversion to and from arrays',
  'Converting a state, input or measurement to an array gives one row per batch member and one column per stored value in the order of the '
  'fields, with values shared by the batch repeated, and loading an array gives a container whose array is that array. Optional quantities that '
  'are absent take no column and stay absent, arrays too short for the container are refused, and making a copy with new values never changes the container it started from.',
  ['inputs', 'configurations'], 'every container class, field sizes, batch size and value, including absent optional fields',
  'The tests use two containers with one or two batch members.',
  [M + 'models/base.py'], [('conversion to and from arrays', M + 'models/base.py: GeneralContainer')], CONTRACT)
P('C04', 'Evaluating changes nothing that was given, and copies share no memory',
  'Updating states, predicting outputs, evaluating a loss, filtering, estimating and converting leave the values of every parameter, state, '
  'input, distribution and array they are given as they were. Objects documented or returned as copies - deep copies, the states and '
  'histories held by simulators and estimators, containers loaded from arrays - share no memory with their originals, so overwriting either '
  'in place leaves the other alone.',
  ['inputs', 'histories', 'configurations'], 'every model evaluation, estimator step and copy, for all values and batch sizes',
  'Aliasing shows only when an array is overwritten later or twice; tests check outputs, not the arguments afterwards.',
  ECM + [M + 'models/base.py', M + 'simulator.py'] + ONLINE + UKF + [M + 'estimators/offline/loss.py'],
  [('deep copies before evaluating', M + 'simulator.py, ' + M + 'estimators/online/'), ('in-place arithmetic', M + 'models/ecm/')], CONTRACT)
P('C05', 'A batch of cells evolves exactly like its members one at a time',
  'For the equivalent circuit model, updating the transient state and predicting the terminal voltage of a batch gives, for every batch '
  'member, what evaluating that member alone gives. This holds whichever of the health parameters, transient states and temperatures (and, for the voltage, currents) vary over '
  'the batch and whichever are shared by it.',
  ['inputs', 'configurations'], 'every subset of batched quantities, batch size and value',
  'Tests batch one or two quantities at a time and often check shapes only.',
  ECM, [('broadcasting over batch and SOC dimensions', M + 'models/ecm/')], CONTRACT)
P('C06', 'State of charge counts exactly the charge that passed',
  'Over a step the state of charge changes by the charge that flowed (the integral of the current over the step, constant or varying linearly '
  'between the two inputs as configured) divided by the capacity in ampere-seconds, times the coulombic efficiency only when charging '
  '(of a current that changes sign within the step, only the part that charges). The charge on a series capacitor changes by the same charge without the efficiency, and steps of zero current, or of no duration, change neither.',
  ['inputs', 'histories'], 'all currents, durations, capacities, efficiencies and initial states',
  'The tests follow a few charge profiles; the law is about every current, sign change and step length.',
  [M + 'models/ecm/__init__.py', M + 'models/ecm/transient.py'], [('charge update', M + 'models/ecm/__init__.py: EquivalentCircuitModel')], CONTRACT)
P('C07', 'Each RC current follows the exact solution of its differential equation',
  'Over a step, the current through the resistor of each RC element moves to the exact solution of its first-order equation, for a constant '
  'current or one varying linearly over the step as configured, with the time constant of that element at the SOC and temperature of the '
  'beginning of the step. Hence splitting a step with constant parameters in two gives the same state, and elements do not affect each other.',
  ['inputs', 'histories'], 'all currents, durations, resistances, capacitances, initial states and numbers of RC elements',
  'The tests check a few steps against tolerances; the law is an identity over all values.',
  ECM, [('exponential update', M + 'models/ecm/__init__.py: EquivalentCircuitModel')], CONTRACT)
P('C08', 'Hysteresis approaches its limit exponentially and never passes it',
  'Over a step, the hysteresis voltage relaxes exponentially, with the charge counted by the state of charge relative to the capacity times the approach rate, '
  'towards the maximum (at the SOC of the beginning of the step) with the sign of the current. It does not move when no current flows, always '
  'lies between where it was and its limit, and stays within the maximum if it was within it. Parameters with a negative approach rate are refused when they are made.',
  ['inputs', 'histories'], 'all currents (including sign changes), durations, capacities, rates, maxima and initial states',
  'The tests sample two directions of current and one rate.',
  ECM, [('hysteresis update', M + 'models/ecm/__init__.py: EquivalentCircuitModel')], CONTRACT)
P('C09', 'Terminal voltage is the sum of the voltages of the circuit elements',
  'The predicted terminal voltage equals the open circuit voltage at the present state of charge and temperature, plus the current times the '
  'series resistance, plus the charge over the capacitance of the series capacitor if there is one, plus the resistor current times the '
  'resistance of every RC element, plus the hysteresis voltage. Each parameter is evaluated at the present state of charge and temperature, and '
  'at rest with relaxed elements the voltage is the open circuit voltage.',
  ['inputs', 'configurations'], 'all parameters, states, currents, temperatures and numbers of RC elements',
  'The tests compare a handful of voltages with numbers.',
  ECM, [('voltage prediction', M + 'models/ecm/__init__.py: EquivalentCircuitModel')], CONTRACT)
P('C10', 'Parameters that depend on SOC and temperature follow their definition',
  'A parameter given at SOC points takes exactly these values at the points and lies on the straight lines between them (continued beyond them '
  'where extrapolation is allowed), with points spread evenly over 0 to 1 unless given. A parameter with a temperature coefficient is multiplied by '
  'the exponential of that coefficient times the difference to the reference temperature, the open circuit voltage is the reference plus the '
  'entropic coefficient times that difference, the time constant is resistance times capacitance, and the capacity in ampere-seconds is 3600 times '
  'the one in ampere-hours.',
  ['inputs', 'configurations'], 'all values, SOC points, SOCs (one, several, per batch member) and temperatures',
  'The tests evaluate single parameters at a few points.',
  [M + 'models/ecm/components.py', M + 'models/ecm/utils.py', M + 'models/base.py'],
  [('interpolation', M + 'models/ecm/utils.py: SOCInterpolatedHealth'), ('components', M + 'models/ecm/components.py')], CONTRACT)
P('C11', 'Coordinate conversions transform samples and covariances consistently',
  'A linear conversion maps samples by its matrix and bias and covariances by the matrix on both sides, the absolute value conversion takes '
  'absolute values and transforms covariances with the signs at the pivot, and the identity changes nothing. Converting back after '
  'converting restores the samples (up to the sign for absolute values) and the covariance, for single samples and for batches alike. The arrays given are left as they were.',
  ['inputs', 'configurations'], 'all samples, covariances, invertible matrices, biases and pivots',
  'The tests use one matrix each.',
  [M + 'estimators/online/filters/conversions.py'], [('conversion operators', M + 'estimators/online/filters/conversions.py')], CONTRACT)
P('C12', 'Distributions combine and convert without losing or inventing information',
  'Combining independent distributions concatenates their means in the given order and puts their covariances on the diagonal blocks with '
  'nothing outside, a known value counting as zero covariance. Converting a distribution converts its mean as a sample and its covariance '
  'around that mean, in both directions, and leaves the original as it was; moments of inconsistent sizes are refused.',
  ['inputs', 'configurations'], 'all means, covariances, numbers and kinds of distributions',
  'The tests combine two fixed distributions.',
  [M + 'estimators/online/filters/distributions.py', M + 'estimators/online/filters/conversions.py'],
  [('distributions', M + 'estimators/online/filters/distributions.py')], CONTRACT)
P('C13', 'The sigma points carry exactly the mean and covariance they stand for',
  'The weights add up to one, and the weighted sigma points have exactly the mean and covariance of the state extended by process and sensor '
  'noise, including covariances that are only positive semi-definite. The estimates assembled from points are their weighted mean and '
  'covariances, hence exact for every affine function, whatever the model. Tuning parameters and noise matrices outside the documented ranges are refused.',
  ['inputs', 'configurations'], 'all means, covariances, noises and admissible tuning parameters',
  'The tests look at one tuning and one covariance.',
  UKF, [('sigma points and weights', UKF[0])], CONTRACT)
P('C14', 'On an affine model, the unscented filter is the Kalman filter',
  'On a model affine in the state, one step returns and keeps exactly the posterior mean and covariance of the Kalman filter, and returns the '
  'predicted output with its covariance, using the previous control to move the state and the new control to predict the output. The result of '
  'a sequence of steps is that of the Kalman recursion, so nothing but the posterior and the last control is carried from step to step. A model may give one output for all samples if it does not depend on the state.',
  ['inputs', 'histories', 'configurations'], 'all affine models, covariances, noises, controls, measurements, tuning parameters and sequences of steps',
  'The tests run one system with fixed seeds and loose tolerances.',
  UKF + [M + 'estimators/online/filters/base.py'], [('prediction and correction', UKF[0])], CONTRACT)
P('C15', 'Covariances stay symmetric and positive semi-definite',
  'Whatever the model, the covariance the filter keeps and returns after a step is symmetric and positive semi-definite, and filtering can go on '
  'from it. A matrix that is positive definite is kept as it is, and any other is replaced by the nearest positive semi-definite matrix to its '
  'symmetric part, the one whose negative eigenvalues are set to zero.',
  ['inputs', 'histories'], 'all matrices, models, controls, measurements and sequences of steps',
  'The tests repair one matrix; covariances lose definiteness only after particular histories.',
  UKF, [('repair of covariances', UKF[1])], CONTRACT)
P('C16', 'The joint estimator filters the right quantities in the right coordinates',
  'The joint estimator filters the transient state and the selected health parameters together, starting from the given values and covariances, '
  'and its estimates are expressed in the coordinates of the model: each sample is evaluated by the model with its own transient state and health '
  'parameters, between the previous and the new inputs, and a degradation model, if there is one, is told for each sample its own health parameters '
  'and state, the previous inputs, and the output the model gives for exactly these. Normalizing the health parameters, which scales them by their initial values, leaves every '
  'estimate as it is without normalization when the noise is given in the coordinates of the model.',
  ['inputs', 'histories', 'configurations'], 'all initial values, covariances, noises, inputs, measurements, selections of parameters and normalization',
  'The tests compare a few runs with tolerances of percents.',
  ONLINE + [M + 'estimators/online/filters/conversions.py', M + 'estimators/online/filters/base.py'],
  [('model wrapper', M + 'estimators/online/utils/model.py'), ('initialisation', M + 'estimators/online/joint.py')], CONTRACT)
P('C17', 'The dual estimator keeps two filters consistent with each other',
  'At every step of the dual estimator, the filter of the transient state predicts with the health parameters estimated at the previous step and '
  'the filter of the health parameters predicts from the transient state estimated at the previous step and the previous inputs; a degradation '
  'model, if there is one, is told the health parameters of each sample, that transient state, the new inputs, and the output the model gives for '
  'exactly these. The estimate '
  'combines both posteriors, in the coordinates of the model, without correlation between them, and the predicted output returned is that of the '
  'filter of the transient state.',
  ['inputs', 'histories', 'configurations'], 'all initial values, covariances, noises, inputs, measurements and numbers of steps',
  'The tests compare a few runs with tolerances of percents.',
  ONLINE, [('dual estimator', M + 'estimators/online/dual.py'), ('degradation wrapper', M + 'estimators/online/utils/model.py')], CONTRACT)
P('C18', 'A simulation is the iteration of the model, and its records show it',
  'Each simulated step applies the model to the last recorded state and inputs and the new inputs, the health parameters evolve by the degradation '
  'model if there is one, and the histories hold one entry per step besides the initial one, in order, unaffected by later steps. The tables '
  'and datasets exported from a simulation contain exactly these values, one row per step and batch member, each labelled with the batch member it '
  'belongs to.',
  ['inputs', 'histories', 'configurations'], 'all models, input sequences, batch sizes and storage options',
  'The tests export a few steps of one cell; mixing up rows needs batches and several steps.',
  [M + 'simulator.py'], [('simulator', M + 'simulator.py')], CONTRACT)
P('C19', 'Online estimation visits the dataset in order and reports what it estimated',
  'Running an estimator over a dataset steps it with the inputs and measurements of the rows in order, a missing temperature being 25 degrees, and '
  'the table returned holds, row by row, the mean and standard deviation of every estimated state and predicted output under its name. The estimator '
  'returned at the end, and the states written to a file on the way, are those of that same run.',
  ['inputs', 'histories', 'configurations'], 'all datasets, estimators and numbers of steps',
  'The tests check the shape of the table and that values are not missing.',
  [M + 'interface/__init__.py'], [('run over a dataset', M + 'interface/__init__.py')], CONTRACT)
P('C20', 'What is written to an HDF5 file is read back',
  'States and predicted outputs written to a file step by step are read back with the same means, the requested part of the covariances, times and '
  'cycle numbers, in the order written, for every storage option; the per-cycle record holds the first estimate of each cycle. Files grow past their '
  'expected size when resizable, and writing to a file that is not open or that cannot hold the data is refused without altering it. The initial health and state recorded along with the estimates can be loaded again, and files opened for writing are closed afterwards, also after an error.',
  ['inputs', 'histories', 'configurations'], 'all estimates, sequences of times and cycles, and storage options',
  'The tests write one short run and look at shapes.',
  [M + 'interface/hdf5.py'], [('writer and reader', M + 'interface/hdf5.py')], CONTRACT)
P('C21', 'The loss of a candidate is the mean squared error of simulating it',
  'The loss of a vector of initial states and health parameters is the mean, over the dataset, of the squared difference between recorded voltage and '
  'the voltage predicted by the model started from that state with those parameters. Evaluating many candidates at once gives, for each, what '
  'evaluating it alone gives; candidates do not affect each other or later evaluations, and the starting point offered is the given state followed '
  'by the updatable parameters. A candidate with a prediction that is not a number has a loss that is not a number.',
  ['inputs', 'histories', 'configurations'], 'all datasets, candidates and batches of candidates',
  'The tests check that the loss at the true parameters is small.',
  [M + 'estimators/offline/loss.py'], [('losses', M + 'estimators/offline/loss.py')], CONTRACT)
P('C22', 'Offline estimation returns the optimum split into state and health parameters',
  'The offline estimator returns the initial state and the health parameters that correspond to the optimum found, split and named in the order '
  'of the starting point, and the result of the optimizer. Parameters that are not updatable keep their values, the objects given are left alone, '
  'and the loss of what is returned is the loss of the optimum.',
  ['inputs', 'configurations'], 'all starting points, optima and selections of parameters',
  'The tests check one optimum with tolerance.',
  [M + 'estimators/offline/scipy.py', M + 'estimators/offline/__init__.py', M + 'estimators/offline/loss.py'],
  [('minimizer', M + 'estimators/offline/scipy.py')], CONTRACT)
P('C23', 'Extractors recover the parameters of the data they are given',
  'The extracted capacity is the largest charge capacity of any cycle of the dataset, expressed so that using it as parameter gives that capacity; cycles without a recorded capacity are left out. '
  'The extracted open circuit voltage curve uses the requested SOC points and interpolation, gives samples of smaller current more weight, '
  'recovers exactly a curve that the data follow without error, and datasets without time series or not known to sample the required range of SOC are '
  'refused.',
  ['inputs', 'configurations'], 'all datasets, capacities, SOC points and curves',
  'The tests extract from one recorded dataset.',
  [M + 'extractors/ecm.py', M + 'extractors/base.py'], [('extractors', M + 'extractors/ecm.py')], CONTRACT)
P('C24', 'Theoretical energy and cell templates follow from the parameters',
  'The theoretical energy of a cell is the integral of its open circuit voltage over the given range of SOC times its capacity, to the accuracy '
  'of a hundred points (exactly where the curve is straight, and then additive over adjacent ranges), whatever the order of the limits, and for '
  'every batch member that of the member alone. The templates of a cell and of its transient state have the parameters and values the options '
  'ask for, every RC element its own, and share no memory with each other or with the options.',
  ['inputs', 'configurations'], 'all curves, capacities, SOC ranges and template options',
  'The tests compute one energy and one template.',
  [M + 'models/ecm/advancedSOH.py', M + 'models/ecm/transient.py'],
  [('energy and template of a cell', M + 'models/ecm/advancedSOH.py'), ('template of a state', M + 'models/ecm/transient.py')], CONTRACT)
P('C25', 'The Thevenin interface solves every batch member as its own circuit',
  'A step of the Thevenin model solves, for every batch member, the circuit with the parameters, transient state, environment, current (of '
  'opposite sign) and duration of that member alone, and returns the state of charge, temperature and overpotentials at the end of the step. The '
  'terminal voltage is the open circuit voltage plus the current times the series resistance minus the overpotentials. Parameters given as '
  'polynomials of SOC and temperature (relative to the reference temperature) take the values of these polynomials for the member asked for, and '
  'circuits whose numbers of resistors and capacitors do not match are refused.',
  ['inputs', 'configurations'], 'all parameters, states, inputs and solvers, whichever of them are batched',
  'The tests need the solver package and use one cell, never a batch.',
  [M + 'models/thevenin/__init__.py', M + 'models/thevenin/components.py', M + 'models/thevenin/state.py'],
  [('one solver per batch member', M + 'models/thevenin/__init__.py: _make_models'), ('polynomials', M + 'models/thevenin/components.py')],
  CONTRACT, note='The solver (package thevenin, not installed) is replaced by its contract: an arbitrary function of what it is given.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']]))) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[])
    for p in PROPS:
        if p['technique']:
            man['checks'].append(dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough ./check.sh {p["id"]}',
                                      technique=p['technique'], level='other', level_note=REAL + (p['note'] or '')))
        else:
            man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
