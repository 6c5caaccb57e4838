# coding: utf-8
"""writes /verif/properties.jsonl (single source for the texts of the properties)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
	d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
	         anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
	if state:
		d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
	if observe:
		d['anchors']['observe_at'] = observe
	d['anchors']['hook_needed'] = hook
	assert len(title) <= 80, title
	P.append(d)

prop('C01', 'Exact multiprecision operations are exact under any ambient precision',
 "Every operation documented as exact (matrix sum, difference and product, inverse of a unit lower-triangular matrix, conversion from doubles, comparison, integer, Sollya and hexadecimal text representations, sum and difference of multiprecision state-spaces, exact simulation, SIF to exact state-space, transfer function to controllable state-space) returns the mathematically exact result. This holds whatever mpmath working precision is set when it is called and however other threads change that precision while it runs. The operators of multiprecision matrices (+, -, *) round to the working precision, and approximate comparison is right. Every operation either returns that result for compatible operands or raises ValueError for incompatible ones, and never modifies its arguments.",
 ['schedules', 'inputs', 'histories'],
 "All operand shapes and values, all ambient precisions (including below 53 bits) and all interleavings with other threads that set the precision or run other exact operations.",
 "Tests run single-threaded at the default 53-bit precision on square operands, where rounding in the ambient precision is invisible.",
 ['fixif/func_aux/mpf_matrix_fadd.py', 'fixif/func_aux/mpf_matrix_fsub.py', 'fixif/func_aux/mpf_matrix_fmul.py', 'fixif/func_aux/mpf_matrix_lt_inverse.py', 'fixif/func_aux/python2mpf_matrix.py', 'fixif/func_aux/MPFMatrix.py', 'fixif/func_aux/mpf_get_representation.py', 'fixif/LTI/dSSmp.py', 'fixif/LTI/dTFmp.py', 'fixif/SIF/SIF.py'],
 [('fadd/fsub/fmul with exact=True', 'fixif/func_aux/mpf_matrix_*.py, MPFMatrix.*_exact'), ('to_dSSexact', 'fixif/SIF/SIF.py'), ('simulate(exact=True), __add__, __sub__', 'fixif/LTI/dSSmp.py'), ('to_dSSmp', 'fixif/LTI/dTFmp.py')],
 state=[('mpmath.mp.prec', 'process-wide working precision, shared by all threads', 'mpmath')],
 observe=['return values of the operations'])

prop('C02', "The caller's multiprecision working precision is never changed",
 "No library call changes the process-wide mpmath working precision as seen by the caller once the call has ended, whether the call returns normally, rejects its arguments, or is aborted at any point by an error raised inside it (failed eigenvalue computation, failed worst-case-peak-gain computation, lack of memory, interruption). A computation that is asked for a given precision really uses it.",
 ['crash_points', 'fault_sequences', 'inputs'],
 "All library calls that compute with mpmath, all ambient precisions, all points at which an exception can be raised inside the call.",
 "Tests never make the numerical kernels fail and never look at the precision after a call.",
 ['fixif/LTI/dSSmp.py', 'fixif/LTI/dTFmp.py', 'fixif/SIF/Realization_FxP.py', 'fixif/func_aux/mp_poly_product.py', 'fixif/func_aux/mpf_poly_mult.py'],
 [('save/restore of mpmath.mp.prec', 'dSSmp.to_dTFmp'), ('mpmath.workprec(500)', 'R_FxP.computeNaiveMSB, _w_tilde')],
 state=[('mpmath.mp.prec', 'process-wide working precision', 'mpmath')], observe=['mpmath.mp.prec after each call'])

prop('C03', 'Running generated C gives the outputs of this very realization, or an error',
 "Running a realization as compiled C code returns, for every input of the right shape (SISO or MIMO), the outputs of that realization from the zero state up to double rounding, or raises an exception. It never returns the outputs of another realization, of an earlier version of the same one, or of code left by an earlier run, whatever realizations were compiled before or are being compiled at the same time in this or other processes, and whatever the compiler and the disk do (compiler missing, failing, killed, writing a truncated file; full disk, short write; stale artefacts in the output directory). After a failure, a later call without fault succeeds.",
 ['schedules', 'crash_points', 'fault_sequences', 'histories', 'configurations'],
 "All realizations, all orders and interleavings of code generation, compilation, loading and running, all compiler and disk faults at any of these steps, all contents of the output directory.",
 "The existing tests compile one realization at a time, with a working compiler and disk, in one process (and they do not pass in this environment).",
 ['fixif/SIF/Realization_implementation.py', 'fixif/SIF/Realization.py', 'fixif/SoP/SoP.py', 'fixif/SIF/templates/implementCdouble_template.c'],
 [('makeCdouble: write, cc, dlopen', 'fixif/SIF/Realization_implementation.py'), ('_Cdouble cache', 'Realization'), ('runCdouble', 'fixif/SIF/Realization_implementation.py')],
 state=[('_Cdouble', 'the loaded function of this realization', 'Realization'), ('fixif/generated/code', 'shared directory of generated code', 'file system'), ('dlopen table', 'libraries already loaded by this process', 'process')],
 observe=['runCdouble return value'])

prop('C04', 'The generated C step function keeps all its state in the caller',
 "The generated C function computes exactly one time step of the realization: its only memory is the state vector passed by the caller. Any number of independent channels interleaved in any order over the same function, with state vectors saved, copied, restored or moved at arbitrary steps, produce the same outputs as separate uninterrupted runs, and match the reference simulation up to double rounding. The function writes nothing outside its state and output buffers.",
 ['schedules', 'crash_points', 'histories'],
 "All realizations, all interleavings of channels, all checkpoint/restore points and all input sequences.",
 "Tests run one channel once from the zero state.",
 ['fixif/SIF/Realization_implementation.py', 'fixif/SIF/templates/implementCdouble_template.c', 'fixif/SoP/SoP.py'],
 [('in-place update when P is upper triangular, otherwise copies', 'implementCdouble'), ('outputs computed before states', 'implementCdouble_template.c')],
 state=[('xk', 'state vector owned by the caller', 'generated C function')], observe=['outputs and state after each call'])

prop('C05', 'A SIF stays consistent through any history of updates, also failed ones',
 "After any sequence of assignments to the coefficient matrices of a SIF (J to S, or Z) and of queries in any order, all that is deduced from the coefficients (inverse of J, equivalent state-space, simulation, extended systems from inputs, to internal variables and from round-off errors, Gramians, sensitivity of the transfer function and of the poles, which are the derivatives they stand for) equals what a SIF freshly built from the current matrices gives. An assignment that fails (wrong size, singular J, error raised inside it at any point) leaves the object exactly as it was before it.",
 ['histories', 'crash_points', 'fault_sequences'],
 "All sequences of assignments and queries, all points at which an error can be raised inside an assignment.",
 "Tests build a SIF and read it once; stale derived data needs a query, an update and another query, and half-applied updates need a failure at a chosen point.",
 ['fixif/SIF/SIF.py', 'fixif/SIF/SIF_sensibility.py', 'fixif/LTI/dSS.py'],
 [('property setters calling _build_fromZ', 'fixif/SIF/SIF.py'), ('lazy Hu, Hepsilon, Hzeta', 'fixif/SIF/SIF.py')],
 state=[('_Z', 'all coefficients', 'SIF'), ('_invJ,_dSS,_M1.._N2', 'deduced from Z', 'SIF'), ('_Hu,_Hepsilon,_Hzeta', 'lazily computed systems', 'SIF')],
 observe=['public attributes of the SIF'])

prop('C06', 'Operations on one object never alter another',
 "Quantizing, converting, combining, simplifying, slicing, simulating, generating code for, or assigning matrices taken from an object never changes it or any other object; afterwards, updating one of two related objects (a realization and its quantized copy, a filter and its realizations, a system and its sub-system or conversion) never changes the other or anything deduced from it. Matrices passed by the caller to an operation are never modified. This holds for every order of operations, including when an operation is aborted by an error.",
 ['histories', 'crash_points', 'fault_sequences'],
 "All histories of operations over a pool of related objects, with operations aborted at arbitrary points.",
 "Tests look at one object at a time; aliasing shows only through a later operation on a related object.",
 ['fixif/SIF/Realization.py', 'fixif/SIF/SIF.py', 'fixif/LTI/dSS.py', 'fixif/LTI/dSSmp.py', 'fixif/LTI/dTFmp.py', 'fixif/LTI/dTF.py', 'fixif/LTI/Filter.py'],
 [('copies of matrices in constructors', 'SIF._build_Z, MPFMatrix.__init__'), ('quantize: copy then assign', 'fixif/SIF/Realization.py')],
 state=[('coefficient matrices and caches of every live object', 'must be private to the object', 'SIF, Realization, dSS, dSSmp, dTF, dTFmp')],
 observe=['digest of the observable state of every live object after each operation'])

prop('C07', 'Seeded random filters are reproducible from their seed or name',
 "Generating a random filter, Butterworth or elliptic filter or frequency specification with a given seed (0 included), or rebuilding a random filter from its name, gives bit-for-bit the same object on every call, in every process, whatever random numbers were drawn before, whatever generators are half-way through being iterated, and whatever the hash seed and the clock. The name or seed reported by any object from a seeded generator rebuilds that object. Every generator call terminates and gives a filter of the requested dimensions and declared stability, for every state of the random source.",
 ['histories', 'schedules', 'inputs'],
 "All seeds, all earlier draws from the global random source, all interleavings of generators, all hash seeds and clock values.",
 "Tests use the generators as data sources and never compare two generations.",
 ['fixif/LTI/Filter.py', 'fixif/LTI/dSS.py', 'fixif/LTI/Butter.py', 'fixif/LTI/Elliptic.py', 'fixif/LTI/Gabarit.py'],
 [('seeding of numpy.random before drawing', 'random_Filter, random_Butter, random_Elliptic, random_Gabarit'), ('regular expression on the name', 'random_Filter')],
 state=[('numpy global random state', 'shared by everything in the process', 'numpy.random')], observe=['matrices, names and seeds of the generated objects'])

prop('C08', 'Cached system measures always describe the current system',
 "The Gramians, H2-norm, DC gain and worst-case peak gain of a state-space (and the worst-case peak gain of a transfer function) are those of its current matrices, after any history of queries, changes of basis and solver failures. When a numerical solver fails, the query either falls back to another method and gives the right value or raises LinAlgError or ValueError; a failure or a partial result is never remembered, so the same query succeeds once the solver works again. A change of basis that fails leaves the system unchanged.",
 ['histories', 'fault_sequences', 'crash_points'],
 "All sequences of queries, changes of basis and solver outcomes (success, failure, absence of the preferred solver).",
 "Tests query each measure once on a fresh object with working solvers.",
 ['fixif/LTI/dSS.py', 'fixif/LTI/dTF.py'],
 [('lazy attributes', 'dSS.Wo, Wc, H2norm, WCPG, calc_DC_gain'), ('fallback slycot -> linalg', 'dSS.calc_Wo, calc_Wc'), ('fallback Wc -> Wo', 'dSS.H2norm'), ('similarity', 'dSS')],
 state=[('_Wo,_Wc,_H2norm,_DC_gain,_WCPG', 'values computed once', 'dSS')], observe=['values returned by the queries'])

prop('C09', 'A word-length problem export that returns has written the complete file',
 "When the export of the word-length optimisation problem (AMPL data file) returns normally, the file at the requested path is complete and describes the current realization, bounds and error budget: dimensions, word-length limits, error coefficients and thresholds all agree with the realization. When the disk is full, a write is short, or a file cannot be opened, read or written, it raises an error instead of returning a result. Neither case changes the realization or any other file.",
 ['crash_points', 'fault_sequences', 'histories'],
 "All realizations and bounds, all input/output faults at any call of the export, all earlier exports to the same path.",
 "Tests never export, and never with a failing disk.",
 ['fixif/SIF/Realization_FxP.py', 'fixif/config.py', 'fixif/SIF/templates/xmpl.dat.template'],
 [('optimalWL, generateAMPLParam', 'fixif/SIF/Realization_FxP.py')],
 state=[('AMPL .dat file', 'durable result of the export', 'file system')], observe=['contents of the file when the call has returned'])

prop('C10', 'External engines: loaded before use, once, and a failed start is retried',
 "The Sollya scripts (specification checker, worst-case peak gain) are never used before they have been loaded successfully: after a failed load, every later use tries again or raises, from any current directory, and after a successful load the checker is not loaded again; the engine is asked about the system given. At most one MATLAB engine is started per process, and a failed start is retried at the next use. The search for the minimum margin ends after a bounded number of engine calls, whatever the engine answers.",
 ['fault_sequences', 'histories', 'configurations'],
 "All sequences of engine outcomes (absent, failing start, failing script load, failing check, any verdict), all orders of use, all current directories.",
 "Neither engine is available to the tests; failures of an engine are never exercised.",
 ['fixif/LTI/Gabarit.py', 'fixif/func_aux/MatlabHelper.py'],
 [('isSollyaRunning flag', 'Gabarit.readyToRunWithSollya'), ('_engine', 'MatlabHelper'), ('bound of 25 iterations', 'Gabarit.findMinimumMargin')],
 state=[('Gabarit.isSollyaRunning', 'has the script been loaded', 'class attribute'), ('MatlabHelper._engine', 'the unique engine', 'class attribute')],
 observe=['calls received by the simulated engines'])

prop('C11', 'Importing a Simulink file gives the drawn system, or an error',
 "Importing a Simulink diagram made of the supported blocks gives a realization whose outputs are those of the drawn block diagram, for every order in which the file lists its blocks and lines. A file that was truncated, damaged or replaced while it is read, or a read error at any point, gives an exception or the system of one of the complete versions of the file, and never another system. An import, successful or not, has no influence on later imports.",
 ['fault_sequences', 'crash_points', 'inputs', 'histories'],
 "All diagrams within the documented limits, all orders of elements in the file, all truncations, byte corruptions and read errors at any call.",
 "One test imports one intact file and compares nothing.",
 ['fixif/Structures/Simulink/Simulink.py', 'fixif/Structures/Simulink/diagram.py', 'fixif/Structures/Simulink/sif.py', 'fixif/Structures/Simulink/blocks.py'],
 [('zip CRC, XML parser', 'importSimulink'), ('flattendesign, summerge, expandeqgain', 'diagram.System'), ('topological sort', 'sif.Sif.reorganize')],
 observe=['impulse responses of the returned realization'])

prop('C12', 'Generated algorithms and code depend on the realization only',
 "The text of the algorithm, the LaTeX document and the C code generated for a realization depend only on the realization and the options, except for the date, which is the current one: they are the same whatever was generated before, in whatever order, however often, whatever the clock does, and the same as for an identical realization in a new process. Generating them changes nothing in the realization, and executing the generated text or C step by step gives the outputs of the realization.",
 ['histories', 'schedules', 'configurations'],
 "All realizations and options, all histories of generations and failed generations, all clock values and jumps, all hash seeds.",
 "Tests print the texts or compare one structure to a literal.",
 ['fixif/SIF/Realization_algorithms.py', 'fixif/SIF/Realization_implementation.py', 'fixif/SoP/SoP.py', 'fixif/SoP/VarName.py'],
 [('_algorithmCore', 'fixif/SIF/Realization_algorithms.py'), ('implementCdouble', 'fixif/SIF/Realization_implementation.py'), ('datetime.now()', 'both')],
 observe=['generated texts'])

prop('C13', 'Multiprecision simulation can be stopped and resumed at any step',
 "Simulating a multiprecision state-space from a given initial state gives the outputs of that system from that state. Hence stopping at any set of steps and resuming from the saved state gives exactly the outputs of the uninterrupted simulation in exact mode; in rounded mode the state is rounded to double precision after each step, as documented, and resuming from the rounded state gives the same outputs again; the simulation of a single output rounded to a given precision rounds every state and output to that precision. The saved state and the inputs given by the caller are never modified.",
 ['crash_points', 'histories', 'inputs'],
 "All systems, inputs, sets of interruption points, forms of the initial state (absent, numpy, multiprecision) and ambient precisions.",
 "Tests simulate once from the zero state in exact mode.",
 ['fixif/LTI/dSSmp.py'],
 [('simulate(u, exact, x0)', 'fixif/LTI/dSSmp.py')], observe=['outputs of simulate'])

prop('C14', 'Every realization of a filter implements that filter',
 "Every structured realization built for a filter (direct forms, state-space forms, rho-operator forms, lattice and other forms, with every option) has the input/output behaviour of the filter up to rounding, and the form the options ask for (number of sums, transposition, canonical or balanced form, rho parameters, equivalent state-space, l2 scaling of the transposed rho form); a complete iteration over all realizations of a filter gives every structure that accepts it, with every option, once. This holds for every sequence of random numbers the builders draw, every order and interleaving of builds and of half-consumed iterations over all realizations, and after builds that failed. Building a realization does not change the filter.",
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 "All well-conditioned filters, structures and options, all states of the random sources, all interleavings of builders and all failures of earlier builds.",
 "Tests build each structure a few times, in one order, with the random state of the moment.",
 ['fixif/Structures/Structure.py', 'fixif/Structures/DirectForms/DFI.py', 'fixif/Structures/DirectForms/DFII.py', 'fixif/Structures/State_Space/State_Space.py', 'fixif/Structures/rhoDFIIt/rhoDFIIt.py', 'fixif/Structures/LGS_LCW/LGS_LCW.py', 'fixif/LTI/Filter.py', 'fixif/LTI/dTF.py'],
 [('makeXXX factories', 'fixif/Structures/*'), ('registry and iterators of structures', 'Structure, Filter.iterAllRealizations'), ('random draws in the lattice parametrisation', 'LGS_LCW')],
 observe=['simulation of the realization against the filter'])

prop('C15', 'Fixed-point formats: no overflow, and output error within the budget',
 "With the most significant bits computed for a bound on the inputs, no intermediate variable, state or output ever exceeds its range for any input history within the bound, and they are the smallest such. The uniform word-length computed for an error budget is at most one bit more than the smallest sufficient one, and with it, or with the individual word-lengths returned by the optimal problem, any history of rounding errors (each at most half a unit in the last place of its variable, injected at every variable and step) keeps every output error within the budget.",
 ['histories', 'fault_sequences', 'inputs'],
 "All stable realizations and bounds, all input histories within the bound and all histories of rounding errors within the format.",
 "Tests print the formats; the guarantee is over all infinite input and error histories.",
 ['fixif/SIF/Realization_FxP.py', 'fixif/SIF/SIF.py'],
 [('computeNaiveMSB, optimalUniformWL, optimalWL', 'fixif/SIF/Realization_FxP.py'), ('Hzeta, Hepsilon', 'fixif/SIF/SIF.py')],
 observe=['trajectories of all variables, and output deviation'])

prop('C16', 'Combining and converting systems gives the right system',
 "Every sum, difference, product, negation, scaling, extraction of a sub-system, change of basis, balancing, simplification, comparison, Bode drawing and conversion between state-space, transfer function, multiprecision, filter and realization forms represents the system obtained from the systems of its operands. This holds for any chain of such operations, whatever was computed, rejected or aborted before, with operands reused, shared or combined with themselves. Operands of incompatible sizes are rejected with an error.",
 ['histories', 'inputs', 'fault_sequences'],
 "All chains of operations over all pools of systems (SISO and MIMO, with delays, without state, with hidden states), including rejected operations and operations aborted at any line and retried.",
 "Tests compare a few operations on one or two systems with the same formula.",
 ['fixif/LTI/dTF.py', 'fixif/LTI/dSS.py', 'fixif/LTI/dTFmp.py', 'fixif/LTI/dSSmp.py', 'fixif/LTI/Filter.py', 'fixif/SIF/SIF.py'],
 [('__add__, __sub__, __mul__, __neg__, __getitem__', 'dSS, dTF, dSSmp'), ('simplify, change of basis', 'dSS'), ('to_dSS, to_dTF, to_dSSmp, to_dTFmp, dSS property', 'all the classes')],
 observe=['impulse responses of the results'])

prop('C17', 'Frequency specifications keep their meaning through any use',
 "A specification given as bands in any order and form means the same to every use of it: its type, its bounds, the constraints given to Sollya (gains rounded inside the band, enlarged by the margin asked), the verdict of a check, the smallest margin for which a filter satisfies it, the shifted bands and the drawings. A filter designed for it, by SciPy or MATLAB, with or without design margin, satisfies it (reduced by that margin), and what cannot be designed is rejected with an error. No use changes the specification except an explicit design margin, whatever was done before and whatever failed (engines, solvers, aborted calls), and a use that failed can be done again.",
 ['histories', 'inputs', 'fault_sequences'],
 "All specifications in all orders and forms of their bands, all sequences of uses and margins, and all failures of the engines and solvers.",
 "Tests design and check a few random lowpass specifications and need Sollya, which is absent here.",
 ['fixif/LTI/Gabarit.py', 'fixif/LTI/dTF.py'],
 [('Band.__sub__, applyDesignMargin, sollyaConstraint', 'fixif/LTI/Gabarit.py'), ('to_dTF, check_dTF, findMinimumMargin, findMaxIssue', 'fixif/LTI/Gabarit.py')],
 state=[('_bands, _type', 'bands of the specification and its type, cached', 'fixif/LTI/Gabarit.py')],
 observe=['bands, constraints received by the engine, filters designed'])

prop('C18', 'The views of a realization show its current coefficients',
 "The blocks J to S are those of the matrix Z, and dJ to dS those of dZ, in both directions: assigning one changes the corresponding part and nothing else, in this realization and in no other one. A coefficient is deduced as trivial exactly when it is null or a power of two up to the threshold. The numbers of operations, the TikZ and LaTeX drawings and the text show exactly the current coefficients. This holds after any history of assignments, readings, rebuilding from the blocks, assignments aborted at any point (which change everything asked or nothing) and assignments of wrong sizes (which are rejected and change nothing).",
 ['histories', 'inputs', 'fault_sequences'],
 "All realizations (with and without intermediate variables, SISO and MIMO, all coefficients, given or deduced dZ) and all histories of assignments and readings.",
 "Tests print one drawing and build one realization from another.",
 ['fixif/SIF/SIF.py', 'fixif/SIF/Realization.py'],
 [('getters and setters of J..S, Z, dJ..dS, dZ', 'fixif/SIF/SIF.py'), ('isTrivial, nbOp, getTiKZSparseMatrix, getZtpmatrixLaTeX', 'fixif/SIF/SIF.py')],
 state=[('_Z, _dZ', 'the coefficients, and which are exactly implemented', 'fixif/SIF/SIF.py')],
 observe=['blocks, counts and texts'])

prop('C19', 'Error systems give exactly the errors they stand for',
 "For every realization, whatever has been done with it before, the systems deduced from it to study errors describe the deployed realization exactly. The error filter (computeDeltaSIF) and Hepsilon turn any history of rounding errors, injected at the intermediate variables, states and outputs, into the difference between the execution with those errors and the exact one; Hu and Hzeta give the values of all the variables for any inputs. SIFH_to_SIFHstar gives the realization with its coefficients rounded to the word-length (0, 1 and -1 kept), and a filter whose output, for any inputs and rounding errors, is the difference between the execution of this rounded realization and that of the exact one. The gains to all the variables are those of their impulse responses, and the formats that take the rounding errors into account never overflow under any admissible inputs and errors and are the smallest ones. None of this modifies the realization, later assignments do not change systems already returned, and a computation that fails can be done again.",
 ['inputs', 'histories', 'fault_sequences'],
 "All realizations (with and without intermediate variables, SISO and MIMO), word-lengths, inputs and histories of rounding errors, and all histories of assignments and queries.",
 "No test builds any of these systems.",
 ['fixif/SIF/SIF.py', 'fixif/SIF/SIF_tilde_error.py', 'fixif/SIF/Realization_FxP_Nastia.py'],
 [('computeDeltaSIF, Hepsilon, Hu, Hzeta', 'fixif/SIF/SIF.py'), ('SIFH_to_SIFHstar, convertToFix, WCPG_txy', 'fixif/SIF/SIF_tilde_error.py'), ('compute_MSB_allvar_extended, computeNaiveMSB, w_tilde', 'fixif/SIF/Realization_FxP_Nastia.py')],
 state=[('_Hu, _Hepsilon, _Hzeta', 'systems deduced from the coefficients, cached', 'fixif/SIF/SIF.py')],
 observe=['outputs of the systems, msb'])

NA = [
 ('N05', 'Fixed-point sums of products use sufficient formats', "The formats chosen for a fixed-point sum of products hold every partial sum.", ['inputs'], 'all formats', ['fixif/SoP/FxPSoP.py'], 'FxPSoP'),
 ('N07', 'Wave digital filter realizations implement their filter', "The lattice wave digital realization of a Butterworth filter implements that filter.", ['inputs'], 'all Butterworth filters', ['fixif/Structures/LWDF/LWDF.py'], 'LWDF through MATLAB'),
 ('N08', 'Specification checking by Sollya is rigorous', "A filter reported as satisfying a specification satisfies it at every frequency.", ['inputs'], 'all filters and specifications', ['fixif/LTI/Gabarit.py', 'fixif/LTI/gabarit.sol'], 'gabarit.sol'),
]
for id, t, s, over, txt, files, mech in NA:
	prop(id, t, s, over, txt, "Tests sample a few inputs.", files, [(mech, files[0])])

if __name__ == '__main__':
	out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
	with open(out, 'w') as f:
		for d in P:
			f.write(json.dumps(d, ensure_ascii=False) + '\n')
	print(len(P), 'properties')
