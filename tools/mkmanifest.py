#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'parallel_control/'

INPUTS = ['inputs']


def prop(id, title, statement, over, text, why, files, mech):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': [P + f if not f.startswith(('exp', 'note')) else f for f in files], 'mechanism': mech}}


PROPS = [
    prop('C01', 'Associative scan returns every ordered prefix (or suffix) combination',
         'For every associative, possibly non-commutative operator and every number of elements, the scan returns at position k '
         'the combination of elements 0..k in order (of elements k..N-1 when reversed), each element used exactly once and in order; '
         'a scan-level capacity that covers the length never changes the result.',
         INPUTS, 'all lengths, operators, nested element structures, directions',
         'Tests scan a few random lengths with particular operators; a commutative or lucky operator hides ordering mistakes.',
         ['my_assoc_scan.py'], 'odd-even recursion with interleave and a level cap; NumPy and TensorFlow callers share it'),
    prop('C02', 'Discrete LQR/LQT sequential backward pass is the Riccati recursion',
         'For every horizon and every time-varying linear-quadratic tracking problem, the sequential backward passes (NumPy and '
         'TensorFlow, plain and general forms) return value-function matrices, offsets and gains of the exact dynamic-programming '
         'recursion started from the terminal cost, and the optimal control of the one-step problem is what the gains encode.',
         INPUTS, 'all dimensions, horizons, costs and affine dynamics',
         'Tests use one random tracking problem of fixed size and one horizon.',
         ['lqt_np.py', 'lqt_tf.py'], 'seqBackwardPass / seq_bwd_pass Riccati step and terminal initialisation'),
    prop('C03', 'Discrete parallel backward pass equals the dynamic-programming value functions',
         'The elements built for the parallel backward pass encode one-step conditional value functions with the terminal cost as last '
         'element, their combination is min-plus composition of such functions, and the extracted value functions and gains are '
         'those of the sequential Riccati recursion at every step, for every horizon and every problem.',
         INPUTS, 'all dimensions, horizons, costs, affine dynamics',
         'Tests compare one problem and one horizon at a numeric tolerance.',
         ['lqt_np.py', 'lqt_tf.py'], 'par_bwd initialise, combine rule, extraction of values and gains'),
    prop('C04', 'Discrete forward passes reproduce the closed-loop optimal trajectory',
         'Sequential simulation, parallel affine-map scan and both forward-backward value-function methods return, for every horizon and '
         'initial state, the states of the closed-loop system (x_{k+1}=F x+c+L u with the optimal feedback) and the corresponding controls.',
         INPUTS, 'all dimensions, horizons, gains and initial states',
         'Tests check a single trajectory of a single problem.',
         ['lqt_np.py', 'lqt_tf.py'], 'seq_simulation, seq_fwd_pass, par_fwd_pass, par_fwdbwd_pass'),
    prop('C05', 'Batch, stationary, iterated and double-check LQT solutions are consistent',
         'The batch (stacked) solution solves the same quadratic program as the recursion, the stationary solution is the fixed point of '
         'the same Riccati step, cost evaluation sums exactly the stage and terminal costs of the trajectory, and transformed cost forms '
         '(cross terms, offsets) give the same optimisation problem, for every horizon and problem.',
         INPUTS, 'all dimensions, horizons, costs and trajectories',
         'Tests compare against one reference computation on one problem.',
         ['lqt_np.py'], 'batch_solution, stationary (DARE) helpers, cost functions, cross-term transforms'),
    prop('C06', 'LQT problem containers expand and validate their parameters faithfully',
         'Whether a parameter is given once or per step, the expanded problem has at step k exactly the given value (or its documented '
         'default when omitted), problems whose parameters have inconsistent lengths or shapes are rejected, and packing a problem for the '
         'TensorFlow solvers preserves every parameter in the order the solvers unpack.',
         ['inputs', 'configurations'], 'every combination of given, omitted, constant and time-varying parameters and every horizon',
         'Tests exercise only a few combinations of omitted and repeated parameters.',
         ['lqt_np.py', 'lqt_tf.py', 'clqt_np.py'], 'LQT.checkAndExpand, linear model builders, lqt_np_to_tf'),
    prop('C07', 'Continuous LQT sequential passes integrate the Riccati and closed-loop ODEs',
         'Sequential backward and forward passes of the continuous problem (NumPy and TensorFlow) are, at every grid point, the '
         'Runge-Kutta integration of the exact Riccati differential equations from the terminal cost, and of the closed-loop dynamics '
         'from the initial state, evaluated at the right times, with the gains implied by them; the batched (blocked) evaluation covers '
         'the same grid.',
         INPUTS, 'all dimensions, step counts, horizons and time-varying coefficients',
         'Tests use one model with a fixed grid and tolerance wide enough to hide wrong stage times.',
         ['clqt_np.py', 'clqt_tf.py', 'diffeq_np.py', 'diffeq_tf.py'], 'seqBackwardPass, seqForwardPass, seqFwdBwdPass and tf counterparts'),
    prop('C08', 'Continuous LQT parallel passes equal the block-wise value-function composition',
         'For every number of blocks and steps per block, block elements start from the identity, are integrated by the backward/forward '
         'element differential equations, are combined with the value-function rule, and the extracted value functions, gains, states '
         'and controls at every grid point are those of the sequential methods.',
         INPUTS, 'all dimensions, block counts, steps per block, time-varying coefficients',
         'Tests use one block/step configuration and one model.',
         ['clqt_np.py', 'clqt_tf.py'], 'parBackwardPass_init/combine/extract, parForwardPass_*, parFwdBwdPass_* and tf counterparts'),
    prop('C09', 'Parareal iterations couple coarse and fine solvers correctly',
         'Every parareal sweep applies new = coarse(new) + fine(old) - coarse(old) block by block from the exact boundary value, each '
         'solver integrating the right block in the right time direction, so that after as many iterations as blocks the result is the '
         'fine sequential solution.',
         INPUTS, 'all block counts, iteration counts, step counts and problems',
         'Tests run one configuration and compare with loose tolerances.',
         ['parareal_clqt_np.py', 'parareal_clqt_tf.py'], 'block initialisation, sweep update, extraction of gains and states'),
    prop('C10', 'Finite-state control: all solvers return the dynamic-programming optimum',
         'Sequential and parallel backward passes return V(x,k)=min over controls of cost plus V at the successor with an attaining '
         'control, the forward pass follows that policy, and batch, sequential and parallel methods (NumPy and TensorFlow) attain the '
         'minimum total cost for every finite-state problem and horizon.',
         INPUTS, 'all state and control counts, horizons, transition tables and cost tables (for non-unique optima: values and policies; the value-function path methods are covered for unique optimal paths)',
         'Tests use one generated model with generic costs; ties, other sizes and non-trivial terminal costs are not sampled.',
         ['fsc_np.py', 'fsc_tf.py'], 'min-plus elements, combine with argmin bookkeeping, extraction, simulation'),
    prop('C11', 'Viterbi: sequential, parallel and combined methods return the MAP path',
         'All Viterbi implementations (NumPy and TensorFlow; sequential, backward-forward, parallel path, parallel max-product) compute '
         'the maximum over state paths of prior plus transition plus emission log-probabilities, and a path attaining it, for every '
         'hidden Markov model and observation sequence.',
         INPUTS, 'all state counts, observation alphabets, sequence lengths and models',
         'Tests use one simulated two- or four-state model and one observation sequence.',
         ['viterbi_np.py', 'viterbi_tf.py'], 'forward/backward recursions, elements, combine, path extraction'),
    prop('C12', 'Grid HJB solvers discretise and integrate the HJB equation consistently',
         'The one-dimensional grid solvers (NumPy and TensorFlow) build the stated upwind finite-difference backup, integrate it backwards '
         'from the terminal cost, compose block value functions by interpolated min-plus, and recover controls from the gradient, '
         'uniformly over every grid, time step and model.',
         INPUTS, 'all grid sizes, block counts, step counts, models and value functions',
         'Tests use one model and coarse tolerances; branches for other signs and boundaries are hardly reached.',
         ['hjb_grid_1d_np.py', 'hjb_grid_1d_tf.py'], 'upwind backup, interpolation, combine, direct-shooting blocks, extraction'),
    prop('C13', 'SQP steps solve the KKT system of the equality-constrained problem',
         'Each step of the sequential quadratic programming solvers (NumPy and TensorFlow) solves the KKT equations of the quadratic model '
         'with linearised constraints, using the derivatives of the given functions at the current iterate, and line search accepts '
         'only according to the stated merit function.',
         INPUTS, 'all objective and constraint functions, dimensions and iterates',
         'Tests run a few toy problems to convergence, which many wrong steps also reach.',
         ['sqp_np.py', 'sqp_tf.py'], 'KKT assembly, derivative evaluation, merit and update'),
    prop('C14', 'Condensing preserves the constrained LQT problem',
         'The condensed formulation over block boundary states has, for every block length and horizon, the same cost, dynamics and '
         'solution as the uncondensed problem, and the recovered states and controls inside blocks are the optimal ones.',
         INPUTS, 'all dimensions, horizons and block lengths',
         'Tests use one problem and one block length.',
         ['condensing_np.py', 'condensing_tf.py'], 'block stacking, condensed costs, recovery'),
    prop('C15', 'Nonlinear LQT linearises along the nominal trajectory and iterates correctly',
         'Each iteration builds the affine LQT problem whose dynamics are the first-order expansion of the model at the current nominal '
         'state and control of that step, keeps the original costs, and passes the improved trajectory on; nominal simulation and '
         'cost use the nonlinear model.',
         INPUTS, 'all models, nominal trajectories, horizons and iteration counts',
         'Tests run one scenario and check the final cost only.',
         ['nlqt_np.py', 'nlqt_tf.py', 'nonlinear_model_np.py', 'nonlinear_model_tf.py', 'cnonlin_models_np.py',
          'cnonlin_models_tf.py'], 'linearisation loops, Jacobians of the models, iteration wrappers'),
    prop('C16', 'Model builders produce the stated dynamics, costs and tracking references',
         'The linear tracking, mass and nonlinear model builders return LQT problems whose discretised dynamics, costs, references and '
         'initial state match their continuous definitions, the closed-form discretisation equals the matrix-exponential definition, '
         'and the NumPy and TensorFlow variants describe the same problem.',
         ['inputs', 'configurations'], 'all step lengths, horizons and model parameters',
         'Tests build each model once with default parameters.',
         ['linear_model_np.py', 'linear_model_tf.py', 'mass_model_np.py', 'disc.py', 'finite_model_np.py', 'ge_model_np.py',
          'text_model.py'], 'getLQT builders, discretisation, references'),
    prop('C17', 'The integrator is the classical fourth-order Runge-Kutta scheme everywhere',
         'Every integration step, for any number of coupled arrays, any right-hand side and any step (negative included), is the classical '
         'fourth-order Runge-Kutta update with stages at t, t+dt/2, t+dt/2, t+dt, the same extra parameters reaching every stage, and '
         'repeated steps advance time by exactly dt.',
         INPUTS, 'all right-hand sides, state structures, step counts and steps',
         'Tests integrate one linear system, where several wrong tableaux agree to tolerance.',
         ['diffeq_np.py', 'diffeq_tf.py'], 'rk4, rk4_scan/loop helpers in both backends'),
    prop('C18', 'Generated stochastic models are normalised and reproducible',
         'Generated hidden-Markov and finite-state models have nonnegative, normalised initial, transition and emission distributions '
         'consistent with the counts or probabilities that define them, simulated data follow those distributions step by step, and '
         'identical seeds give identical models and data on every call.',
         ['inputs', 'histories'], 'all sizes, parameters and seeds',
         'Tests call the generators with one size and seed.',
         ['finite_model_np.py', 'ge_model_np.py', 'text_model.py', 'linear_model_np.py'], 'model generators and simulation'),
    prop('C19', 'Solvers never modify the arrays and problems they are given',
         'No solver, model evaluation or scan modifies an array, list or problem object received from its caller, or module, class or '
         'default-argument state, so calling any solver twice or several solvers on the same problem gives the same results in any '
         'order. (The transition terms of the linearised problem inside the iterated nonlinear tracker are its own storage, '
         'rewritten before every use.)',
         ['inputs', 'histories'], 'every public solver entry point and every call history',
         'Tests call solvers on fresh inputs and never re-read them.',
         ['lqt_np.py', 'clqt_np.py', 'fsc_np.py', 'viterbi_np.py', 'my_assoc_scan.py', 'parareal_clqt_np.py', 'sqp_np.py',
          'condensing_np.py'], 'absence of in-place stores into argument objects'),
    prop('C20', 'Results keep full precision of the inputs',
         'No solver stores real-valued results into a container of narrower or integer type, whatever the types of the inputs '
         '(integer-valued states, costs and references included).',
         INPUTS, 'all input element types and all solver entry points',
         'Tests use floating-point inputs only.',
         ['lqt_np.py', 'clqt_np.py', 'fsc_np.py', 'viterbi_np.py', 'disc.py', 'parareal_clqt_np.py'],
         'allocation dtypes of result arrays'),
    prop('C21', 'Solvers are correct for single-step and maximum-capacity horizons',
         'Every solver accepts a horizon of one step or one block, and the declared scan capacity always covers the number of elements '
         'actually scanned.',
         ['inputs', 'configurations'], 'all horizons from one upward, all capacity settings',
         'Tests use horizons well inside the declared capacity and never a single step.',
         ['fsc_tf.py', 'viterbi_tf.py', 'hjb_grid_1d_tf.py', 'lqt_tf.py', 'clqt_tf.py'], 'max_num_levels computations and loop bounds'),
    prop('C22', 'Benchmarks measure and report what they say',
         'Each function timed by a benchmark module is the composition of solver passes its name stands for, on the problem it is given '
         '(backward, forward, condensed, iterated, parareal), with a parallel capacity that covers the horizon. Each *_speedtest driver '
         'executes that function once before the clock starts, then exactly n_iter times on the same problem, and reports the mean time '
         'per execution, the horizon and the state dimension of each problem in order, or the largest absolute deviation from the '
         'reference solution of the same problem. The problem generators yield, for each size of the requested logarithmic range, the '
         'tuple of that problem in the documented order.',
         ['configurations', 'programs'], 'all drivers, problems and iteration counts',
         'Tests call only a few drivers with tiny sizes and do not check what was measured.',
         ['linear_speedtest.py', 'finite_speedtest.py', 'nonlinear_speedtest.py', 'contlin_speedtest.py', 'hjb_grid_1d_speedtest.py',
          'viterbi_tf.py'], 'timed functions, *_speedtest drivers, generators'),
]

VN = ('Abstract interpretation of the source (value-flow summaries over symbolic sizes, closed loops) compared with '
      'reference recursions by normal forms and value numbering')

CLAIMED = {
    'C01': ('Symbolic prefix words: abstract interpretation of the recursion with an uninterpreted operator',
            'Words of element indices for every length up to a bound; the recursion itself is analysed from source.'),
    'C02': (VN, 'Symbolic dimensions and horizon; exact real arithmetic; uniform cases discharged by normal form, the rest by value '
                'numbering of the extracted terms (high-precision random interpretation at small dimensions and horizons).'),
    'C03': (VN, 'As C02; associativity of the scan operator is what C01 needs and is compared against the reference rule.'),
    'C04': (VN, 'As C02.'),
    'C05': (VN, 'As C02; convergence of iterations is not addressed.'),
    'C06': ('Abstract interpretation of the containers: every given/omitted/constant/listed pattern compared with the reference, and '
            'every inconsistent length or shape shown to end in an exception on all paths',
            'Symbolic dimensions and horizon; wrong lengths are T+1 and T-1, wrong shapes one axis longer at each step of a three-step '
            'problem.'),
    'C07': (VN, 'As C02 with the coefficient functions uninterpreted; accuracy of the integrator is not addressed.'),
    'C08': (VN, 'As C07; in the quick tier the integrator increments are uninterpreted in the composed passes (their right-hand '
                'sides are compared by the stage obligations).'),
    'C09': (VN, 'Block and step counts symbolic; the composed iteration is compared as a fold over a symbolic number of iterations, with '
                'the integrator increments uninterpreted; convergence speed and accuracy are not addressed.'),
    'C10': (VN, 'State, control and horizon counts symbolic; transition tables are arbitrary integer tables; value numbering samples small '
                'counts; ties are broken as in the reference (first minimiser).'),
    'C11': (VN, 'State, alphabet and sequence lengths symbolic; models are arbitrary positive tables; value numbering samples small counts.'),
    'C12': (VN, 'Model functions uninterpreted and pointwise, grid and step counts symbolic; the quadratic-programming solver is an '
                'uninterpreted function of its objective, constraint and start; accuracy of the discretisation and agreement of '
                'differently bracketed interpolated compositions are not addressed.'),
    'C13': (VN, 'Objective and constraint uninterpreted smooth functions (symbolic chain rule, tapes modelled); the quasi-Newton driver is '
                'compared with its updates and inner quadratic program uninterpreted (those have obligations of their own); '
                'convergence is not addressed.'),
    'C14': (VN, 'Block lengths 1-4 with every remainder class of the horizon covered up to three, number of blocks and dimensions symbolic; M=0, s=0, '
                'Z=I as the module documents; recovery for the same shapes.'),
    'C15': (VN, 'Model functions and their Jacobians uninterpreted; horizon, dimensions symbolic; number of outer iterations 0-2; convergence '
                'is not addressed.'),
    'C16': (VN, 'Discretisations compared through the defining matrix exponential and Lyapunov equation; builders with symbolic data '
                'lengths where the source allows it, otherwise for the listed sizes.'),
    'C17': (VN, 'Right-hand side uninterpreted; all numbers of state arrays up to a bound.'),
}
CLAIMED['C18'] = (VN, 'Random streams are uninterpreted functions of seed and position; sizes symbolic for the hidden Markov and text tables, '
                  'listed sizes for the simulated scenes; words are tuples of letters with an uninterpreted index.')
CLAIMED['C21'] = (VN + '; scan capacities evaluated over horizons', 'Every obligation of the solvers repeated with one step, one block or both; capacity inequality evaluated for the '
                  'horizons 1-69 and neighbours of powers of two up to 10000.')
CLAIMED['C19'] = ('Effect analysis: every operation analysed with its arguments, problem object and earlier results marked as owned by the '
                  'caller; marks follow views, elements and slices; any surviving store is reported',
                  'NumPy containers and Python lists; tensors are immutable. Contents are compared before and after, so a change that is '
                  'undone is not reported.')
CLAIMED['C20'] = ('Element-type flow: every operation analysed with the type of each input left open; each store, cast and conversion must '
                  'fit its container',
                  'Integer, single and double types and one open type per NumPy input; tensors are of one real type, as TensorFlow requires.')
CLAIMED['C22'] = ('Abstract interpretation of the benchmark modules with the solver passes as uninterpreted functions, clock readings as '
                  'symbols and the calls of the timed function recorded in order',
                  'Problem sizes symbolic; iteration counts 1, 3 and the default; lists of one and two problems; the solver passes '
                  'themselves are decided by C02-C12.')
NOT_YET = 'The reference recursions for these modules are not encoded yet, so no static check is registered for this property so far.'
NA = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -B check.py --selftest', 'checks': [], 'not_applicable': []}
    for p in PROPS:
        i = p['id']
        if i in CLAIMED:
            tech, note = CLAIMED[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 -B check.py --property %s' % i,
                                'thorough_cmd': 'VERIF_TIER=thorough python3 -B check.py --property %s' % i,
                                'technique': tech, 'level': 'other', 'level_note': note})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, NOT_YET)})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
