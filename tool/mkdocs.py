#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(ROOT, 'lib')]
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    files = ['src/' + f if not '/' in f else f for f in files]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


RBS = ['rigid_body_system.cpp']
SYS = ['generic_rigid_body_system.cpp', 'optimized_nsv_rigid_body_system.cpp', 'rigid_body_system.cpp']
CON = ['clutch_constraint.cpp', 'constant_rotation_constraint.cpp', 'fixed_position_constraint.cpp',
       'fixed_rotation_constraint.cpp', 'line_constraint.cpp', 'link_constraint.cpp', 'rolling_constraint.cpp',
       'rotation_friction_constraint.cpp', 'simple_gear_constraint.cpp']

p('C01', 'Object registries stay consistent through every add, remove and reset',
  'After any sequence of adding, removing and resetting bodies, constraints and force generators, each registry holds '
  'exactly the objects added and not removed, each registered object knows the position it is stored at, and the counts '
  'agree. A removed object is marked unregistered, and removing one object never loses or duplicates another.',
  ['histories'], 'every sequence of add/remove/reset calls on registries of any size',
  'The tests add a handful of objects and never remove one, so no removal history (last, middle, only element) is seen.',
  RBS + ['force_generator.cpp', 'constraint.cpp', 'rigid_body.cpp'],
  [('swap-with-last removal', 'RigidBodySystem::removeRigidBody/removeConstraint/removeForceGenerator'),
   ('append and number', 'RigidBodySystem::addRigidBody/addConstraint/addForceGenerator')],
  [('index of an object', 'position in its registry, -1 when unregistered', 'RigidBody/Constraint/ForceGenerator')])
p('C02', 'A step gathers every registered body and writes every body back',
  'A simulation step starts from the position, orientation, velocities and mass of every registered body and from zero '
  'accelerations, with room for every body and every scalar constraint, and knows the first row of every constraint. '
  'When it returns, position, orientation and velocities of every registered body are those of the integrated state, '
  'and mass, inertia and registration are untouched.',
  ['inputs', 'configurations'], 'any number of bodies, constraints and substeps, any body values, both systems',
  'The tests simulate a few bodies; a copy that skips, swaps or truncates one body or field for other counts is not sampled.',
  SYS + ['system_state.cpp'],
  [('gather', 'RigidBodySystem::populateSystemState'), ('scatter', 'GenericRigidBodySystem::process, OptimizedNsvRigidBodySystem::process')])
p('C03', 'Forces restart from zero and every generator acts exactly once',
  'Each force evaluation first clears the applied force and torque of every body and then applies every registered force '
  'generator exactly once to the current state. Forces therefore never accumulate from one evaluation into the next.',
  ['inputs', 'configurations', 'histories'], 'any number of bodies and generators, any history of previous evaluations',
  'Tests use one or two generators; accumulation or skipping for other counts or orders is not sampled.',
  SYS, [('clear and apply', 'RigidBodySystem::processForces')])
p('C04', 'Accelerations are inverse mass times applied plus constraint force',
  'After each constraint evaluation the linear acceleration of every body is its applied force plus the sum of all '
  'constraint forces acting on it (multiplier times jacobian, over every row and both body slots) divided by its mass, '
  'and the angular acceleration the same with torque and moment of inertia. The mass matrices hold mass, mass, inertia '
  'of every body in order, and their reciprocals.',
  ['inputs', 'configurations'], 'any bodies, constraints, multipliers; both systems; constraints sharing or not sharing bodies',
  'Tests check a few trajectories with tolerances; the identity is required for every topology and multiplier.',
  SYS, [('reaction accumulation', 'GenericRigidBodySystem::processConstraints, OptimizedNsvRigidBodySystem::processConstraints'),
        ('mass matrices', 'RigidBodySystem::populateMassMatrices')])
p('C05', 'Constraint rows reach the linear solver in the right place',
  'Each scalar constraint occupies one row of the linear system, rows of consecutive constraints follow one another '
  'without gap or overlap, and each row holds the jacobian (and its rate) of that constraint in the blocks of the '
  'bodies it acts on, in the order of its bodies. Every constraint is evaluated once per evaluation on the current '
  'state, and the solver is given this system with a warm start and its result is the one used.',
  ['inputs', 'configurations'], 'any number, order and row count of constraints, any body positions in the registry, unregistered bodies',
  'Tests use a few fixed topologies; misplacement needs mixed row counts or body orders to show.',
  SYS, [('assembly loop', 'GenericRigidBodySystem::processConstraints, OptimizedNsvRigidBodySystem::processConstraints')])
p('C06', 'The general system solves the stabilised acceleration equation',
  'In the general system the right hand side of every row with at least one registered body is minus the jacobian rate '
  'times the velocities, minus the jacobian times inverse mass times applied forces, minus spring gain times constraint '
  'error, minus damping gain times constraint velocity, using that row\'s own gains, error and jacobians.',
  ['inputs', 'configurations'], 'any state, forces, masses, gains, jacobians and topology',
  'A trajectory test tolerates small or cancelling errors and never varies all terms independently.',
  ['generic_rigid_body_system.cpp'], [('right hand side', 'GenericRigidBodySystem::processConstraints')])
p('C07', 'The sequential-impulse system solves the biased velocity equation',
  'In the velocity-level system the right hand side of every row is minus (jacobian times the velocities predicted by '
  'the applied forces over one substep, plus the velocity bias, plus bias factor over substep times constraint error). '
  'Force limits enter as impulses (times the substep) and are given to the solver whenever it supports limits; solved '
  'impulses are turned back into forces by dividing by the substep.',
  ['inputs', 'configurations'], 'any state, forces, masses, substep, bias factor, limits, jacobians and topology',
  'Trajectory tests fix the substep and bias factor and hardly use limits, so wrong scaling cancels or hides.',
  ['optimized_nsv_rigid_body_system.cpp'], [('right hand side', 'OptimizedNsvRigidBodySystem::processConstraints')])
p('C08', 'Reported constraint forces are those that were applied',
  'After a step every constraint reports, for each of its rows and each of its bodies, exactly the force and torque the '
  'integrated state holds for that row and body. For every evaluation that value is the solved multiplier of the row '
  '(a force, not an impulse) times the row\'s jacobian for that body.',
  ['inputs', 'configurations'], 'any number of constraints, rows and bodies, both systems',
  'Tests read reactions of one or two constraints; row offsets only matter with mixed row counts.',
  SYS, [('reaction copy-out', 'GenericRigidBodySystem::process, OptimizedNsvRigidBodySystem::propagateResults')],
  [('F_x, F_y, F_t', 'force and torque per row and body', 'Constraint')])
p('C09', 'Substeps follow the integrator protocol and add up to the requested time',
  'A step of length dt with N substeps starts and ends the integrator exactly N times, each with length dt/N. Within a '
  'substep the integrator advances, forces are evaluated, constraints are evaluated and the integrator consumes the '
  'result, in that order, repeated until the integrator reports its last stage, whose evaluation is still consumed.',
  ['inputs', 'programs', 'configurations'], 'any dt, any number of substeps, any integrator following the interface, both systems',
  'Tests observe end states of two integrators with one substep count; a missing last stage or wrong order shows only as accuracy.',
  SYS + ['ode_solver.cpp', 'euler_ode_solver.cpp', 'rk4_ode_solver.cpp', 'nsv_ode_solver.cpp'],
  [('substep loop', 'GenericRigidBodySystem::process, OptimizedNsvRigidBodySystem::process'),
   ('stage machine', 'RK4OdeSolver::step/solve')])
p('C10', 'Euler and velocity-stepping integrators apply exactly their update rule',
  'The explicit Euler integrator advances every velocity by acceleration times step and every position by the velocity '
  'held before the update times step. The velocity-stepping integrator advances every velocity first and then every '
  'position by the new velocity; both cover every body and its orientation and finish in one stage.',
  ['inputs', 'configurations'], 'any number of bodies, any state and step',
  'A tolerance test on a trajectory cannot separate old from new velocity or a skipped body.',
  ['euler_ode_solver.cpp', 'nsv_ode_solver.cpp', 'ode_solver.cpp'],
  [('update', 'EulerOdeSolver::solve, NsvOdeSolver::solve')])
p('C11', 'The Runge-Kutta integrator is the classical fourth-order method',
  'Over its four stages the Runge-Kutta integrator evaluates the system at the initial state, twice at half step and '
  'once at full step, each reached from the initial state with the slopes of the previous stage, and ends at the initial '
  'state plus step/6 times (1,2,2,1)-weighted slopes, for every body\'s position, orientation and velocities. The '
  'reported reactions are combined with the same weights.',
  ['inputs', 'configurations'], 'any number of bodies and constraints, any state, accelerations and step, repeated steps',
  'An order-one mistake in one coefficient changes a tolerance test little; stages are not observable in it.',
  ['rk4_ode_solver.cpp'], [('stage machine', 'RK4OdeSolver::start/step/solve/end')])
p('C12', 'Position constraints measure their geometry and differentiate it exactly',
  'For every state each position constraint reports the geometric error it is documented to control (bodies meeting at '
  'a joint, a point fixed in space, a fixed orientation, a point on a line, two linked points, a rolling contact) and a '
  'jacobian that is exactly the derivative of that error with respect to the coordinates of its bodies. Points and '
  'axes configured through the setters are the ones used.',
  ['inputs'], 'every position, orientation and parameter value of each constraint type',
  'Tests run few trajectories in which a wrong partial derivative is partly corrected by stabilisation.',
  CON, [('calculate', 'the position constraint classes')])
p('C13', 'The reported jacobian rate is the time derivative of the jacobian',
  'For every state and velocity each position constraint reports a jacobian rate equal to the exact time derivative of '
  'its own jacobian along that velocity. Constraints with constant jacobian report zero.',
  ['inputs'], 'every position, orientation, velocity and parameter value',
  'The rate only matters at speed; tests run slow mechanisms with tolerance.',
  CON, [('calculate', 'all constraint classes')])
p('C14', 'Every constraint fills its whole output record with its own gains',
  'For every row a constraint declares, it fills every part of the output (error, jacobian and rate for all of its '
  'bodies, both gains, limits, velocity bias) on every path and writes nothing outside it. Gains are the configured '
  'ones, a position constraint without velocity bias or limits reports zero bias and unlimited force, and a new '
  'constraint has defined configuration.',
  ['inputs', 'configurations'], 'every constraint type, state and configuration',
  'Stale or uninitialised output entries often read as harmless values in a test process.',
  CON + ['constraint.cpp'], [('calculate', 'all constraint classes'), ('constructor', 'Constraint::Constraint')])
p('C15', 'Velocity constraints drive the right speed within the right torque',
  'Clutch, gear, friction and prescribed-rotation constraints couple exactly the angular velocities they are meant to '
  'couple with the configured ratio or speed, and their torque limits are the configured torques with the right sign and '
  'order for every configuration.',
  ['inputs', 'configurations'], 'every state, ratio, speed, torque limit and pairing of bodies including the ground',
  'Tests exercise one sign and ratio of few of these constraints.',
  ['clutch_constraint.cpp', 'simple_gear_constraint.cpp', 'rotation_friction_constraint.cpp', 'constant_rotation_constraint.cpp'],
  [('calculate', 'ClutchConstraint, SimpleGearConstraint, RotationFrictionConstraint, ConstantRotationConstraint')])
p('C16', 'A spring pulls its attachment points together with equal and opposite force',
  'A spring applies opposite forces at its two attachment points (with their torque about each body centre): stiffness '
  'times elongation along the line between the points plus damping times the relative velocity of the points. An end on '
  'an unregistered body is a point at rest and receives no force, and (nearly) coincident points get only the damping part.',
  ['inputs', 'configurations'], 'every position, orientation, velocity, rest length, gain and attachment; ends on ground or not',
  'Tests use a spring in one orientation, where wrong arms or signs cancel.',
  ['spring.cpp', 'system_state.cpp'], [('apply', 'Spring::apply')])
p('C17', 'A motor applies equal and opposite torque bounded by its limits',
  'A constant-speed motor applies a torque proportional to the speed error of its two bodies, clamped to its minimum and '
  'maximum torque, to the driven body and the opposite torque to the base. It acts on no other body and on no linear force.',
  ['inputs', 'configurations'], 'every speed, gain, limit and pairing of bodies, including an unregistered base',
  'Tests do not reach both limits with both signs and both bodies moving.',
  ['constant_speed_motor.cpp'], [('apply', 'ConstantSpeedMotor::apply')])
p('C18', 'Applied forces add force, weight and moment to exactly one body',
  'Applying a force at a point of a body adds that force and its moment about the body centre and touches no other body; '
  'gravity adds mass times gravity to every body and nothing else; a static force adds its configured force at its '
  'configured point. All of them accumulate onto what is already applied.',
  ['inputs', 'configurations'], 'every body count, mass, orientation, point and force',
  'Tests apply axis-aligned forces to a single body.',
  ['gravity_force_generator.cpp', 'static_force_generator.cpp', 'system_state.cpp'],
  [('apply', 'GravityForceGenerator::apply, StaticForceGenerator::apply, SystemState::applyForce')])
p('C19', 'Local and world frames are inverse, and the energy is the kinetic energy',
  'Converting a point of a body to world coordinates rotates it by the body orientation and translates it by the body '
  'position; converting back returns the original point; point velocities are the time derivatives of point positions. '
  'The energy of a body is its translational plus rotational kinetic energy.',
  ['inputs'], 'every position, orientation, velocity and point',
  'Tests check special angles and points.',
  ['rigid_body.cpp', 'system_state.cpp'],
  [('frame maps', 'RigidBody::localToWorld/worldToLocal, SystemState::localToWorld/velocityAtPoint'), ('energy', 'RigidBody::energy')])
p('C20', 'Dense matrix operations compute their mathematical definition',
  'Products, transposed products, scalings, sums, differences, negation, transpose, dot product, squared norm, '
  'row operations and elementwise access of dense matrices equal their mathematical definition in every entry '
  'and give the result the right dimensions, also after rows were exchanged and for results whose storage is reused.',
  ['inputs', 'histories'], 'every size, content and prior use of operands and result',
  'Tests use sizes up to four and fresh results.',
  ['matrix.cpp', 'include/matrix.h'], [('operations', 'Matrix')])
p('C21', 'Sparse operations agree with the dense meaning of the blocks',
  'A block-sparse matrix denotes the dense matrix that has each stored block at its block column and zero elsewhere. '
  'Expansion, products, transposed products and scalings on the sparse form equal the dense operation on that denoted '
  'matrix for every occupancy, including rows with one, two or no blocks and any number of bodies.',
  ['inputs', 'configurations'], 'every size, occupancy and block index',
  'Tests use a few blocks with small indices.',
  ['sparse_matrix.cpp', 'include/sparse_matrix.h'], [('operations', 'SparseMatrixBase')])
p('C22', 'Matrix storage always matches the dimensions in use',
  'After any sequence of creation, resizing, filling, assignment and destruction, dense and sparse matrices own storage '
  'for at least their current dimensions, rows address distinct storage inside it, nothing is freed twice and nothing '
  'owned is forgotten. Growing, shrinking and reuse after destruction all leave a usable matrix.',
  ['histories'], 'every sequence of lifecycle calls and dimensions',
  'Tests grow matrices once; shrink-then-grow and destroy-then-reuse are not sampled.',
  ['matrix.cpp', 'include/sparse_matrix.h'], [('lifecycle', 'Matrix::resize/initialize/destroy, SparseMatrix::initialize/destroy')])
p('C23', 'The state record has room for every body and constraint it counts',
  'After any sequence of resizing, copying and destroying, the simulation state owns room for at least the counted '
  'bodies and constraint rows in each of its arrays, a copy equals its source in every array, and storage is neither '
  'leaked nor freed twice.',
  ['histories'], 'every sequence of resize, copy and destroy with any counts',
  'Tests keep the number of objects fixed.',
  ['system_state.cpp'], [('lifecycle', 'SystemState::resize/copy/destroy')])
p('C24', 'Limited solving never returns a multiplier outside its limits',
  'When solving with limits every multiplier stored by an iteration of the relaxation lies between the lower and upper '
  'limit of its own row, whatever the matrix, right hand side and warm start, and a multiplier within its limits is not '
  'changed by the limiting.',
  ['inputs'], 'every system, limits and starting values',
  'Tests check one system for which the limits hardly bind.',
  ['gauss_seidel_sle_solver.cpp'], [('clamped update', 'GaussSeidelSleSolver::solveIteration')])
p('C25', 'A relaxation sweep solves each row exactly from the newest values',
  'Each step of a relaxation sweep replaces one unknown by the value that satisfies its own row given the newest values '
  'of the others, where the system matrix is jacobian times inverse mass times transposed jacobian. A warm start only '
  'sets the starting values, and the reported change of a sweep bounds every unknown\'s change.',
  ['inputs'], 'every system size, sparsity and warm start',
  'Tests accept any converging iteration within tolerance.',
  ['gauss_seidel_sle_solver.cpp'], [('row update', 'GaussSeidelSleSolver::solveIteration')])
p('C26', 'Conjugate gradient iterates keep their defining relations',
  'The conjugate gradient solver starts from the residual of its starting guess and in every iteration moves along the '
  'search direction by the exact line-search length, updates the residual by the same multiple of the matrix applied to '
  'the direction, and makes the next direction from the new residual and the ratio of squared residuals, for the matrix '
  'jacobian times inverse mass times transposed jacobian.',
  ['inputs'], 'every system, right hand side and starting guess',
  'Tests only check final solutions of tiny systems where any descent works.',
  ['conjugate_gradient_sle_solver.cpp'], [('iteration', 'ConjugateGradientSleSolver::solve, multiply')])
p('C27', 'Elimination only replaces equations by equivalent ones',
  'Every elimination step of the direct solver is an exchange of equations or adds a multiple of one equation to another '
  'on both sides, chosen so that the coefficient under the pivot cancels, and back substitution assigns each unknown the '
  'value that satisfies its equation. The system being solved is jacobian times inverse mass times transposed jacobian.',
  ['inputs'], 'every nonsingular or singular system of any size',
  'Tests solve a few systems without pivoting trouble.',
  ['gaussian_elimination_sle_solver.cpp', 'matrix.cpp'], [('elimination', 'GaussianEliminationSleSolver::solve')])
p('C28', 'A solver that reports success has written a solution',
  'When a linear solver reports success it has written a result of the right size for this system on that path, and '
  'iterative solvers report success only on their convergence test, which an undefined value never passes; running out '
  'of iterations or meeting a zero pivot is reported as failure. Limited solving is refused by solvers without limits.',
  ['inputs'], 'every system including singular, empty and undefined ones',
  'Tests use well-posed systems.',
  ['gaussian_elimination_sle_solver.cpp', 'gauss_seidel_sle_solver.cpp', 'conjugate_gradient_sle_solver.cpp', 'sle_solver.cpp'],
  [('result and status', 'the solve functions of every solver')])
p('C29', 'Operations change only what they are meant to change',
  'Solving never changes its matrices, right hand side or limits; evaluating a constraint changes only its output; '
  'applying a force changes only accumulated force and torque; read-only matrix operations leave operands alone; '
  'queries change nothing. An integrator changes only the motion, the reported reactions and the step size of the state it is given. '
  'No operation writes to global state.',
  ['inputs', 'programs'], 'every call of each such operation with any arguments',
  'Tests compare outputs, not what must stay unchanged.',
  SYS + CON + ['matrix.cpp', 'gauss_seidel_sle_solver.cpp', 'conjugate_gradient_sle_solver.cpp', 'gaussian_elimination_sle_solver.cpp'],
  [('effects', 'all library functions')])
p('C30', 'Results depend on inputs only, never on uninitialised or ambient state',
  'Every scalar field of every object of the library is defined after construction, '
  'and no stored value, returned result or decision depends on time, randomness, the numeric value of an address or '
  'mutable global state (recorded timings excepted). The systems handed to linear solvers, the reactions and '
  'accelerations of an evaluation and the starting point of an iterative solve do not depend on what earlier '
  'evaluations or solves left in work storage, except where a previous solution is deliberately passed as a warm start.',
  ['inputs', 'histories', 'schedules'], 'every construction and call sequence, any number of independent systems side by side',
  'Uninitialised reads usually see zeros in a fresh test process.',
  SYS + CON + ['matrix.cpp', 'system_state.cpp', 'force_generator.cpp', 'spring.cpp', 'rigid_body.cpp'],
  [('constructors', 'all classes')])
p('C31', 'Profiling keeps the latest samples in a ring of fixed size',
  'Every step records its four timings in the current slot of a ring of fixed size and advances the slot, wrapping at '
  'the end, so the slot is always inside the ring. Reported averages are the mean of the recorded samples of the asked '
  'kind and zero when there are none.',
  ['histories'], 'any number of steps',
  'Tests never run enough steps to wrap and never query averages.',
  RBS + SYS[:2], [('ring', 'process, findAverage')])
p('C32', 'Destroying an object releases what it owns exactly once',
  'Destroying a system, solver, integrator, state or matrix releases every block of memory it allocated, including '
  'those of its members, and never one twice or one it does not own.',
  ['histories'], 'every object of the library at the end of any history',
  'Tests do not observe leaks or double frees.',
  SYS + ['matrix.cpp', 'system_state.cpp', 'rk4_ode_solver.cpp', 'gauss_seidel_sle_solver.cpp',
         'conjugate_gradient_sle_solver.cpp', 'gaussian_elimination_sle_solver.cpp'],
  [('destructors', 'all owning classes')])
p('C33', 'Bodies that are not registered behave as immovable ground',
  'A body that is not registered never has a slot of the state read or written on its behalf: springs, motors, static forces, '
  'clutches, gears and constraint reactions treat it as an end fixed in the world that nothing accelerates. Registered bodies are '
  'affected exactly as if the ground had its pose and no motion. (Constraints on positions are for registered bodies.)',
  ['configurations'], 'every pairing of registered and unregistered bodies in springs, motors, static forces, clutches, gears and any constraint\'s reactions',
  'Tests hardly use unregistered bodies with these elements.',
  ['spring.cpp', 'constant_speed_motor.cpp', 'clutch_constraint.cpp', 'simple_gear_constraint.cpp'] + SYS[:2],
  [('ground tests', 'Spring::apply, ConstantSpeedMotor::apply, ClutchConstraint, SimpleGearConstraint, processConstraints')])

p('C37', 'Independent systems share nothing and can run side by side',
  'No mutable storage is shared between objects: the library keeps no global or static mutable state and calls only functions '
  'that keep none, so systems that share no bodies, constraints, generators or solvers can be stepped in any interleaving, or on '
  'different threads, with the results each would have alone.',
  ['schedules'], 'every interleaving of operations on disjoint objects',
  'Tests are single-threaded and run one system at a time.', SYS + CON + ['matrix.cpp', 'gauss_seidel_sle_solver.cpp',
   'conjugate_gradient_sle_solver.cpp', 'gaussian_elimination_sle_solver.cpp', 'rk4_ode_solver.cpp'],
  [('global storage and external calls', 'every function of the library')])

NA = [
    ('C34', 'Energy and constraint error stay bounded over long simulations',
     'Over arbitrarily long simulations of a conservative mechanism the total energy and the constraint errors stay within '
     'bounds that depend only on step size and gains.',
     ['histories', 'inputs'], 'every mechanism, step size and duration',
     'Needs unbounded simulated time.', SYS + ['rk4_ode_solver.cpp', 'euler_ode_solver.cpp'],
     'a quantitative bound on an infinite numerical trajectory of a nonlinear system: no sound static argument over the '
     'source bounds it; only the exact update rules that feed it are decided (C04, C06, C07, C10, C11, C12, C13)'),
    ('C35', 'Iterative solvers converge on every well-posed system',
     'For every symmetric positive definite system the iterative solvers reach the requested accuracy within their '
     'iteration limit and report success.',
     ['inputs'], 'every symmetric positive definite system',
     'Convergence depends on the conditioning of unboundedly many systems.',
     ['gauss_seidel_sle_solver.cpp', 'conjugate_gradient_sle_solver.cpp'],
     'the number of iterations needed depends on the spectrum of the runtime matrix, and the claim is false for '
     'ill-conditioned ones at a fixed iteration limit; only the iteration relations and the honesty of the status are decided (C25, C26, C28)'),
    ('C36', 'Rounding does not spoil the accuracy of direct solutions',
     'The direct solver\'s solution has a relative error bounded by the conditioning of the system and machine precision.',
     ['inputs'], 'every nonsingular system',
     'Rounding error depends on the runtime operands.',
     ['gaussian_elimination_sle_solver.cpp'],
     'a rounding-error bound depends on pivot growth of the runtime matrix; the analysis reads doubles as reals, so '
     'floating-point accuracy is outside what it can decide'),
]
for id, title, st, over, text, why, files, reason in NA:
    p(id, title, st, over, text, why, files, [('whole computation', 'process')])


def main():
    import registry
    out = []
    for x in P:
        out.append(json.dumps(x))
    open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
    checks, na = [], []
    reasons = {x[0]: x[7] for x in NA}
    for x in P:
        i = x['id']
        if i in registry.CHECKS:
            note = registry.CHECKS[i]
            checks.append(dict(property=i, quick_cmd='./check.py %s --tier quick' % i,
                               thorough_cmd='./check.py %s --tier thorough' % i,
                               evidence_file='evidence/%s.json' % i,
                               technique=registry.TECH.get(i, registry.TECH['']),
                               level='other', level_note=registry.level_note(i)))
        else:
            na.append(dict(property=i, reason=reasons.get(i, 'not decided yet: its static check is still being built')))
    m = dict(version=1, setup_cmd='python3 lib/build.py', checks=checks, not_applicable=na,
             notes='All checks are static: /repo/src is compiled to LLVM IR and analysed; nothing of it is executed.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')


main()
