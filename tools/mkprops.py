#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the authored property texts live here, one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({'state':[dict(name=n, meaning=m, where=w) for n,m,w in state]} if state else {}),
                     **({'observe_at': observe} if observe else {}), hook_needed=None)))

p('C01', 'Tangent of every elementary operation is its analytic derivative',
  'For every elementary operation the zero-order rule computes the function the operation is named after, and the first-order rule yields the sum over its arguments of (analytic partial derivative of that function) times (first-order value of the argument), at every argument where the function is differentiable. '
  'The absolute value is the one exception: its first-order value is the increment |x + dx| - |x| of its piecewise linearisation. '
  'An argument with zero first-order value contributes nothing.',
  ['inputs'], 'all operations, all real arguments in the domain of differentiability, all first-order values',
  'The unit tests compare nine unary functions at ten points in [0,1] (some one-sidedly, without abs) and arithmetic at one point; a wrong sign or factor that vanishes there, or an untested operation (powf, abs, binary rules with both arguments active), passes.',
  ['src/operation.rs', 'src/afloat.rs'],
  [('zero-order rule per opcode','zero_order_value in src/operation.rs'),('first-order rule per opcode','first_order_value in src/operation.rs'),('tape operation step','Operation::zero_order, Operation::first_order in src/operation.rs')],
  observe=['AFloat::value/dvalue after an operation','Tape::zero_order','Tape::first_order_forward'])

p('C02', 'Adjoint step of every elementary operation transposes its tangent rule',
  'The reverse step of an elementary operation adds to the adjoint of each argument the adjoint of the result times the analytic partial derivative with respect to that argument; when both arguments are the same value both contributions are added. '
  'It changes no other adjoint, and constants and no-ops change none. '
  'The absolute value is rejected with a panic in reverse mode instead of being given some derivative.',
  ['inputs'], 'all operations, all stored values in the domain of differentiability, all adjoint vectors, all argument index patterns including coinciding arguments',
  'Reverse rules are only exercised with a single seed at a handful of points, never with a pre-loaded adjoint and hardly with coinciding or active second arguments (powf exponent, divisor).',
  ['src/operation.rs'],
  [('reverse step','Operation::first_order_reverse in src/operation.rs')], observe=['Tape::first_order_reverse','drivers::jacobian_reverse'])

p('C03', 'Every operator form of an active scalar computes the same-named float operation',
  'For every supported operator or mathematical method of the active scalar types, in every operand form (active with active, active with plain number on either side, and compound assignment), the zero-order result is the mathematical result of the same-named operation on the operands in the order written, and its derivative follows by the chain rule. '
  'Named constants carry the constant of the underlying float and a zero derivative; predicates and comparisons look only at the zero-order value. '
  'Operations for which no differentiation rule exists panic instead of returning a number.',
  ['inputs','programs'], 'all numeric programs written against the active scalar type, all operand forms and values',
  'Tests use a fixed arithmetic expression at one point and nine methods; max/min/hypot/log/powi/abs_sub/mul_add and most mixed operand forms are never compared with floats.',
  ['src/afloat.rs','src/operation.rs','src/scalar.rs'],
  [('operator impls','binary_op!, assign_op!, Neg, Rem in src/afloat.rs'),('Float impl','impl Float for AFloat in src/afloat.rs')], observe=['AFloat::value','AFloat::dvalue'])

p('C04', 'Converting an active scalar keeps its value',
  'Converting an active scalar to a primitive number yields the conversion of its zero-order value, without any additional loss; building one from a number gives that number with zero derivative and no tape attachment. '
  'Casting between active scalar precisions converts value and derivative and keeps the tape attachment. '
  'Values recorded on a tape are therefore the values the program computed, for every scalar type that may be recorded.',
  ['inputs','programs'], 'all values (fractional, large, negative), all scalar types including nested active scalars',
  'No test converts an active scalar to a primitive or records a scalar type other than a plain f64.',
  ['src/afloat.rs','src/acontext.rs'],
  [('ToPrimitive/NumCast impls','src/afloat.rs'),('AFloat::cast','src/afloat.rs'),('conversion on recording','AContext::set_indep/set_dep/record in src/acontext.rs')])

p('C05', 'An evaluation on attached variables is recorded completely and faithfully',
  'Each elementary operation with at least one operand attached to a live context appends exactly one operation to that context, with the operation performed, the ids of its operands in operand order and the computed value, and the result is attached to that context under the new id. '
  'An unattached operand is first appended as a constant carrying its value. '
  'An operation without attached operands records nothing and its result stays unattached.',
  ['programs','histories'], 'all programs of elementary operations, all attachment patterns of the operands',
  'Three two-operand recordings are checked; replays at other inputs only for one arithmetic function.',
  ['src/afloat.rs','src/acontext.rs'],
  [('recording of operations','AFloat::from_op in src/afloat.rs'),('append to the context','AContext::record in src/acontext.rs')],
  state=[('ops','recorded operations','AContextInner in src/acontext.rs'),('vals','value of every id','AContextInner in src/acontext.rs')], observe=['AContext::operations','AContext::values'])

p('C06', 'Value ids are dense and fresh, and a tape is a consistent snapshot',
  'Every independent variable, constant and recorded operation gets the fresh id equal to the number of values recorded before it, its value is stored at that id, and id allocation and storing happen indivisibly. '
  'Independent and dependent variables are listed in the order they were marked, and marking an unattached dependent records it as a constant. '
  'A tape taken at any time, even while other threads record, has a value stored for every id its operations and variable lists mention.',
  ['schedules','histories'], 'all sequences of marking, recording and tape extraction, on any number of threads',
  'Tests record on one thread and inspect ids of two-operation recordings only.',
  ['src/acontext.rs'],
  [('id allocation under the context lock','AContext::set_indep, set_dep, record in src/acontext.rs'),('snapshot','AContext::tape in src/acontext.rs')])

p('C07', 'Recording contexts are isolated and findable exactly while alive',
  'Every context gets an id no other context of the process ever had; looking a context up by id finds exactly that context while it is alive and nothing once it is dropped, and the registry keeps no entry for dropped contexts. '
  'Combining variables of two contexts, or marking a variable of another context as dependent, panics instead of recording a wrong reference. '
  'Variables that outlive their context keep computing correct values and derivatives but record nothing.',
  ['histories','schedules'], 'all interleavings of context creation, lookup, dropping and variable use on any number of threads',
  'One test creates and drops one context; cross-context mixing, lookup after drop and concurrent creation are never exercised.',
  ['src/acontext.rs','src/afloat.rs'],
  [('id counter','NEXT_CONTEXT_ID, AContextInner::new in src/acontext.rs'),('registry','CONTEXT_MAP, AContext::from_cid, Drop for AContextInner in src/acontext.rs'),('context agreement','AFloat::from_op in src/afloat.rs, AContext::set_dep in src/acontext.rs')])

p('C08', 'Recording never deadlocks',
  'No thread ever waits for one of the library\'s locks while holding another or the same one, and none of the locks is held while caller-supplied code runs or while a context may be destroyed. '
  'So recording, looking up, creating and dropping contexts from any number of threads always makes progress.',
  ['schedules'], 'all interleavings of all public operations on contexts, active scalars and tapes',
  'Tests use contexts from one thread each; a lock-order inversion or re-entrant lock needs a particular interleaving or drop point.',
  ['src/acontext.rs','src/afloat.rs'],
  [('guard scopes','AContextInner::new, Drop for AContextInner, AContext::* in src/acontext.rs')])

p('C09', 'Replaying a tape re-evaluates the recorded procedure at the new arguments',
  'Replaying a tape at an argument vector stores the i-th argument at the i-th independent variable, then evaluates every recorded operation exactly once in recorded order on the current values, and leaves recorded constants as they are. '
  'Afterwards the stored result is what that procedure computes at the new arguments. '
  'An argument vector of the wrong length is rejected by a panic before anything stored on the tape has changed.',
  ['inputs','programs','histories'], 'all recorded procedures, all argument vectors, all sequences of replays',
  'One function is replayed once.',
  ['src/tape.rs','src/operation.rs','src/acontext.rs'],
  [('replay','Tape::zero_order in src/tape.rs'),('value step','Operation::zero_order in src/operation.rs')])

p('C10', 'The forward sweep is the directional derivative of the recorded procedure',
  'For every tape and direction, the forward sweep seeds each independent variable with its direction component and everything else with zero, applies the tangent rule of every operation once in recorded order at the stored values, and returns the first-order value of each dependent variable in order. '
  'It changes nothing stored on the tape.',
  ['inputs','programs'], 'all tapes, all directions',
  'Run on one arithmetic function and nine single-operation tapes, with one independent and one dependent variable.',
  ['src/tape.rs'], [('forward sweep','Tape::first_order_forward in src/tape.rs')])

p('C11', 'The reverse sweep is the transpose of the forward sweep',
  'For every tape without absolute values and every vector of dependent weights, the reverse sweep returns the gradient of the weighted sum of the dependents with respect to the independents: it adds each weight to its dependent variable - also when the same variable is marked dependent more than once -, applies the adjoint step of every operation once in reverse recorded order, and reads the adjoints of the independents in order. '
  'It changes nothing stored on the tape.',
  ['inputs','programs'], 'all tapes, all weight vectors, dependents that repeat or coincide with independents',
  'Run on single-output functions and one 2x2 Jacobian; repeated dependents are never used in reverse mode.',
  ['src/tape.rs'], [('reverse sweep','Tape::first_order_reverse in src/tape.rs')])

p('C12', 'Tape accessors report the recorded procedure',
  'The stored arguments and results of a tape are the stored values of its independent and dependent variables in order; the counts of independents, dependents and absolute values and the largest id are those of its variable lists and operations. '
  'A tape taken from a context lists that context\'s independents, dependents, operations in recorded order and values, and iterating its operations backwards gives the exact reverse order.',
  ['programs'], 'all tapes', 'Accessors are only checked on two small tapes.',
  ['src/tape.rs','src/acontext.rs'], [('accessors','Tape::x, y, num_indeps, num_deps, num_abs, max_id in src/tape.rs'),('context tape','AContext::tape and its Tape impl in src/acontext.rs')])

p('C13', 'Jacobian drivers place every partial derivative at its row and column',
  'For every function without absolute values, the forward-mode driver returns the m x n matrix whose entry (i,j) is the derivative of result i with respect to argument j at the given point, and the reverse-mode driver returns the same matrix for a tape evaluated there. '
  'Each column (row) comes from its own unit seed regardless of how the parallel work is split. The forward driver rejects a point of the wrong dimension.',
  ['inputs','schedules','programs'], 'all functions, points, dimensions and work distributions',
  'One 2x2 example per driver; layout errors that are invisible for square or tiny problems pass.',
  ['src/drivers/jacobian.rs'], [('forward','jacobian_forward in src/drivers/jacobian.rs'),('reverse','jacobian_reverse in src/drivers/jacobian.rs')])

p('C14', 'Plain evaluation and taping of a function observe the same function',
  'Evaluating a function on plain numbers gives the zero-order values of its evaluation on active scalars. '
  'Taping it at a point records, in a fresh context of its own, one independent per component in order with the given values, one evaluation, and one dependent per result component in order. '
  'A function object built from a closure reports the dimensions it was given and evaluates that closure.',
  ['inputs','programs'], 'all functions and points', 'One function is taped with its dimensions inspected.',
  ['src/function.rs'], [('default methods','Function::eval_float, Function::tape in src/function.rs'),('closure wrapper','SimpleFunction in src/function.rs')])

p('C15', 'A function chain is the composition of its members in order',
  'A chain evaluates its members one after the other, each on the result of its predecessor, starting with the argument; its argument and result dimensions are those of its first and last member. '
  'Length, iteration and positional access see the flattened sequence of elementary members, nested chains expanded in place and in order. '
  'Appending a member whose argument dimension differs from the current result dimension is rejected.',
  ['programs','histories'], 'all chains, nested to any depth, all append orders', 'Only flat chains of three members that sum components are evaluated; nesting and mismatching appends are never used.',
  ['src/function.rs'], [('FunctionChain','src/function.rs')])

p('C16', 'Functions defined by macro check dimensions and carry their metadata',
  'A function defined with the function macro, in the vector form or the component form, evaluates its body with the components in the order written, rejects an argument of the wrong dimension and rejects a body result of the wrong dimension. '
  'Its function object reports exactly these dimensions and evaluates the same body with the captured extra arguments. '
  'Both forms accept attributes, and the vector-literal macro keeps element order and count.',
  ['programs','inputs'], 'all macro uses: both forms, any number of components and extra arguments, computed dimensions', 'Macro uses in tests are a few fixed instances, none with mismatching dimensions or with attributes on the component form.',
  ['src/macros.rs','src/function.rs'], [('macros','adv_fn!, adv_fn_obj!, adv_dvec! in src/macros.rs')])

p('C17', 'Abs-normal decomposition cuts the procedure exactly at its absolute values',
  'Wrapping a tape for abs-normal analysis reports n, m and s as its numbers of independents, dependents and absolute values; makes the results of the absolute values, in recorded order, additional independents after the original ones; makes their arguments, in the same order, additional dependents before the original ones; and turns exactly the absolute-value operations into no-ops while keeping all others in order. '
  'The four sub-tapes pair (original or additional) independents with (additional or original) dependents as Z, L, J and Y. Its own accessors return the original arguments, results and the switching values.',
  ['programs'], 'all tapes with any number and nesting of absolute values, including none', 'Checked on two functions with two absolute values and n = s = 2, where swapping counts or lists goes unnoticed.',
  ['src/drivers/abs_normal.rs'], [('decomposition','AbsNormalTape::new and its Tape impl in src/drivers/abs_normal.rs'),('sub-tapes','anf_matrix! in src/drivers/abs_normal.rs')])

p('C18', 'Products with abs-normal matrices are exact matrix products',
  'For each of the matrices Z, L, J and Y, multiplying from the right by any matrix with matching row count applies the forward sweep to each of its columns, and multiplying from the left by any matrix with matching column count applies the reverse sweep to each of its rows, each result placed at its own column or row. '
  'Extracting row i or column i returns that row or column of the matrix. Operands with mismatching dimensions are rejected.',
  ['inputs','programs','schedules'], 'all decomposed tapes, all operand shapes (also non-square, empty) and work distributions', 'Only multiplications by identities of size 1 and 2 are tested; row and column extraction never.',
  ['src/drivers/abs_normal.rs'], [('products','mul_right, mul_left, row, column in anf_matrix!, src/drivers/abs_normal.rs')])

p('C19', 'The dense abs-normal form consists of the matrices of the decomposition',
  'For every function and point the abs-normal form has Z (s x n), L (s x s), J (m x n) and Y (m x s) equal to the partial derivatives of switching values and results with respect to arguments and absolute values, a = z - L|z| and b = -Y|z| for the switching values z at the point. '
  'The result does not depend on which multiplication direction is chosen for the given dimensions.',
  ['inputs','programs'], 'all piecewise-smooth functions and points, all relations between n, m and s', 'Two functions with s <= 2; several of the dimension-dependent branches never run.',
  ['src/drivers/abs_normal.rs'], [('driver','abs_normal in src/drivers/abs_normal.rs')])

p('C20', 'The generalized Jacobian solves the abs-normal system at the direction signs',
  'For every tape and direction the driver takes the switching increments that solve dz = a + Z dx + L|dz|, takes their signs as the sign vector, uses one caller-supplied sign bit (in order, least significant bit of each byte first, minus once exhausted) for each increment that is exactly zero and for no other, and counts those zeros as multiplicity. '
  'The homogenous part is G(J + Y S (I - L S)^-1 Z) and the inhomogenous part g + G(b + Y S (I - L S)^-1 a), where (G, g) is the successor\'s generalized Jacobian - identity and zero if there is none - whose multiplicity is added.',
  ['inputs','programs'], 'all piecewise-smooth tapes, directions, sign bits, successors; any number and nesting of absolute values', 'One halfpipe function with s = 2, sign bits all zero and identity successor.',
  ['src/drivers/generalized_jacobian.rs'], [('driver','generalized_jacobian_tape, generalized_jacobian in src/drivers/generalized_jacobian.rs'),('sign bits','bit_iter in src/drivers/generalized_jacobian.rs')])

p('C21', 'The chained generalized Jacobian is the reverse accumulation along the chain',
  'For every chain, point, direction and admissible number of checkpoints, the driver propagates point and direction forward through the flattened members by forward-mode evaluation and accumulates the members\' generalized Jacobians from last to first, each member evaluated at its own point and direction with the accumulated successor, starting from the identity with zero offset and multiplicity in the dimension of the chain result. '
  'The number of checkpoints does not change the result; leaving it out works for chains of every length including one.',
  ['inputs','programs','configurations'], 'all chains of length at least one, all points, directions and checkpoint counts >= 2', 'One chain of length two with the default checkpoint count.',
  ['src/drivers/generalized_jacobian.rs','src/drivers/checkpointing.rs'], [('driver','generalized_jacobian_chain in src/drivers/generalized_jacobian.rs')])

p('C22', 'Sequence reversal visits every state exactly once from last to first',
  'For every sequence length and every admissible number of checkpoints, when reversal returns, its result is the identity step applied to the last state followed by one reverse step per earlier state in strictly descending order down to the start state, where the i-th state is the i-fold forward step of the start value. '
  'No state is skipped, repeated, or paired with another state\'s value, and the start value itself is never modified. Fewer than two checkpoints are rejected.',
  ['inputs','configurations','programs'], 'all lengths, checkpoint counts, forward/reverse/identity callbacks', 'One sum over 37 steps with 9 checkpoints, whose result is insensitive to the order of the reverse steps.',
  ['src/drivers/checkpointing.rs'], [('reversal loop','reverse_sequence in src/drivers/checkpointing.rs')],
  state=[('checkpoints','stack of (index, state)','reverse_sequence in src/drivers/checkpointing.rs')])

p('C23', 'Reversal keeps within its checkpoint budget and always advances',
  'At no time are more states stored as checkpoints than the caller allowed. '
  'The checkpoint positions chosen for a sub-sequence are strictly increasing, lie inside it, are at most as many as there are free checkpoints, and - given at least one free checkpoint and more than one state - end at its last state, so that each round can reverse one more state.',
  ['inputs','configurations'], 'all sequence lengths and checkpoint budgets', 'Positions are compared for about fifteen (budget, length) pairs.',
  ['src/drivers/checkpointing.rs'], [('schedule','schedule in src/drivers/checkpointing.rs'),('budget','reverse_sequence in src/drivers/checkpointing.rs')])

p('C24', 'The C interface matches its declarations and maps each to its operation',
  'Every function declared for the C interface is exported by the library with the declared parameters in the declared order, and every exported function is declared. '
  'Each arithmetic or mathematical entry point stores a newly allocated result equal to the same-named operation on its arguments in the order given; constructors, copies and independent/dependent calls do what they are named after.',
  ['programs','inputs'], 'all entry points, all argument values', 'No test runs the C interface; the build links it but a swapped operand, wrong operation or signature mismatch links fine.',
  ['src/ffi.rs','src/cxx/ffi.hpp'], [('exports','src/ffi.rs'),('declarations','src/cxx/ffi.hpp')])

p('C25', 'C++ objects own their library handles uniquely and release them exactly once',
  'Under every sequence of construction, copying, moving, assigning (also to itself) and destroying C++ wrapper objects, every library handle is released exactly once, none is used after release and none is leaked. '
  'A copy has the value of its source and leaves the source as it was; a moved-from scalar and a moved-from context can still be assigned to and destroyed.',
  ['histories','programs'], 'all sequences of special member calls on C++ scalars and contexts, including self-assignment', 'The C++ tests are not part of the stable test run, never assign, and run without a leak or use-after-free detector.',
  ['src/cxx/ADouble.cpp','src/cxx/AContext.cpp','src/ffi.rs'], [('special members','src/cxx/ADouble.cpp, src/cxx/AContext.cpp'),('allocation and release','adv_*_new/free/copy in src/ffi.rs')])

p('C26', 'C++ operators and functions evaluate the operation they are written as',
  'Every C++ arithmetic operator, with an active scalar or a plain number on the left, evaluates that operator on its operands in the order written; every C++ mathematical function evaluates the same-named function. '
  'The plain-number overloads return the same mathematical function of their argument. Creating an independent and marking a dependent act on the context they are called on.',
  ['inputs','programs'], 'all operators, functions, operand forms and values', 'The C++ tests call each operator once and check no value.',
  ['src/cxx/ADouble.cpp','src/cxx/AContext.cpp','include/adv/ADouble.hpp'], [('operators','BINARY_OP_IMPL, UNARY_FUNC_IMPL, BINARY_FUNC_IMPL in src/cxx/ADouble.cpp')])

p('C27', 'Results depend only on arguments, never on history or scheduling',
  'Evaluations, sweeps and drivers give results that depend only on their arguments: apart from the registry of recording contexts they read and write no state that outlives or is shared between calls, and the only thing that crosses threads in parallel drivers is read-only input and per-task results identified by their position. '
  'No analysis of a tape or decomposition changes it except an explicit replay.',
  ['schedules','histories'], 'all call histories and thread schedules', 'Tests run each driver on a fresh input and compare one result; order- or history-dependence needs particular schedules or call sequences.',
  ['src/drivers/jacobian.rs','src/drivers/abs_normal.rs','src/drivers/generalized_jacobian.rs','src/tape.rs','src/operation.rs','src/acontext.rs'], [('parallel maps carrying their index','jacobian_forward, jacobian_reverse, mul_left, mul_right'),('the only process-wide state','NEXT_CONTEXT_ID and CONTEXT_MAP in src/acontext.rs')])

p('C28', 'Checkpoint placement minimises recomputation',
  'For every sequence length and checkpoint budget the checkpoint positions lead to the minimal possible total number of forward steps for that budget (binomial checkpointing).',
  ['inputs','configurations'], 'all lengths and budgets', 'Positions are compared for about fifteen (budget, length) pairs; optimality is never evaluated.',
  ['src/drivers/checkpointing.rs'], [('binomial placement','next_checkpoint, find_t, beta in src/drivers/checkpointing.rs')])

p('C29', 'Checkpoint planning terminates without overflow for every admissible size',
  'For every sequence length and checkpoint budget a machine can address, planning the checkpoint positions terminates promptly and does not overflow or fail an internal consistency check.',
  ['inputs','configurations'], 'all lengths and budgets', 'Only lengths up to 100 and budgets up to 42 are planned.',
  ['src/drivers/checkpointing.rs'], [('planning','find_t, beta, next_checkpoint in src/drivers/checkpointing.rs')])

p('C30', 'Derivatives are accurate to rounding',
  'Forward- and reverse-mode derivatives and replayed values differ from the exact ones by no more than the rounding error of the recorded operations.',
  ['inputs'], 'all procedures and floating-point inputs', 'Tests compare against closed forms at a few points with tolerance 1e-5 or machine epsilon.',
  ['src/operation.rs','src/tape.rs'], [('elementary rules','src/operation.rs')])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
