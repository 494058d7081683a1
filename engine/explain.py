"""What each check analyses and by which rule (evidence and manifest texts)."""
VG = 'abstract interpretation of the type-checked program (rustc THIR) into gated value graphs, loops summarised by closed-form recurrences, normal forms compared with the prescribed transfer function'
TECH = {}
TEXT = {}
NOTE = {}
def d(p, tech, text, note): TECH[p] = tech; TEXT[p] = text; NOTE[p] = note

d('C01', 'value graphs of the per-opcode tangent rule vs. the symbolic derivative of the per-opcode value rule',
  'For every opcode and argument pattern the value graph of zero_order and first_order is computed from the source; zero_order must be the function the opcode is named after and first_order the sum over the arguments of the partial derivative (taken symbolically of that function) times the tangent; guards that test for a zero tangent or a singular point are compared case by case.',
  'exact over the real numbers; rounding is outside (C30)')
d('C02', 'value graphs of the per-opcode adjoint step vs. the transposed symbolic derivative',
  'For every opcode the effect of first_order_reverse on a vector of adjoints at a generic position is computed and compared with the scatter-add of (partial derivative * adjoint of the result) to each argument, including the pattern where both arguments are one value; Abs must end in a panic on every path.',
  'exact over the real numbers')
d('C03', 'value graphs of every operator form and math method of the scalar types vs. the same-named real function and its symbolic derivative',
  'Every trait method of the active scalar is walked for every attachment pattern of its operands; the value component is compared with the named function on the operands in written order, the derivative component with the chain rule, constants/predicates/comparisons/forbidden operations with their own specification.',
  'exact over the real numbers; methods of the underlying float are taken as the functions they are named after')
d('C04', 'value graphs of the conversion and cast methods',
  'Conversions are compared with the conversion of the value component, constructions with (number, 0, unattached), casts componentwise; narrowing conversions are explicit operators so that a detour through a narrower type is a difference.',
  'conversions of the underlying primitive are uninterpreted')
d('C05', 'value graphs with an abstract heap: effect of each recording operation on the context, per attachment pattern',
  'Each operator / method is walked with operands attached to a live context, to none, or mixed; the context content observed through its accessors before and after must differ by exactly the specified appended values and operation, and the result must carry the new id.',
  'contents of the context before the operation are opaque, so the result holds for every history')
d('C06', 'value graphs of multi-call sessions with interference at every lock re-acquisition',
  'Marking, recording and tape taking are walked on an opaque context whose guarded state grows arbitrarily whenever a lock is released and re-acquired; ids must be the number of values at the moment they are stored, and a tape snapshot must list nothing beyond its values.',
  'interference model: other threads only append (itself checked in C05/C06)')
d('C07', 'value graphs of the registry protocol on an abstract heap, typestate of context ids',
  'Creation, lookup and drop of contexts are walked in sessions; ids come from a process-wide counter that only these functions change; lookups resolve exactly the live ones; cross-context operations must panic before any append.',
  'counter overflow after 2^64 contexts is ignored')
d('C08', 'lock-set dataflow over MIR with drop effects and call-graph summaries',
  'For every function the set of library locks held at every program point is propagated over the MIR control-flow graph; acquiring a lock, calling unknown (caller supplied) code or running a drop that may destroy a context while a lock is held is a violation; guards are tracked through moves and drops.',
  'number types are the primitives or scalars of the library; every lock counts as the same one, so nesting of different locks is reported too')
d('C09', 'value graph of tape replay with loop summaries vs. the fold of the per-opcode value rule', 'zero_order is summarised to a recurrence over the operations and compared with seeding followed by the recorded-order fold of the rule; panics must precede every store.', 'tape content opaque')
d('C10', 'value graph of the forward sweep with loop summaries vs. seed, fold of the tangent rule, gather', 'The sweep is summarised to a fold over the recorded operations and compared with the prescribed seed / fold / gather; obligations of C01 are part of the property.', 'tape content opaque')
d('C11', 'value graph of the reverse sweep with loop summaries vs. scatter-add seed, reversed fold of the adjoint step, gather', 'As C10 for the reverse sweep, including repeated dependents; obligations of C02 are part of the property.', 'tape content opaque')
d('C12', 'value graphs of the tape accessors vs. selections of the recorded lists', 'Every accessor of both tape types is compared with the list or count it is named after.', 'tape content opaque')
d('C13', 'value graphs of the Jacobian drivers (matrix comprehensions)', 'Parallel column/row writers are treated as maps over their index; the resulting matrix is compared entrywise with unit-seeded sweeps.', 'sweeps taken from C10/C11')
d('C14', 'value graphs and event traces of evaluation and taping of functions', 'The calls on the recording context and on the function are logged in order and compared with the prescribed trace.', 'the user function is opaque')
d('C15', 'value graphs of chain construction, evaluation, iteration and access', 'Chain operations are summarised over an opaque member list and compared with flattening / composition.', 'members are opaque functions')
d('C16', 'value graphs of the expansions of the function macros in a witness crate', 'A witness crate instantiates each macro form; the expanded, type-checked code is analysed like any other function.', 'the witnesses are generic over scalar type; component counts 1..4')
d('C17', 'value graphs of the abs-normal decomposition', 'Lists of the decomposition are compared with filtered comprehensions over the operations of the wrapped tape.', 'tape content opaque')
d('C18', 'value graphs of the four matrix product pairs', 'Products are compared column by column (row by row) with the sweeps of the right sub-tape.', 'sweeps taken from C10/C11')
d('C19', 'value graphs of the dense abs-normal form', 'All five components are compared with products of the decomposition with identities and the linear relations for a and b, for both directions.', 'sweeps taken from C10/C11')
d('C20', 'value graphs of the generalized-Jacobian driver and its bit iterator', 'Switching increments, sign selection with zero ranking, and the closed form of both parts are compared with the specification.', 'linear solves are uninterpreted')
d('C21', 'value graphs of the chained driver', 'Forward step, reverse step and seeds handed to sequence reversal are compared with the prescribed ones.', 'reversal taken from C22')
d('C22', 'value graphs with ghost state indices; loop invariants of the reversal inferred as preserved affine hulls plus inductive inequalities', 'The reversal and its schedule are walked from the source; each state carries the index of the forward step that produced it. The inferred loop invariants decide for every length and budget that the reverse steps receive the states from last to first, each exactly once, and that the identity step comes first; a grid of concrete lengths and budgets gives definite violations with a concrete schedule.', 'the invariant search has a time limit after which the general obligations are reported undecided')
d('C23', 'relational loop invariants of the checkpoint bookkeeping', 'The number of states alive is bounded by the budget at every store, stored positions are ascending and below the current step, and every loop iteration advances, all by inferred inductive invariants over the value graph of the reversal and of the schedule; a grid of concrete lengths and budgets gives definite violations.', 'the invariant search has a time limit after which the general obligations are reported undecided; the position rule (beta, next_checkpoint) is used through its range only')
d('C24', 'cross-check of declaration and export tables (clang AST vs. rustc types) and value graphs of every entry point', 'Every declaration is matched with the exported function of that name, parameter by parameter; every entry point is walked on an abstract heap for all attachment patterns and its stored result, its allocation and the recording it leaves are compared with the named operation.', 'ABI classes: pointer, numbers, void')
d('C25', 'ownership typestate by abstract interpretation of the LLVM IR of the wrapper classes', 'Every public operation (compiled from a witness that uses the public headers) is interpreted on every reachable combination of object states, aliased arguments included, over an abstract heap of allocations and library handles; states are collected to a fixpoint, so every sequence of operations is covered. Uses after release, double releases, leaks, lost or changed values are violations naming the member function.', 'failing allocations and exceptions are not modelled; library calls behave as C24 states')
d('C26', 'value graphs of the C++ operators and functions over LLVM IR', 'Every overload (chosen by the compiler for each operand form in a witness) is reduced to the library calls it performs on abstract handles and compared with the written operator; plain overloads are compared per ordering or sign of their arguments.', 'library calls behave as C24 states; not-a-number is excluded')
d('C27', 'effect analysis over the call graph (statics, thread locals, interior mutability, unsafe)', 'All statics, thread-locals and interior-mutable types reachable from public functions are enumerated; only the registry is allowed; parallel closures may capture shared references to Sync data only.', 'effects of dependencies are listed by type')
