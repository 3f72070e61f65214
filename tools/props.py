#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
QC='src/ir/QuantumComputation.cpp'; OPS='src/ir/operations/'
p('P01','Exporting a circuit as OpenQASM and reading it back gives the same circuit',
 'For every circuit of supported operations (all gates with any parameters and any positive or negative controls, barriers, measurements, resets, classically controlled gates, several registers), the OpenQASM 3 text the library writes is accepted by its own importer and yields a circuit with the same quantum and classical registers, the same behaviour for every input state (including which classical bit receives which outcome), and the same initial layout and output permutation. The same holds for the OpenQASM 2 text for circuits expressible in it.',
 ['inputs','programs'],'all circuits over the operation alphabet up to a length and width bound; both dialects',
 'Tests compare a few dozen texts by string equality; they never compare the meaning of exported and original circuits over all gate/control/register combinations.',
 ['src/ir/QuantumComputation.cpp','src/ir/operations/StandardOperation.cpp','src/ir/operations/NonUnitaryOperation.cpp','src/ir/operations/ClassicControlledOperation.cpp','src/ir/operations/CompoundOperation.cpp','src/qasm3/Importer.cpp'],
 [('dumpOpenQASM',QC),('dumpGateType',OPS+'StandardOperation.cpp'),('Importer::visitGateCallStatement','src/qasm3/Importer.cpp')],
 ['QuantumComputation::toQASM','qasm3::Importer::imports'])
p('P02','Inverting a circuit yields its adjoint',
 'For every circuit without measurements and resets, the inverted circuit composed with the original is exactly the identity (global phase included), inverting twice gives back a circuit that acts like the original, and the initial layout and output permutation swap roles; the same holds for every single invertible operation, and inverting an operation that has no inverse is refused with an error. ',
 ['inputs','programs'],'every gate type x parameter grid x control pattern, nested groups of operations, and all circuits up to the length bound',
 'Tests invert a handful of named gates and look at the resulting type; no test composes circuit and inverse over parameter and control combinations.',
 [QC,OPS+'StandardOperation.cpp',OPS+'CompoundOperation.cpp',OPS+'SymbolicOperation.cpp'],
 [('QuantumComputation::invert',QC),('StandardOperation::invert',OPS+'StandardOperation.cpp'),('CompoundOperation::invert',OPS+'CompoundOperation.cpp')],
 ['operations and global phase of the inverted circuit'])
p('P03','Operation comparison, hashing, inverse and commutation queries are sound',
 'Two operations that compare equal (also under qubit permutations) perform the same transformation and have the same hash, every operation equals its own copy and comparison is symmetric, and a copy is independent of its original. Whenever the library claims that one operation is the inverse of another, or that two operations commute at a qubit they share, the corresponding matrices are inverse to each other, respectively can be exchanged there.',
 ['inputs'],'all pairs of operations over the full gate set, placements on up to 3 qubits, control polarities and parameter grid',
 'Tests look at about ten pairs; soundness is a statement about all pairs.',
 [OPS+'Operation.cpp','include/mqt-core/ir/operations/Operation.hpp',OPS+'StandardOperation.cpp',OPS+'CompoundOperation.cpp',OPS+'ClassicControlledOperation.cpp',OPS+'NonUnitaryOperation.cpp',OPS+'SymbolicOperation.cpp'],
 [('Operation::equals',OPS+'Operation.cpp'),('Operation::commutesAtQubit',OPS+'Operation.cpp'),('Operation::isInverseOf',OPS+'Operation.cpp'),('std::hash<Operation>','include/mqt-core/ir/operations/Operation.hpp')],
 ['operator==','hash','isInverseOf','commutesAtQubit','clone'])
p('P04','Unitary optimization passes never change what a circuit computes',
 'For every unitary circuit (possibly with grouped operations, barriers and final measurements) each optimization pass - single-qubit gate fusion, merging of opposite CNOTs into SWAPs, SWAP decomposition, replacing multi-controlled X/Z, CZ decomposition, flattening, barrier and identity removal, block collection, and permutation elision - terminates and yields a circuit with the same action once the tracked initial layout and output permutation are taken into account; the same holds for the passes that accept mid-circuit measurements, resets and classically controlled operations. Back-propagating the output permutation keeps all gates and the output permutation, and sets an initial layout from which following the uncontrolled SWAPs of the circuit leads to the output permutation. Removing diagonal gates before measurements keeps every outcome probability, and removing final measurements keeps all gates and removes exactly the final measurements.',
 ['programs','inputs'],'all circuits over a gate alphabet up to the length bound on up to 3-4 qubits x every pass and its parameters',
 'Tests run each pass on a few hand-written circuits and compare gate lists.',
 ['src/circuit_optimizer/CircuitOptimizer.cpp','include/mqt-core/circuit_optimizer/CircuitOptimizer.hpp'],
 [('singleQubitGateFusion','src/circuit_optimizer/CircuitOptimizer.cpp'),('swapReconstruction','src/circuit_optimizer/CircuitOptimizer.cpp'),('collectBlocks','src/circuit_optimizer/CircuitOptimizer.cpp'),('elidePermutations','src/circuit_optimizer/CircuitOptimizer.cpp')],
 ['unitary / outcome distribution before and after'])
p('P05','Eliminating resets and deferring measurements preserve the dynamic circuit',
 'For every dynamic circuit (mid-circuit measurements, resets, classically controlled gates), replacing resets by fresh qubits and deferring measurements to the end each either refuse the circuit with an error or produce a circuit with the same probability for every assignment of the classical bits. After the transformation the circuit contains no resets, respectively no operation (other than measurements) on a qubit after its measurement or depending on a bit after its measurement. (Deferring the measurement of a qubit that a later operation changes is a known finding.)',
 ['programs','inputs'],'all dynamic circuits over measure/reset/gate/conditional gate alphabet up to the length bound',
 'Tests cover under ten dynamic circuits.',
 ['src/circuit_optimizer/CircuitOptimizer.cpp'],
 [('eliminateResets','src/circuit_optimizer/CircuitOptimizer.cpp'),('deferMeasurements','src/circuit_optimizer/CircuitOptimizer.cpp')],
 ['joint distribution of classical bits before and after'])
p('P06','Reordering operations preserves the circuit',
 'Reordering the operations of a circuit keeps every operation exactly once and preserves the order of all operations that depend on each other through a shared qubit, a shared control or a shared classical bit, so the reordered circuit behaves identically. It terminates for every circuit, including circuits with barriers, measurements, resets, classically controlled and grouped operations.',
 ['programs'],'all circuits over unitary, barrier, measure, reset, conditional and grouped operations up to the length bound',
 'Tests reorder three circuits.',
 [QC],[('reorderOperations',QC)],['operation list and behaviour after reordering'])
p('P07','Qubit, register and layout bookkeeping stays consistent over any edit history',
 'After any sequence of adding and removing qubits, registers and ancillae (new registers only while the qubit indices have no gap) and marking qubits as ancillary or garbage, the reported counts, register membership, initial layout, output permutation and ancilla/garbage flags agree with each other, and whenever the logical qubit indices are contiguous the flags do too: each physical qubit belongs to exactly one register index, the layouts are injective maps covering the qubits that exist, and garbage qubits have no output. Deriving the output mapping from top-level measurements (no two qubits into the same bit) assigns each measured qubit the classical bit that receives its (first) outcome and marks qubits that are never measured as garbage.',
 ['histories','inputs'],'all sequences of register/qubit edits up to a depth bound from several starting circuits; all measurement placements on up to 3-4 qubits and bits',
 'Tests replay a few fixed edit sequences.',
 [QC,'include/mqt-core/ir/Register.hpp','src/ir/Permutation.cpp'],
 [('addAncillaryQubit/removeQubit/setLogicalQubitGarbage',QC),('initializeIOMapping',QC)],
 ['getNqubits, getNancillae, getNgarbageQubits, initialLayout, outputPermutation, getQubitRegister, getQubitAndRegister'],
 [('initialLayout/outputPermutation','physical to logical qubit maps','include/mqt-core/ir/QuantumComputation.hpp'),('ancillary/garbage','flags per logical qubit','include/mqt-core/ir/QuantumComputation.hpp')])
p('P08','Symbolic parameters behave like the numbers substituted for them',
 'Instantiating a symbolic circuit with values for all its variables gives exactly the circuit that would have been built with those numbers, wherever the symbolic gate occurs (top level, controlled, or inside groups); a missing value is an error that leaves the circuit unchanged, and the circuit knows exactly which variables are free. Arithmetic on symbolic expressions (sums, differences, scaling, division, with numbers, terms and expressions on either side) evaluates to the same number as doing the arithmetic after substitution, and expressions that compare equal evaluate equally.',
 ['inputs','programs'],'all parameterised gate types x expression shapes x assignments; all expression trees up to a depth bound',
 'Tests instantiate a handful of gates and check a few algebraic identities.',
 ['include/mqt-core/ir/operations/Expression.hpp',OPS+'SymbolicOperation.cpp',OPS+'Expression.cpp',QC],
 [('SymbolicOperation::getInstantiatedOperation',OPS+'SymbolicOperation.cpp'),('QuantumComputation::instantiateInplace',QC),('Expression operators','include/mqt-core/ir/operations/Expression.hpp')],
 ['instantiated operations','Expression::evaluate'])
p('P09','The OpenQASM reader never crashes or hangs, whatever it is given',
 'For every input text the importer either returns a circuit or reports the problem with an exception: it never crashes, reads out of bounds, divides by zero, runs out of stack or loops forever. ',
 ['inputs'],'all token sequences up to a length bound over the full token vocabulary inside program skeletons, all single-token edits (delete, duplicate, swap, replace) of a corpus covering every construct, all truncations, all short character strings',
 'Tests list about 60 malformed inputs.',
 ['src/qasm3/Scanner.cpp','src/qasm3/Parser.cpp','src/qasm3/Importer.cpp','src/qasm3/passes/ConstEvalPass.cpp','src/qasm3/passes/TypeCheckPass.cpp'],
 [('Scanner::nextToken','src/qasm3/Scanner.cpp'),('Parser','src/qasm3/Parser.cpp'),('Importer','src/qasm3/Importer.cpp')],
 ['return or exception of qasm3::Importer::imports'])
p('P10','Imported OpenQASM programs mean what the language says',
 'A program accepted by the importer yields a circuit whose operations follow the OpenQASM meaning: gate modifiers (inverse, power, positive and negative controls, in any nesting), user-defined gates and their parameters, register broadcasting, constant expressions with usual precedence and types, measurement and reset of registers and bits, and if/else conditions on bits and registers with every comparison operator and value. Layout comments are read into the initial layout and output permutation they describe.',
 ['programs','inputs'],'all modifier nestings up to depth 3 on every standard gate, all nested gate definitions up to a bound, all constant expressions up to a depth, all condition shapes over small registers',
 'Tests assert a few dozen fixed programs.',
 ['src/qasm3/Importer.cpp','src/qasm3/Parser.cpp','src/qasm3/Scanner.cpp','src/qasm3/passes/ConstEvalPass.cpp','include/mqt-core/qasm3/StdGates.hpp'],
 [('Importer::applyQuantumOperation','src/qasm3/Importer.cpp'),('Parser::expression','src/qasm3/Parser.cpp'),('ConstEvalPass','src/qasm3/passes/ConstEvalPass.cpp')],
 ['the imported QuantumComputation'])
p('P11','Decision-diagram functionality and simulation equal the matrices they represent',
 'For every circuit of unitary operations, the decision diagram of each operation (any gate, parameters, target order, positive and negative controls, grouped operations), of the whole circuit (sequential and recursive construction) and of the simulated state equals the dense matrix or vector computed from the gate definitions, global phase, initial layout and output permutation included. Equality holds entrywise to numerical precision for every basis input.',
 ['programs','inputs'],'every gate x parameter grid x all placements and control polarities on up to 4 qubits; all circuits over a gate alphabet up to the length bound on up to 3 qubits; all layouts',
 'Tests compare a few circuits to hard-coded entries.',
 ['src/dd/Operations.cpp','include/mqt-core/dd/Operations.hpp','src/dd/FunctionalityConstruction.cpp','src/dd/Simulation.cpp','src/dd/GateMatrixDefinitions.cpp','src/dd/Package.cpp'],
 [('getDD','src/dd/Operations.cpp'),('makeGateDD/makeTwoQubitGateDD','src/dd/Package.cpp'),('buildFunctionality','src/dd/FunctionalityConstruction.cpp'),('simulate','include/mqt-core/dd/Simulation.hpp')],
 ['getMatrix/getVector of the resulting diagrams'])
p('P12','Decision diagrams are canonical and correctly normalised',
 'Within one package, two diagrams represent the same vector (or matrix) if and only if they are the same root node with the same root weight, no matter through which sequence of constructions and operations they were obtained. Every node in the diagram is normalised, ordered and free of redundant identity nodes, and reading out any entry, vector or matrix agrees with each other.',
 ['histories','inputs'],'all vectors/matrices over a small amplitude set on up to 3 qubits built in several ways; all pairs of short circuits',
 'Tests compare pointers for a few states.',
 ['src/dd/Package.cpp','include/mqt-core/dd/Package.hpp','src/dd/CachedEdge.cpp','include/mqt-core/dd/UniqueTable.hpp','src/dd/RealNumberUniqueTable.cpp'],
 [('normalize','src/dd/CachedEdge.cpp'),('UniqueTable::lookup','include/mqt-core/dd/UniqueTable.hpp'),('RealNumberUniqueTable::lookup','src/dd/RealNumberUniqueTable.cpp')],
 ['node pointers and weights of equal objects'])
p('P13','Garbage collection and reference counting never corrupt live diagrams or results',
 'In any history of building, combining, referencing and releasing decision diagrams, collecting garbage at any points, and resizing or resetting the package, every referenced diagram keeps representing the same vector or matrix, every operation returns the same result it would return in a fresh package, and diagrams that are no longer referenced are eventually freed so that the number of live nodes returns to its starting value. ',
 ['histories','schedules'],'all operation histories up to a depth over create/operate/reference/release/collect/reset, with collection forced at every possible point',
 'Tests trigger collection a few times on one state.',
 ['include/mqt-core/dd/Package.hpp','src/dd/Package.cpp','include/mqt-core/dd/UniqueTable.hpp','src/dd/UniqueTable.cpp','src/dd/MemoryManager.cpp','src/dd/RealNumberUniqueTable.cpp','include/mqt-core/dd/ComputeTable.hpp'],
 [('incRef/decRef/garbageCollect','src/dd/Package.cpp'),('MemoryManager','src/dd/MemoryManager.cpp'),('compute table invalidation','src/dd/Package.cpp')],
 ['getVector/getMatrix of live edges; results vs dense reference; active node counts'],
 [('reference counts','number of external and internal references','include/mqt-core/dd/Node.hpp'),('unique/compute tables','hash-consing and memoisation','include/mqt-core/dd/Package.hpp')])
p('P14','Decision-diagram algebra equals linear algebra',
 'Addition, matrix-vector and matrix-matrix multiplication, Kronecker product, conjugation, transposition, conjugate transposition, inner product, fidelity, expectation value, outer products and trace computed on decision diagrams equal the corresponding dense linear algebra for every operand, in every order of evaluation within one package. ',
 ['inputs','histories'],'all pairs of operands over a small amplitude set on 1-3 qubits, including operands with skipped or terminal levels, and all orders of short operation sequences sharing the memo tables',
 'Tests check a handful of operands in fresh packages; stale or mis-keyed memo entries need specific sequences.',
 ['include/mqt-core/dd/Package.hpp','src/dd/Package.cpp','include/mqt-core/dd/ComputeTable.hpp','include/mqt-core/dd/UnaryComputeTable.hpp'],
 [('add2/multiply2/kronecker2','include/mqt-core/dd/Package.hpp'),('innerProduct/fidelity/expectationValue','src/dd/Package.cpp')],
 ['matrices/vectors/numbers of results'])
p('P15','Trace, ancilla and garbage reductions act on exactly the given qubits',
 'Reducing ancillae zeroes exactly the matrix entries where an ancillary qubit does not enter (and is not left) in state zero, reducing garbage sums out exactly the garbage qubits (in magnitude when requested), and partial trace and trace equal their definitions, for every operand and every subset of qubits; the reference counts of operands and results stay balanced. Checks for closeness to the identity accept exactly matrices that are the identity within tolerance on the non-garbage qubits.',
 ['inputs'],'all operands over a small set (including diagrams skipping levels) x all qubit subsets x both orientations on up to 3-4 qubits',
 'Tests use three or four matrices.',
 ['src/dd/Package.cpp','include/mqt-core/dd/Package.hpp'],
 [('reduceAncillae/reduceGarbage','src/dd/Package.cpp'),('partialTrace/trace','src/dd/Package.cpp'),('isCloseToIdentity','src/dd/Package.cpp')],
 ['resulting matrices'])
p('P16','Decision diagrams survive writing, reading back and transfer between packages',
 'Writing a decision diagram to text or binary and reading it back in the same or another package, and transferring it directly to another package, yields a diagram of the same vector or matrix, identical to the original diagram when read into the same package. Graph export contains each reachable node and each non-zero edge exactly once.',
 ['inputs'],'all diagrams over a small amplitude set on up to 3 qubits, and all diagrams of short circuits; both formats',
 'Tests round-trip four diagrams.',
 ['src/dd/Export.cpp','include/mqt-core/dd/Export.hpp','include/mqt-core/dd/Package.hpp','src/dd/ComplexValue.cpp'],
 [('serialize','src/dd/Export.cpp'),('deserialize','include/mqt-core/dd/Package.hpp'),('transfer','include/mqt-core/dd/Package.hpp')],
 ['deserialized edges'])
p('P17','Measurement, collapse and sampling follow the Born rule and the recorded bits',
 'For every circuit and every resolution of its random outcomes, measuring one or all qubits returns outcomes with non-zero probability, reports the right probabilities, and leaves the correctly normalised post-measurement state; simulating a (possibly dynamic) circuit reports, for every shot, the classical bits that an execution of the circuit with those outcomes would record, and no outcome of non-zero probability is unreachable. ',
 ['inputs','schedules'],'all circuits over gate/measure/reset/conditional alphabet up to the length bound, with every outcome of every random draw enumerated',
 'Tests sample a few circuits with statistical tolerances.',
 ['src/dd/Simulation.cpp','src/dd/Package.cpp','include/mqt-core/dd/Operations.hpp','src/dd/Operations.cpp'],
 [('sample','src/dd/Simulation.cpp'),('measureOneCollapsing/measureAll/determineMeasurementProbabilities','src/dd/Package.cpp'),('applyMeasurement/applyReset/applyClassicControlledOperation','src/dd/Operations.cpp')],
 ['recorded bit strings, post-measurement vectors, probabilities'])
p('P18','Noise-aware simulation implements the configured noise channels',
 'Deterministic noise simulation of any circuit gives the density matrix obtained by applying, after each gate, the configured noise channels (amplitude damping, phase flip, depolarisation) with the configured probabilities to exactly the qubits the gate uses; the result is Hermitian, positive and of trace one. Stochastic noise simulation applies, for every value of each random draw, one of the channel\'s operators, chosen with the configured probability, so that averaging over draws gives the same density matrix.',
 ['inputs','schedules'],'all short circuits on up to 3 qubits x all sets of noise effects x a probability grid; all branches of the stochastic simulator',
 'Tests compare one circuit against a stored result.',
 ['src/dd/NoiseFunctionality.cpp','include/mqt-core/dd/NoiseFunctionality.hpp'],
 [('DeterministicNoiseFunctionality','src/dd/NoiseFunctionality.cpp'),('StochasticNoiseFunctionality','src/dd/NoiseFunctionality.cpp')],
 ['density matrices / state vectors'])
p('P19','Circuits convert to ZX diagrams of the same linear map',
 'Whenever the library declares a circuit convertible, the ZX diagram it builds represents the circuit\'s unitary up to a non-zero scalar for every gate, parameter, target order, control polarity and layout; otherwise the conversion is refused with an error. Diagram composition, adjoint and ancilla insertion act on the represented map accordingly.',
 ['programs','inputs'],'all supported gates x placements x parameter grid; all circuits up to the length bound on up to 3 qubits',
 'Tests look at vertex counts of a few diagrams.',
 ['src/zx/FunctionalityConstruction.cpp','src/zx/ZXDiagram.cpp'],
 [('parseOp','src/zx/FunctionalityConstruction.cpp'),('ZXDiagram::concat/adjoint/makeAncilla','src/zx/ZXDiagram.cpp')],
 ['tensor contraction of the diagram'])
p('P20','ZX simplification preserves the linear map and keeps the diagram well-formed',
 'Every simplification rule application and every simplification strategy (identity, spider fusion, local complementation, pivoting, gadget pivoting and fusion, interior Clifford, Clifford, full reduction) terminates, preserves the represented linear map up to a non-zero scalar, keeps the boundary intact, and leaves consistent vertex and edge counts; when it returns, the rules it exhausts match nowhere. Rounding phases moves exactly those within the tolerance of a multiple of pi/2, modulo two pi, and the adjacency matrix, connected sets, degrees and counts agree with the edges of the diagram, also after vertices have been removed.',
 ['programs','inputs'],'all diagrams of circuits up to the length bound, and all small graph-like diagrams with phases from a grid, x every rule match and every strategy',
 'Tests simplify about a dozen diagrams.',
 ['src/zx/Rules.cpp','src/zx/Simplify.cpp','src/zx/ZXDiagram.cpp','include/mqt-core/zx/Simplify.hpp'],
 [('rules','src/zx/Rules.cpp'),('strategies','src/zx/Simplify.cpp')],
 ['tensor contraction before/after; degree and edge counts'])
p('P21','Rational multiples of pi follow exact arithmetic modulo two pi',
 'Sums, differences, negation, products with and quotients by integers, and conversions of rational multiples of pi agree with exact rational arithmetic reduced to the half-open interval (-pi, pi], for operands on either side, and comparisons agree with the order of the reduced values. Converting a floating-point angle gives the exact fraction for unit fractions of pi and for multiples of pi/4, and otherwise a value within tolerance of the angle modulo two pi.',
 ['inputs'],'all pairs of fractions with bounded numerator and denominator x all operators; all angle values a*pi/b (with offsets) in a grid',
 'Tests check about twenty values.',
 ['src/zx/Rational.cpp','include/mqt-core/zx/Rational.hpp'],
 [('PiRational::modPi','src/zx/Rational.cpp'),('operators','include/mqt-core/zx/Rational.hpp')],
 ['numerator/denominator/double values'])
p('P22','Graph and set containers match their mathematical definitions',
 'After any sequence of vertex and edge insertions, the directed, acyclic and undirected graph containers report the same vertices, edges, degrees, adjacency, reachability and DOT text as the mathematical graph, reject exactly the insertions that would duplicate a vertex or edge or close a cycle (leaving the structure unchanged), and topological order respects every edge. The disjoint-set and symmetric-matrix containers agree with the equivalence relation, respectively the symmetric table, built by the same calls.',
 ['histories'],'all insertion histories up to a depth over 3-4 vertices (all digraphs), all union/find histories up to a depth, all symmetric matrices up to size 4',
 'Tests build one or two graphs.',
 ['include/mqt-core/datastructures/DirectedGraph.hpp','include/mqt-core/datastructures/DirectedAcyclicGraph.hpp','include/mqt-core/datastructures/UndirectedGraph.hpp','include/mqt-core/datastructures/DisjointSet.hpp','include/mqt-core/datastructures/SymmetricMatrix.hpp'],
 [('closure matrix update','include/mqt-core/datastructures/DirectedAcyclicGraph.hpp')],
 ['query results'])
p('P23','Every execution order offered by the layering reproduces the circuit',
 'Starting from the executable set of a layered circuit and repeatedly executing any offered operation, every possible schedule executes every operation exactly once in a sequence whose overall action equals that of the circuit, never gets stuck, and, without commutation, respects the order of all operations sharing a qubit unless the circuit holds operations that cancel. Interaction graphs and executable-by-type queries report exactly the matching executable operations.',
 ['schedules','programs'],'all circuits over a gate alphabet up to the length bound x all execution schedules',
 'Tests follow one schedule through three circuits.',
 ['src/datastructures/Layer.cpp','include/mqt-core/datastructures/Layer.hpp'],
 [('Layer::constructDAG','src/datastructures/Layer.cpp'),('DAGVertex::execute','include/mqt-core/datastructures/Layer.hpp')],
 ['getExecutableSet along every schedule'])
p('P24','Neutral-atom programs are accepted exactly when they obey the movement rules',
 'A neutral-atom computation is declared valid exactly when atoms are loaded before being moved or stored and not loaded twice, no atom appears twice in one operation, atoms moved together keep their row and column order and alignment and do not end in the same place, and every atom has an initial location. The reported location of an atom after any operation is the target of the last movement of that atom up to and including that operation. Printing lists every atom with its initial location and locations are ordered by column, then row.',
 ['histories','inputs'],'all operation histories up to a depth over load/move/store/local operations with up to 3 atoms on a small grid',
 'Tests validate a dozen programs.',
 ['src/na/NAComputation.cpp','include/mqt-core/na/NAComputation.hpp'],
 [('NAComputation::validate','src/na/NAComputation.cpp'),('getLocationOfAtomAfterOperation','src/na/NAComputation.cpp')],
 ['validate() verdict, locations'])
p('P25','Algorithm generators produce circuits with the advertised function',
 'For every size and parameter: the GHZ and W generators prepare those states; the QFT circuit equals the discrete Fourier transform and its iterative version gives the same outcome distribution; phase estimation (standard and iterative) and Bernstein-Vazirani (standard and iterative) yield the ideal outcome distribution for the phase or hidden string; Grover search amplifies exactly the marked value with the ideal probability; state preparation produces the requested amplitudes, global phase included; random Clifford circuits are unitary Clifford circuits reproducible from their seed.',
 ['inputs'],'all sizes up to a bound x all hidden strings, targets, phases on a grid, amplitude vectors over a grid, and seeds',
 'Tests sample a few sizes and strings and check node counts.',
 ['src/algorithms/QFT.cpp','src/algorithms/QPE.cpp','src/algorithms/Grover.cpp','src/algorithms/BernsteinVazirani.cpp','src/algorithms/GHZState.cpp','src/algorithms/WState.cpp','src/algorithms/StatePreparation.cpp','src/algorithms/RandomCliffordCircuit.cpp'],
 [('create* functions','src/algorithms')],
 ['dense reference simulation of the generated circuit'])
p('P26','Building, copying and editing circuits keeps contents and statistics right',
 'For any sequence of gate-adding calls (every gate in plain, controlled and multi-controlled form), appending, inserting, erasing, copying, wrapping into groups and unwrapping, the circuit contains exactly the requested operations in order, and its operation counts, single-qubit counts, depth, idle-qubit and dynamic-circuit queries equal the values computed from that list. Groups report exactly the qubits, kinds and globality their operations have. Copies are equal to and independent of the original; invalid qubits or bits, and adding a control on a qubit an operation already acts on, are refused without changing the circuit.',
 ['histories','inputs'],'every gate-adding call x qubit placement; all edit histories up to a depth bound',
 'Tests check a few circuits.',
 [QC,'include/mqt-core/ir/QuantumComputation.hpp',OPS+'CompoundOperation.cpp'],
 [('gate-adding methods',QC),('getDepth/getNindividualOps/isIdleQubit/isDynamic',QC),('CompoundOperation',OPS+'CompoundOperation.cpp')],
 ['operation list and statistics'])
p('P27','The Python interface agrees with the circuit it manipulates',
 'Circuits and grouped operations seen from Python behave as mutable sequences: indexing, negative indices, slicing, assignment, insertion, deletion, append and clear agree with the same edits on a Python list for every index combination, out-of-range accesses raise IndexError, and arithmetic on symbolic expressions evaluates as in Python. A slice assignment that would change the length may be refused. Gate methods and constructors create the named gate; round trips through OpenQASM text and through Qiskit circuits keep the circuit\'s action (up to a global phase), measurements, registers and layouts, and symbolic Qiskit parameters keep their value; what is not supported is refused. Decision diagrams used from Python hold the vectors and matrices that the same operations give in numpy.',
 ['histories','inputs'],'all index/slice/value combinations on sequences up to length 4; all edit histories up to a depth bound; every gate via Qiskit',
 'Tests exercise a few indices.',
 ['src/python/ir/register_quantum_computation.cpp','src/python/ir/operations/register_compound_operation.cpp','src/python/ir/symbolic','src/mqt/core/plugins/qiskit','src/python/dd'],
 [('__getitem__/__setitem__/__delitem__ bindings','src/python/ir/register_quantum_computation.cpp'),('qiskit plugin','src/mqt/core/plugins/qiskit')],
 ['results seen from Python'])
p('P28','MLIR passes keep the quantum program equivalent',
 'For every program of the dialect that uses its qubits linearly, with any control flow between basic blocks, cancelling consecutive inverses and sinking operations towards their uses yield a program that the verifier accepts and that, for every initial state and every branch condition, gives the same joint state of qubits and returned classical values. Converting a program to the circuit representation and back gives an equivalent program for one function with one qubit register in which every qubit is measured once and the results are returned in order (gates x, y, z, h with positive and negative controls).',
 ['programs'],'all straight-line programs up to the length bound; control-flow shapes x words of gates x every way of handing qubits over; round-trip programs x placement of measurements',
 'Three lit tests.',
 ['mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp','mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp','mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkShiftPattern.cpp','mlir/lib/Dialect/MQTOpt/Transforms/FromQuantumComputationPattern.cpp','mlir/lib/Dialect/MQTOpt/Transforms/ToQuantumComputationPattern.cpp'],
 [('CancelConsecutiveInverses','mlir/lib/Dialect/MQTOpt/Transforms/CancelConsecutiveInversesPattern.cpp'),('QuantumSink patterns','mlir/lib/Dialect/MQTOpt/Transforms/QuantumSinkPushPattern.cpp')],
 ['the program after the pass'])
p('P29','The MLIR dialect accepts exactly well-formed operations',
 'The verifier of the dialect accepts an operation exactly when it is well-formed: a gate has the documented number of targets and parameters (dynamic and static ones together, with a mask of matching length and count where both occur), any number of positive and negative controls (barriers none), and one result per qubit; measurements return one qubit and one bit per measured qubit; register operations have exactly one of an operand and a non-negative attribute as size or index; all types are right. It never crashes on a malformed one. A well-formed operation that is printed, in custom or generic form, reads back as the same operation, and the interface reports its targets, controls and results.',
 ['inputs'],'every operation x counts of operands, results, parameters, masks and types up to the bound',
 'One lit test prints a Bell state.',
 ['mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptOps.td','mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h','mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptInterfaces.td','mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp'],
 [('TargetArity, ParameterArity','mlir/include/mlir/Dialect/MQTOpt/IR/MQTOptTraits.h'),('verify','mlir/lib/Dialect/MQTOpt/IR/MQTOptOps.cpp')],
 ['acceptance by the verifier, printed text'])
p('P30','The benchmark comparison classifies every change correctly',
 'Comparing two benchmark result files lists every metric that occurs in either file exactly once, with its values before and after and their ratio, and puts it under improved, worsened or unchanged according to the threshold: larger is worse, except for hits and hit ratios, where larger is better. Unused or missing values on either side are never a change and never an error. Filters keep exactly the matching entries, showing only changes hides the unchanged ones in every layout, details appear only on request, rows are sorted as asked, and invalid options are refused.',
 ['inputs'],'all pairs of values (numbers, unused, missing) x kinds of metrics x all options; all filters',
 'Tests run one pair of files and look for headings.',
 ['src/mqt/core/dd_evaluation.py'],
 [('compare','src/mqt/core/dd_evaluation.py'),('__aggregate','src/mqt/core/dd_evaluation.py')],
 ['printed tables'])
p('P31','Shuttling operations and operation names mean what they say',
 'However a shuttling operation (activating, deactivating or moving rows and columns of tweezers) is built, it reports exactly the type, name, qubits, starts, ends and distances it was given per dimension; its inverse undoes it, is recognised as such and reports its own name; inverting twice, copying and permuting qubits change nothing else; two of them are equal exactly if type, qubits and movements agree; their text, alone or within a circuit and to any kind of stream, states all of it to full precision. Every type of operation is read back from its name, every other string is refused, and the classification by number of qubits is right.',
 ['inputs'],'all operations up to three movements x all ways of building one; all pairs; all circuits up to a length; all strings up to a length as names',
 'Tests build a handful of operations and print one.',
 [OPS+'AodOperation.cpp',OPS+'OpType.cpp'],
 [('AodOperation::invert, dumpOpenQASM','src/ir/operations/AodOperation.cpp'),('opTypeFromString','src/ir/operations/OpType.cpp')],
 ['getters, text, equality'])
for d in P:
    d['statement']=d['statement'].strip()
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    print(json.dumps(d,ensure_ascii=False))
