prop('C01', 'A failed operation is never reported as success',
     'Whenever an operation that reports success or failure (reading input, creating the model, assembling, '
     'solving, evaluating results, saving or restoring data) fails inside a larger operation, the larger operation '
     'itself reports failure. No combination of loops, accumulated flags, early exits or cleanup steps turns the '
     'failure of one part into the success of the whole.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every call site of a status-returning operation, for every failure of the callee and every path from there to '
     'the caller\'s return',
     'The tests run simulations that succeed; hardly any makes an inner step fail, and none does it at every call '
     'site and loop position.',
     ['src/SIM/SIMbase.C', 'src/SIM/SIMinput.C', 'src/SIM/SIMoutput.C', 'Apps/Utils/SIMSolver.h', 'src/ASM/ASMu2DLag.C',
      'src/ASM/AlgEqSystem.C', 'src/SIM/NonLinSIM.C', 'Apps/Utils/SIMCoupled.h'],
     [('status results combined into the caller\'s status', 'src/SIM/SIMbase.C assembleSystem, solveSystem'),
      ('status results of patch loops accumulated in a flag', 'src/ASM/ASMu2DLag.C integrate'),
      ('composite simulators', 'Apps/Utils/SIMCoupled.h, Apps/Utils/SIMSolver.h')],
     'interprocedural must-propagate analysis of failure statuses over the CFG',
     'Every call site of a status-returning function (cfg/c01_status.txt, closed over overriders) is assumed to fail '
     'and each path to the caller\'s return is explored with disjunctive constant propagation; sites where the failure '
     'is legitimately absorbed are listed one by one with the reason in cfg/c01_allow.txt.')

prop('C02', 'A detected error is returned as failure, not only printed',
     'Whenever the program prints an error message, or a numerical or I/O library it calls reports an error, or an '
     'input file cannot be opened, the operation in which that happens returns failure to its caller (when it has a '
     'status result at all).',
     ['inputs', 'fault_sequences'],
     'every error message, every checked library status and every input file stream, over all paths from there to the '
     'return of the enclosing operation',
     'Error branches (singular matrices, missing data sets, malformed input, unreadable files) are hardly ever '
     'executed by the tests.',
     ['src/SIM/SIMinput.C', 'src/LinAlg/SparseMatrix.C', 'src/LinAlg/DenseMatrix.C', 'src/Eig/EigSolver.C',
      'src/Utility/HDF5Base.C', 'src/Utility/HDF5Reader.C', 'src/Utility/HDF5Restart.C', 'src/Utility/FieldFunctions.C'],
     [('error message followed by a failure return', 'src/SIM/SIMinput.C, src/ASM/ASMbase.C, src/LinAlg/*.C'),
      ('LAPACK/SuperLU/UMFPACK/ARPACK info codes', 'src/LinAlg/DenseMatrix.C solve, src/LinAlg/SparseMatrix.C solveSLUx'),
      ('HDF5 return values', 'src/Utility/HDF5Reader.C, src/Utility/HDF5Restart.C')],
     'path-sensitive error-reporting analysis over the CFG',
     'Decides the structural statement for all paths; whether a library reports every error it has is trusted. '
     'HDF5Writer::writeArray has no status interface and is a recorded known finding.')

prop('C03', 'A lookup that found nothing is never used as if it had found something',
     'When a lookup has no result (a missing XML attribute, child element or text, a keyword line with too few '
     'values, an unknown patch, field, vector or function, a downcast to another type, a search in a container) the '
     'null pointer or end iterator it gives is never dereferenced or handed to a function that dereferences it. The '
     'same goes for a pointer that the code itself compares with null, for an argument given as null, and for the '
     'optional parts of a simulator (its equation system, DOF administration, integrand, analytical solution).',
     ['inputs', 'configurations'],
     'every lookup call site, for every way it can find nothing, and every path from there',
     'Tests use complete and well-formed input; the absent-item paths of hundreds of lookups are never taken.',
     ['src/SIM/SIMinput.C', 'src/SIM/SIMoutput.C', 'src/Utility/Functions.C', 'src/Utility/AnaSol.C',
      'src/SIM/SIMgeneric.C', 'src/Utility/FieldFunctions.C', 'src/LinAlg/LinSolParams.C'],
     [('XML lookups', 'src/SIM/SIMinput.C, src/SIM/SIM2D.C, src/SIM/SIM3D.C, src/Utility/Functions.C'),
      ('tokenised keyword lines', 'src/Utility/Functions.C utl::parseRealFunc'),
      ('patch and field lookups', 'src/SIM/SIMbase.C getPatch, src/SIM/SIMdependency.C')],
     'interprocedural nullness dataflow over the CFG (assume-null at each lookup)',
     'Covers the listed lookup functions (cfg/c03_null.txt and the library ones in tool/rules/c03.py), pointers tested '
     'in the same function, null arguments and the members of cfg/c03_members.txt; other pointers are not tracked. Sites guarded by an invariant the analysis cannot see are listed with the reason in '
     'cfg/c03_allow.txt. The legacy keyword parsers SIM*D::parse(char*) are recorded known findings.')

prop('C04', 'Resources acquired for an operation are released on every exit',
     'Every file, HDF5 handle and heap object that an operation acquires for its own use is released exactly by the '
     'matching release on every way out, failures included, or handed on to an owner that releases it; every member '
     'that owns such a resource is released by its destructor and never overwritten while it still owns one. Long '
     'runs, adaptive loops and repeated setups therefore do not accumulate memory or open files.',
     ['inputs', 'fault_sequences', 'histories'],
     'every acquisition (new, HDF5 open/create, C file and string allocations, and calls of functions that hand out a '
     'fresh one), over all paths from there',
     'A leaked handle or block does not change any result a test compares; the error exits are hardly executed at all.',
     ['src/SIM/SIMbase.C', 'src/SIM/SIMoutput.C', 'src/SIM/SIMinput.C', 'src/Utility/HDF5Base.C', 'src/Utility/HDF5Writer.C',
      'src/Utility/HDF5Restart.C', 'src/Utility/Functions.C', 'src/Utility/VTF.C', 'src/ASM/AlgEqSystem.C',
      'src/LinAlg/SparseMatrix.C', 'src/LinAlg/DenseMatrix.C'],
     [('HDF5 handles', 'src/Utility/HDF5Base.C, HDF5Reader.C, HDF5Writer.C, HDF5Restart.C, SIMsupel static condensation'),
      ('ownership transfer of new objects', 'src/Utility/Functions.C, src/SIM/SIMinput.C, src/Utility/VTF.C writeGrid'),
      ('owning members', 'src/ASM/AlgEqSystem.C, src/ASM/SAMpatch.C, src/LinAlg/DenseMatrix.C, src/SIM/HHTSIM.C')],
     'ownership (typestate) dataflow over the CFG with interprocedural take/borrow summaries',
     'Acquisitions made inside type-dependent template code are resolved where the type is known. Smart pointers and '
     'containers of the standard library are trusted to release what they are given.')

prop('C06', 'No object or variable is used with an indeterminate value',
     'Every object is born complete: each constructor gives every scalar, pointer and enumeration member a value, on '
     'every path through it, and an object of a class without a constructor has its members set before it is used. No '
     'local scalar is read on a path on which it has not been set, in particular not after a query that failed to set '
     'it. Results are therefore a function of the input, never of what happened to be in memory.',
     ['inputs', 'histories'],
     'every constructor (all classes, all paths) and every local scalar declared without a value (all feasible paths)',
     'An indeterminate value is often zero in a short test run and arbitrary in a long one; no finite test settles it.',
     ['src/SIM', 'src/ASM', 'src/LinAlg', 'src/Utility', 'Apps'],
     [('constructors', 'all class definitions of src and Apps compiled into the library'),
      ('queries with output parameters', 'src/Utility/FieldFunctions.C findClosestLevel, src/Utility/TextureProperties.C, '
       'Apps/Utils/SIMNodalConstraint.C, src/ASM/DomainDecomposition.C')],
     'definite-assignment dataflow (constructors) and path-sensitive read-before-write with output-parameter summaries',
     'Contents of dynamically allocated blocks and local arrays are not tracked. Loops over a member array with a '
     'non-constant bound are assumed to cover it.')

prop('C05', 'Copies carry the whole state and never share ownership',
     'A copy of an object is equivalent to its source: every hand-written copy or move constructor, copy assignment and '
     'copy-with-changes constructor transfers each member and base class part of its source, to the same member, on '
     'every path, save the few that are documented as not copied. No copy makes two objects own the same allocation: '
     'a class that releases what its raw pointers refer to is never copied member by member, neither directly nor as '
     'part of an enclosing object or container.',
     ['inputs', 'histories'],
     'every hand-written copy operation with every member of its class, and every copy of a class object',
     'Tests copy objects in their default state; a member that is lost shows when it differs from its default.',
     ['src/ASM', 'src/LinAlg', 'src/SIM/TimeStep.C', 'src/SIM/SIMadmin.C', 'src/Utility/Vec3.h', 'src/Utility/Tensor.C'],
     [('copy operations', 'src/LinAlg/{SparseMatrix,DenseMatrix,LinSolParams,matrix.h,ProcessAdm}, src/SIM/TimeStep.C, '
       'src/ASM/AlgEqSystem.C, src/ASM/ASMbase.C'),
      ('owning classes', 'all classes whose destructor deletes what a raw pointer member refers to')],
     'must-transfer dataflow from the source object over every path of the copy operation, ownership of raw members',
     'Members that deliberately are not copied are listed with the reason in cfg/c05_allow.txt. The equality of what is '
     'written with what is read is decided by name, not by value.')

prop('C07', 'What is saved for a restart is what is restored',
     'A simulation that is saved for restart and restored continues as if it had not been interrupted: everything a '
     'save operation writes is looked up and read back by the matching restore operation into the same data members, in '
     'the same order and with the same types; composite simulators save and restore the same parts; a class that extends '
     'the saved state keeps that of its base class; data which is saved only sometimes is not required on restore; '
     'restored values are not recomputed afterwards; and every data member which carries solution state from one step to '
     'the next is part of the restart data.',
     ['inputs', 'histories', 'crash_points', 'configurations'],
     'every save/restore pair and every solution driver, for all states in which a restart file can be written',
     'The tests save and restore a few states of a few drivers, immediately after each other and without stepping on.',
     ['src/SIM/SIMsolution.C', 'src/SIM/TimeStep.C', 'src/SIM/MultiStepSIM.C', 'src/SIM/HHTSIM.C', 'src/SIM/NewmarkNLSIM.C',
      'src/SIM/SIMmodal.C', 'src/SIM/SIMinput.C', 'Apps/Utils/SIMSolver.h', 'Apps/Utils/SIMCoupled.h'],
     [('archives of the solution and the time step', 'src/SIM/SIMsolution.C, src/SIM/TimeStep.C, src/SIM/SIMmodal.C'),
      ('driver state', 'src/SIM/HHTSIM.C, src/SIM/NewmarkNLSIM.C, src/SIM/EigenModeSIM.C'),
      ('composite simulators', 'Apps/Utils/SIMSolver.h, Apps/Utils/SIMCoupled.h')],
     'abstract interpretation of save/restore functions into archive scripts which are compared; interprocedural liveness of '
     'data members over a step',
     'Values are not computed: that the archive library and HDF5 return the bytes they were given is trusted. The missing '
     'load history of the multistep methods is a recorded known finding.')

prop('C08', 'Operations on composite objects reach every part of them',
     'What is done to a composite object is done to each of its parts: the methods of coupled and staggered simulators, '
     'solution drivers and exporters forward initialisation, step advance, saving, boundary and solution operations to every '
     'sub-simulator; the methods of multi-patch models, algebraic systems, block element matrices and integrands apply '
     'them to every patch, matrix, vector and block; and an overriding method that extends its base class still performs '
     'the base class part - on every path on which success is reported. A loop that changes the parts of an object neither '
     'skips the first nor the last part, and does not end half-way with success. Coupled simulators that are handed the '
     'same operation are handed the same arguments.',
     ['inputs', 'configurations', 'histories'],
     'every composite method and every loop over parts, for any number of parts and any outcome of the operations',
     'Tests drive one patch, one matrix or one simulator, for which a part that is left out is not noticed.',
     ['Apps/Utils', 'src/SIM', 'src/ASM', 'src/LinAlg/SystemMatrix.h', 'src/Utility/DataExporter.C'],
     [('composite simulators', 'Apps/Utils/SIMCoupled.h, Apps/Utils/SIMCoupledSI.h, Apps/Utils/SIMSolver*.h, Apps/Utils/SIMSemi3D.h'),
      ('multi-patch model', 'src/SIM/SIMbase.C, src/SIM/SIMinput.C, src/SIM/SIMoutput.C, src/SIM/SIMgeneric.C'),
      ('systems of matrices and vectors', 'src/ASM/AlgEqSystem.C, src/ASM/BlockElmMats.C, src/ASM/ElmMats.C, src/ASM/GlbNorm.C')],
     'path-sensitive must-reach analysis of operations on sub-objects (disjunctive constant propagation through helpers), '
     'coverage analysis of loops over parts',
     'The operations that have to reach the parts are listed in cfg/c08_forward.txt. What the operation then does to the '
     'part is left to the other properties.')

prop('C09', "No part of an object's state is left behind",
     "What an operation has to change, it changes completely: the operations that clear, (re)initialise, resize, restore or load an object "
     'leave nothing of what it held before in any member they are responsible for - vectors, flags, counters, factorisations, buffers - and '
     'the operations that advance, correct, renumber or extend it (time step increments, predictor and corrector steps, assembly of a '
     'contribution, merging and renumbering) update all of the members that belong together. This holds on every path on which the operation '
     'does not report failure, so a simulation that is run a second time, an equation system that is assembled again and a matrix that is '
     'given a new size behave as if they were new.',
     ['inputs', 'histories'],
     'every such operation of the classes, for any earlier state of the object',
     'Tests run an operation once on a new object, where everything is still empty or zero.',
     ['src/ASM', 'src/LinAlg', 'src/SIM', 'src/Utility', 'Apps/Utils'],
     [('equation systems', 'src/ASM/AlgEqSystem.C, src/ASM/ReactionsOnly.C, src/ASM/GlbForceVec.C, src/LinAlg/SAM.C, src/ASM/SAMpatch.C'),
      ('matrices', 'src/LinAlg/DenseMatrix.C, src/LinAlg/SparseMatrix.C, src/LinAlg/SystemMatrix.C, src/LinAlg/DiagMatrix.C'),
      ('simulators and time stepping', 'src/SIM/SIMbase.C clearProperties, src/SIM/TimeStep.C, src/SIM/HHTSIM.C, src/SIM/NewmarkNLSIM.C'),
      ('models and output', 'src/ASM/ASMbase.C clear, src/Utility/ElementBlock.C, src/Utility/VTF.C, src/Utility/FieldFunctions.C')],
     'path-sensitive must-write analysis of the members of an object (disjunctive constant propagation through helpers, aliases and loops), '
     'with replaced and modified contents told apart',
     'The members an operation is responsible for are listed in cfg/c09_reset.txt. That the new contents are the right ones is '
     'left to the other properties.')

prop('C11', 'Only degrees of freedom, nodes and constraints that exist are addressed',
     'A degree of freedom that is fixed has equation zero, a slave has a negative one, a node that is left out is negative in the list of '
     'its element, and a master that is not free is not positive: none of them has a row of its own. Wherever a number from the '
     'equation, node or constraint tables addresses a matrix, a vector or another table it has been found positive before. Every list in '
     'a compressed table (degrees of freedom of a node, nodes of an element, terms of a constraint) is the list of the right number, and '
     'is walked, measured and copied from its first to its last entry.',
     ['inputs', 'configurations'],
     'all meshes, boundary conditions and constraint equations',
     'Tests assemble a few models; a wrong entry usually reads neighbouring memory without any visible failure, or misplaces a '
     'contribution that is zero in the model tested.',
     ['src/LinAlg', 'src/ASM', 'src/SIM'],
     [('equation numbering', 'src/LinAlg/SAM.C, src/ASM/SAMpatch.C'),
      ('assembly', 'src/LinAlg/SparseMatrix.C, src/LinAlg/DenseMatrix.C, src/LinAlg/SystemMatrix.C, src/ASM/GlbForceVec.C'),
      ('use of node and equation lists', 'src/SIM/SIMbase.C, src/SIM/SIMoutput.C')],
     'sign and interval analysis (difference bounds) of the numbers from the tables, followed through arguments, and of the positions of '
     'lists in compressed tables',
     'Numbers are followed through variables, arguments and containers, not through class members; that the masters of constraints are free '
     'is ensured by SAM::initSystemEquations and trusted.')

prop('C12', 'Checked, searched and input indices are within range where used',
     'Where a loop condition or an explicit check relates an index to the container it is used in, every such use is '
     'within the container for all values the check lets through, and the check does not shut out the last element. An '
     'index with an upper limit is also kept from being below the first element. The result of a search that reports '
     '"not found" by a value outside the index range is tested before it is used as an index, and an integer that comes '
     'from the input (attributes, text, streams) is bounded on both sides before it is used as an index, also when it is '
     'passed to another function. An argument that may be zero is not passed for a parameter that counts from one, nor is '
     'the limit of a count from one passed for a parameter that counts from zero. An unsigned difference that decides a '
     'loop or check never wraps below zero.',
     ['inputs'],
     'every element access of vectors, matrices and arrays, on every path to it, for all values of the index',
     'An index that is one off on a boundary value reads a neighbouring word and most often goes unnoticed in a test run.',
     ['src/ASM', 'src/SIM', 'src/LinAlg', 'src/Utility', 'src/Integrands', 'Apps'],
     [('element accesses', 'all functions of src and Apps that are compiled into the library, templates included'),
      ('input parsers', 'src/SIM/SIMinput.C, src/SIM/SIM{1D,2D,3D}.C, src/ASM/ASMutils.C, src/SIM/EigenModeSIM.C'),
      ('search functions', 'getNodeIndex, getElmIndex, find_closest, getNodeID, ... found by their return statements')],
     'difference-bound (zone) abstract interpretation of indices and container sizes, taint of input integers',
     'Accesses for which no check or loop condition relates the index to the container are not decided. Ranges that '
     'follow from invariants of the data (e.g., 1-based DOF numbers) are listed with the reason in cfg/c12_allow.txt.')

prop('C14', 'Objects keep no hidden state: statics, caches and settings',
     'What an operation does depends only on its object and its arguments, not on earlier calls or on other objects. '
     'A variable with static storage duration (global, static member, static local) is modified after its initialisation '
     'only if it is one of the program-wide settings, counters and registries, and only by their owners; a static local '
     'variable is not initialised from the parameters or object of its first call. Const queries leave everything as it '
     'was, save for caches keyed by their input, output files, and the patch-wise set-up of the integrand before its '
     'evaluation. A setting which a function changes for a while and puts back is put back on every way out of it.',
     ['histories'],
     'every statement of the library that modifies a static, mutable or const-cast variable, and every path between changing '
     'a setting and leaving the function',
     'Each test sets up one simulator and calls most functions once; two solvers in turns or a second call are not sampled.',
     ['src/ASM', 'src/SIM', 'src/LinAlg', 'src/Eig', 'src/Utility', 'src/Integrands', 'Apps'],
     [('static variables', 'all functions compiled into the library; registry in cfg/c14_static.txt'),
      ('const methods', 'mutable members, const casts and member pointers; registry in cfg/c14_query.txt'),
      ('saved settings', 'print precision and tolerance, solution mode, quadrature rule, local system, ...')],
     'storage-root effect analysis of all modifications, path-sensitive save/restore typestate',
     'A variable in the registry may still be misused by its owner. Functions called through the expression parser and other '
     'libraries are taken to have no effects beyond their declared ones.')

prop('C16', 'Parallel loops are free of data races',
     'Whenever the elements, nodes or points of a patch are processed by several threads, no thread modifies data which another '
     'thread reads or modifies at the same time: each modification is of data belonging to the thread or to the item the thread '
     'is working on, is protected by a critical or atomic construct, or is part of the assembly that is kept apart by the '
     'colouring of the elements. This includes what is done by integrands, functions and caches that are called from the loops. '
     'The result does thereby not depend on the number of threads or their timing.',
     ['schedules', 'configurations'],
     'every statement that can be reached from a parallel loop, for any number of threads and any interleaving',
     'The tests are run with few threads on small models, in which colliding accesses hardly ever happen; and a race that '
     'does happen most often leaves the result as it was.',
     ['src/ASM/ASMs1D.C', 'src/ASM/ASMs2D.C', 'src/ASM/ASMs3D.C', 'src/ASM/ASMu2DLag.C', 'src/ASM/ASMs2DLag.C', 'src/ASM/GlbNorm.C',
      'src/ASM/AlgEqSystem.C', 'src/LinAlg/SparseMatrix.C', 'src/Utility/FieldFunctions.C', 'src/SIM/NodeVecFunc.C'],
     [('parallel element loops', 'src/ASM/ASMs2DLag.C, src/ASM/ASMs3DLag.C, src/ASM/ASMu2DLag.C integrate'),
      ('assembly of element contributions', 'src/ASM/AlgEqSystem.C, src/LinAlg/SAM.C, src/LinAlg/SparseMatrix.C, src/ASM/GlbNorm.C'),
      ('functions evaluated in the loops', 'src/Utility/Functions.C, src/Utility/FieldFunctions.C, src/SIM/NodeVecFunc.C')],
     'interprocedural shared-object (escape) and effect analysis of OpenMP parallel loops',
     'That the colouring of elements (ThreadGroups) separates them is taken as given; the assembly relying on it is listed in '
     'cfg/c16_shared.txt, and its preconditions (delayed norm assembly, fixed sparsity pattern) are checked. Patch types that '
     'need libraries not installed here are covered through the methods they call only.')

prop('C18', 'Integration rules and time integrators use the right coefficients',
     'The numerical integration rules have the accuracy their users are told: the Gauss and triangle quadrature rules integrate '
     'polynomials up to their degree exactly; the Runge-Kutta methods, their embedded error estimates, the Adams-Bashforth and '
     'Adams-Moulton methods and the backward difference formulas satisfy all conditions of their order (also in the first steps, '
     'where fewer earlier solutions are available, and with variable step size), and the time step functions combine stages, stage '
     'times and load vectors with those coefficients. A method name in the input selects the method of that name. The Newmark, '
     'generalized-alpha and HHT drivers produce displacement, velocity and acceleration that satisfy the Newmark relations after every '
     'update of every step (any number of iterations or sub-iterations, any predictor), and the effective element matrices, residuals '
     'and load vectors are those of the same scheme with the parameters given in the input.',
     ['configurations', 'histories'],
     'every rule and method that can be selected, every step of its start-up, sequences of iterations and sub-iterations',
     'A simulation with a slightly wrong coefficient still runs and gives plausible results; the tests compare a few rules and '
     'problems for which many coefficients do not matter.',
     ['src/Utility/GaussQuadrature.C', 'src/Utility/TriangleQuadrature.C', 'src/Utility/BDF.C', 'src/SIM/NewmarkSIM.C',
      'src/SIM/GenAlphaSIM.C', 'src/SIM/HHTSIM.C', 'src/ASM/NewmarkMats.C', 'src/ASM/HHTMats.C', 'Apps/Utils/SIMExplicitRK.h',
      'Apps/Utils/SIMExplicitRKE.h', 'Apps/Utils/SIMExplicitLMM.h', 'Apps/Utils/SIMImplicitLMM.h', 'Apps/Utils/TimeIntUtils.C'],
     [('quadrature tables', 'src/Utility/GaussQuadrature.C, src/Utility/TriangleQuadrature.C'),
      ('Runge-Kutta coefficients and steps', 'Apps/Utils/SIMExplicitRK.h, Apps/Utils/SIMExplicitRKE.h'),
      ('multistep coefficients and load history', 'Apps/Utils/SIMExplicitLMM.h, Apps/Utils/SIMImplicitLMM.h'),
      ('Newmark relations', 'src/SIM/NewmarkSIM.C, src/SIM/GenAlphaSIM.C, src/SIM/NewmarkNLSIM.C, src/SIM/HHTSIM.C'),
      ('effective element matrices', 'src/ASM/NewmarkMats.C, src/ASM/HHTMats.C, src/ASM/BDFMats.C'),
      ('backward differences', 'src/Utility/BDF.C, src/Utility/BDF.h')],
     'constant propagation of the coefficients through the code that sets up and combines them, order conditions in rational arithmetic',
     'Conditions are checked to 1e-13. The Newmark-type drivers are followed with symbolic states for a set of parameter values, step sizes and '
     'sequences of iterations. Stability and convergence of the methods are not decided.')

prop('C20', 'No reference, pointer or iterator outlives what it refers to',
     'Nothing is used after it is gone: an iterator, pointer or reference into a container (also that of a range-based loop) is not used '
     'after the container was changed in a way that moves or removes the element, by the function itself or by one it calls; a pointer is '
     'not used after the object was deleted; no function returns a reference, pointer or iterator to a local object or keeps one to a '
     'temporary; and the address of a local object, or a function object that refers to one, is not left in an object that outlives the '
     'function; an object that registers its own address in a global variable resets it when it is destroyed.',
     ['inputs', 'histories'],
     'every use of a reference, pointer or iterator on every path after each change of the container, deletion or return',
     'A use after free most often reads the old value; whether a container moves its elements depends on its capacity and the model size.',
     ['src/ASM', 'src/SIM', 'src/LinAlg', 'src/Utility', 'src/Integrands', 'Apps'],
     [('containers of nodes, constraints and patches', 'src/ASM/ASMbase.C, src/ASM/ASMunstruct.C, src/ASM/DomainDecomposition.C, src/SIM'),
      ('caches and blocks', 'src/ASM/BasisFunctionCache.C, src/Utility/VTF.C, src/LinAlg/SparseMatrix.C'),
      ('changes of containers', 'all member functions that modify a member container, found by effect analysis')],
     'path-sensitive typestate of references into containers, effect analysis of callees, escape analysis of local objects',
     'References that are stored in members are followed within the function only, save for addresses of local objects and arguments. '
     'Aliases between different containers are decided by access paths.')

prop('C21', 'Real numbers are not truncated, wrapped or narrowed on the way',
     'A real quantity keeps its value: it is not converted to an integer on its way from the input to where it is used, unless it was '
     'rounded on purpose; a ratio of two integers that is used as a real number is computed as a real number; an unsigned difference that '
     'may be negative is not used as a real number; reals are not summed up in an integer, read as integers, or stored in single '
     'precision by the way, and their absolute value is not that of an integer.',
     ['inputs'],
     'every conversion between integer and real numbers of the type-checked program, implicit ones included',
     'A truncated factor is right for whole numbers, which is what most test inputs have.',
     ['src/ASM', 'src/SIM', 'src/LinAlg', 'src/Utility', 'src/Integrands', 'Apps'],
     [('parameters from the input', 'src/SIM/AdaptiveSetup.C, src/SIM/SIMinput.C, src/SIM/TimeStep.C, src/Utility/Functions.C'),
      ('weights, coordinates and norms', 'src/ASM, src/Utility'),
      ('conversions', 'all functions compiled into the library, implicit conversions of the compiler included')],
     'queries over the implicit and explicit conversions of the type-checked program',
     'Conversions inside templates are decided for the dependent code where the types are known. Loss of precision by cancellation or by '
     'large integers is not decided.')

prop('C22', 'An object used through its base class behaves as the object it is',
     'Calls through a base class reach the methods of the object: a method of a derived class that is meant to override a virtual method '
     'does so; an object is not deleted through a base class without virtual destructor, copied into an object of its polymorphic base '
     'class, or asked for overridden methods while it is under construction; a call does the same thing whether the default arguments '
     'come from the base or the derived class; and an override which is one layer of an operation (advancing, saving, clearing, parsing, '
     'printing) also performs the layer below it, without skipping one, whenever it succeeds, and never calls itself unchanged.',
     ['configurations'],
     'every class with its inherited virtual methods, every deletion, object copy and call to a base class implementation',
     'A method that no longer overrides compiles; the simulation then uses the general one of the base class, for the kind of patch or '
     'simulator that no test covers.',
     ['src/ASM', 'src/SIM', 'src/LinAlg', 'src/Utility', 'src/Integrands', 'Apps'],
     [('patch classes', 'src/ASM/ASMbase.h, src/ASM/ASM2D.h, src/ASM/ASM3D.h and the classes derived from them'),
      ('simulator and integrand classes', 'src/SIM, src/ASM/IntegrandBase.h, Apps'),
      ('layered operations', 'src/SIM/MultiStepSIM.C, src/SIM/NewmarkSIM.C, src/SIM/SIMoutput.C; table cfg/c22_extends.txt')],
     'queries over the class hierarchy and its overriding relation, must-call analysis of the layered operations',
     'Classes of applications outside the repository are not seen. Which operations are layered is listed in cfg/c22_extends.txt.')

prop('C25', 'Blocks of memory are as large as what is put into them',
     'Fixed and dynamically allocated arrays hold everything that is written to or read from them, whatever the number of degrees of '
     'freedom, nodes, equations, file names and steps: an index or a running counter never leaves a fixed or a newly allocated array, '
     'the work arrays handed to LAPACK, ARPACK and SuperLU have the lengths these libraries document, block copies, fills and reads '
     'stay within both blocks, and no text that is formatted or appended is longer than its buffer.',
     ['inputs', 'configurations'],
     'every access to a fixed or allocated array, every call of a block operation, text function and library routine with work arrays',
     'An overrun by one element of a work array is silent until the model has the size, or the file name the length, that exceeds it.',
     ['src/LinAlg', 'src/Utility', 'src/SIM', 'src/ASM', 'Apps'],
     [('work arrays of the solvers', 'src/LinAlg/DenseMatrix.C, src/LinAlg/MatVec.C, src/LinAlg/EigSolver.C, src/LinAlg/SparseMatrix.C'),
      ('arrays of the equation numbering', 'src/LinAlg/SAM.C, src/ASM/SAMpatch.C'),
      ('text buffers', 'src/Utility/VTF.C, src/SIM/AdaptiveSetup.C, src/Utility/ControlFIFO.C')],
     'comparison of the extents of all blocks with what is accessed: symbolic size polynomials, zone analysis of indices and counters, '
     'greatest length of formatted text',
     'The lengths the external libraries need are listed in cfg/c25_work.txt; blocks whose extent is not known in the function (class '
     'members allocated elsewhere, parameters) are not decided.')

# -- broad guarantees that static analysis cannot decide here
na('C30', 'The assembled system is the discretisation of the weak form',
   'For every mesh, basis and integrand, the assembled matrices and vectors equal the integrals of the weak form over the patches, with '
   'all boundary, nodal and constraint terms included once.',
   ['inputs', 'configurations'], 'all meshes, polynomial degrees and integrands',
   'Tests compare a few meshes with reference values.',
   ['src/ASM/ASMs2D.C', 'src/ASM/ASMu2DLag.C', 'src/ASM/AlgEqSystem.C', 'src/LinAlg/SAM.C'],
   [('element integration and assembly', 'src/ASM/ASMu2DLag.C integrate, src/ASM/AlgEqSystem.C assemble')],
   'A statement about values of floating-point sums over runtime meshes and user integrands; the structural parts (index ranges, '
   'parts covered, statuses, races, quadrature tables) are claimed as C01, C08, C12, C16 and C18. The remaining numeric statement has '
   'no static argument in reach.')
na('C31', 'Linear solvers return the solution of the system they are given',
   'A solve that reports success returns a vector that satisfies the equations to the accuracy of the chosen solver.',
   ['inputs'], 'all matrices and right-hand sides', 'Tests solve a few small systems.',
   ['src/LinAlg/DenseMatrix.C', 'src/LinAlg/SparseMatrix.C', 'src/LinAlg/DiagMatrix.C'],
   [('direct solvers', 'src/LinAlg/SparseMatrix.C solve, src/LinAlg/DenseMatrix.C solve')],
   'The residual of a solve is a runtime quantity computed by external libraries (LAPACK, SuperLU, UMFPACK); what the code does with '
   'their reported errors is claimed under C02.')
na('C32', 'Basis functions are a partition of unity with exact derivatives',
   'All spline, Lagrange and spectral basis functions sum to one, and their derivatives are those of the functions, at every point.',
   ['inputs'], 'all degrees, knot vectors and points', 'Tests evaluate a few degrees and points.',
   ['src/ASM/Lagrange.C', 'src/ASM/SplineUtils.C', 'src/Utility/Legendre.C'],
   [('Lagrange polynomials', 'src/ASM/Lagrange.C'), ('Legendre polynomials', 'src/Utility/Legendre.C')],
   'Spline evaluation is delegated to GoTools/LR-splines, which are not installed here (those files do not compile), and the identities '
   'are about real-valued functions for arbitrary degree.')
na('C33', 'Nonlinear and adaptive iterations converge to a solution in equilibrium',
   'When a nonlinear or adaptive simulation reports convergence, the residual is below the tolerance; refinement reduces the error.',
   ['inputs', 'histories'], 'all models, load histories and tolerances', 'Tests run a few benchmark problems.',
   ['src/SIM/NonLinSIM.C', 'src/SIM/NewmarkSIM.C', 'src/SIM/AdaptiveSetup.C'],
   [('convergence checks', 'src/SIM/NonLinSIM.C checkConvergence'), ('refinement', 'src/SIM/AdaptiveSetup.C calcRefinement')],
   'Convergence depends on the nonlinear problem; norms and residuals are runtime quantities.')
na('C34', 'A partitioned (MPI) run gives the results of a serial run',
   'The results do not depend on the number of processes or the partitioning of the model.',
   ['configurations', 'schedules'], 'all partitionings', 'Tests use at most a few processes and patches.',
   ['src/ASM/DomainDecomposition.C', 'src/LinAlg/PETScMatrix.C', 'src/ASM/SAMpatchPETSc.C'],
   [('domain decomposition', 'src/ASM/DomainDecomposition.C')],
   'MPI and PETSc are not installed: the parallel code is excluded by the preprocessor in every configuration that can be built here, so '
   'there is nothing to analyse.')
na('C36', 'The numbers written to result files are those of the solution',
   'Every exported field, at every point and time level, has the value of the solution it is a projection or evaluation of.',
   ['inputs', 'histories'], 'all fields, meshes and time levels', 'Tests compare a few files.',
   ['src/Utility/HDF5Writer.C', 'src/Utility/VTF.C', 'src/SIM/SIMoutput.C'],
   [('HDF5 and VTF export', 'src/Utility/HDF5Writer.C, src/Utility/VTF.C')],
   'The values are interpolations evaluated at runtime; that no part is left out and no write error is hidden is claimed under C01, '
   'C02 and C08.')
na('C37', 'Computation time and memory grow as documented with the model size',
   'Assembly is linear in the number of elements, and memory use is proportional to the number of matrix nonzeros.',
   ['inputs'], 'all model sizes', 'Tests use small models.',
   ['src/LinAlg/SparseMatrix.C', 'src/ASM/ASMbase.C'],
   [('sparse assembly', 'src/LinAlg/SparseMatrix.C')],
   'Cost is a runtime quantity; the unbounded growth due to leaked resources is claimed as C04.')
