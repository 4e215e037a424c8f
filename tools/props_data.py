S = 'ADOL-C/src/'
I = 'ADOL-C/include/adolc/'
FWD = [S + 'uni5_for.cpp']; REV = [S + 'fo_rev.cpp', S + 'ho_rev.cpp', S + 'int_rev_s.cpp']
prop('C01', 'Every evaluator replays exactly what was recorded',
     'For every operation a program can record, each evaluator of a tape (value, first-order and vector tangent, adjoint, higher-order Taylor and adjoint, abs-normal, bit-pattern, index-domain, nonlinear-interaction, documentation) takes from the tape exactly the operand locations and constants the recording put there for that operation. An evaluator that does not support an operation stops with an error. No evaluator skips, repeats or misreads tape words, so operations that follow are never misinterpreted.',
     ['programs', 'inputs', 'configurations'], 'every recordable operation in every operand-alias pattern and recording case, in each of the 32 interpreters; all programs are sequences of such records',
     'Tests replay a few dozen formulas in some modes; an operation whose record is misread in one mode shows up only when that operation is followed by others in that mode.',
     [S + 'adouble.cpp', S + 'advector.cpp', S + 'externfcts.cpp'] + FWD + REV + [S + 'tapedoc/tapedoc.cpp'],
     [('operator recording (put_op/put_loc/put_val)', S + 'adouble.cpp'), ('forward dispatch loop', S + 'uni5_for.cpp'), ('reverse dispatch loops', S + 'fo_rev.cpp')],
     technique='value numbering of recorders and interpreter case sections; word counts per operation and stream compared',
     note='Decides, per operation and interpreter, that the words consumed equal the words recorded and that unsupported operations end in an error. Trusts the clang front end; block refill functions are covered by other properties.')
REC = [S + 'adouble.cpp', S + 'advector.cpp']
prop('C02', 'Replaying a tape at any point computes the value the program computes there',
     'For every recordable operation and every operand-alias pattern, every forward evaluator that carries values (zero-order, first-order scalar and vector, higher-order scalar and vector, abs-normal, and the tight sparsity and index-domain evaluators) leaves in every location the value the overloaded operation computed from the same operands while recording. Independents are read in declaration order from the base point and dependents delivered in declaration order. This also holds on the other side of a recorded conditional assignment and for active subscripts at another index.',
     ['inputs', 'programs'], 'all operand values and alias patterns of every recordable operation; programs compose them',
     'Tests evaluate sample formulas at sample points; a wrong value for one alias pattern, one sign of the condition, or one evaluator stays hidden.',
     REC + FWD, [('recording of an operation with its value', S + 'adouble.cpp'), ('zero-order part of each case section', S + 'uni5_for.cpp')],
     technique='value numbering of recorders and forward case sections; normal forms compared per region of the gating conditions',
     note='Arithmetic is exact real arithmetic (rounding is not decided); evaluators with a caller-given signature are excluded for abs/min.')
prop('C03', 'First-order forward evaluators propagate the exact derivative of every operation',
     'For every recordable operation and operand-alias pattern the tangent computed by the scalar, vector and abs-normal first-order forward evaluators is the directional derivative of the recorded value function, for every direction of the vector modes; at a fixed abs/min/max branch the one-sided (piecewise-linear) increment is used. Tangents of unrelated locations are unchanged.',
     ['inputs', 'programs'], 'all operand values, tangents and alias patterns of every operation away from points where the function has no derivative',
     'Derivative errors that need an aliased operand, a negative argument or the second direction are invisible at the points tests sample.',
     REC + FWD, [('first-order part of each case section', S + 'uni5_for.cpp')],
     technique='value numbering plus symbolic differentiation of the recorded value numbers; normal forms compared per region',
     note='Exact real arithmetic; two directions stand for all; ties of non-smooth operations follow the library conventions and are excluded.')
prop('C04', 'First-order reverse sweeps compute the transposed derivative of each operation',
     'For every recordable operation and operand-alias pattern, the scalar, vector and abs-normal reverse evaluators replace the adjoints of the touched locations by the exact transposed Jacobian of the operation applied to them: adjoints of operands are incremented by the partial derivative times the adjoint of the result, the adjoint of an overwritten result is cleared, in every weight direction. Hence forward and reverse derivatives of the same tape agree.',
     ['inputs', 'programs'], 'all operand values, adjoints and alias patterns of every recordable operation',
     'Tests compare sample gradients; a missing clear or a wrong partial under aliasing appears only if the location is reused in the same program.',
     REC + [S + 'fo_rev.cpp'], [('adjoint case sections', S + 'fo_rev.cpp')],
     technique='value numbering of reverse case sections against the transposed symbolic derivative of the recorded value numbers',
     note='Exact real arithmetic; reads the values the Taylor stack restores (C05).')
prop('C05', 'The Taylor stack is written and read in lockstep and restores forward values',
     'With Taylor coefficients kept, every operation pushes exactly the value of each location it overwrites, the recording and every keeping forward sweep push the same values in the same order and number, the recording accounts for exactly the number it pushes, and every reverse sweep pops exactly these values in the opposite order, leaving each location at its value before the operation.',
     ['inputs', 'programs', 'histories'], 'every recordable operation in every alias pattern, every keeping forward sweep and every reverse sweep',
     'One surplus or missing push shifts all earlier values of the sweep; only programs where the shifted values differ and matter reveal it.',
     REC + FWD + REV[:2], [('ADOLC_WRITE_SCAYLOR / write_scaylor', S + 'uni5_for.cpp'), ('ADOLC_GET_TAYL', S + 'fo_rev.cpp')],
     technique='value numbering; sequences of pushed and popped value numbers compared per operation',
     note='Buffer refill across blocks is decided elsewhere; higher-order sweeps are covered for their number of coefficients per push.')
prop('C06', 'Overloads compute the function they are named after, traced or not',
     'For every overloaded operator and function on adouble, pdouble and advector elements and every operand-alias pattern (including temporaries), the value delivered is the value of the named mathematical function of the operand values; comparisons return the comparison of the values. The value is the same whether or not a trace is being recorded, and the operations recorded are the same whether or not Taylor values are kept. No overload changes the value of an active variable without recording an operation that replays to that value.',
     ['inputs', 'programs', 'configurations'], 'all operand values of every overload, in every alias pattern, recording with and without kept Taylor values and not recording',
     'There are about 280 overloads for lvalues, temporaries, constants and parameters; tests call a few of them at a few values and always while recording.',
     REC + [I + 'adtb_types.h', I + 'advector.h'], [('overloads', I + 'adtb_types.h'), ('recording operators', S + 'adouble.cpp')],
     technique='value numbering of every overload in three modes; normal forms compared with the named function and with the replay of the recorded operations',
     note='Exact real arithmetic; power with active exponent is compared for positive base only; atan2 and frexp are compared with their replay only.')
prop('C07', 'Higher-order forward sweeps compute exact Taylor coefficients of each operation',
     'For every recordable operation and operand-alias pattern the higher-order forward evaluators (scalar, vector, with and without kept coefficients) compute, in every direction, the Taylor coefficients of the recorded value function along the given Taylor polynomials of its operands. With coefficients kept, they save the value and the requested coefficients of every location the operation overwrites, in recording order. Coefficients of other locations do not change.',
     ['inputs', 'programs'], 'all operand values, coefficients and alias patterns of every operation of the higher-order modes, at coefficient order three (two in the vector modes)',
     'An error in one convolution index, one alias pattern or at a zero base shows only at a particular order, direction and point.',
     REC + FWD, [('higher-order branch of each case section', S + 'uni5_for.cpp')],
     technique='value numbering of the case sections with constant degree; coefficients compared with the symbolic Taylor expansion of the recorded value numbers',
     note='Exact real arithmetic; orders up to three and two directions stand for all; pow at a zero base is decided for whole and half exponents around the order.')
prop('C08', 'Higher-order reverse sweeps compute exact adjoints of the Taylor coefficients',
     'For every recordable operation and operand-alias pattern the higher-order reverse evaluators (one input with one or several weights, several inputs with one weight each) turn the adjoint coefficients of the results into those of the operands by the transposed Taylor arithmetic of the recorded value function: products of adjoint coefficients with the Taylor expansion of the exact partial derivatives. Adjoints of overwritten results are cleared, every location that receives a contribution is marked as active, operations whose adjoint is zero change nothing but still restore the saved coefficients, and every saved coefficient is restored exactly once.',
     ['inputs', 'programs'], 'all operand values, Taylor and adjoint coefficients and alias patterns of every operation, with all, some or no adjoints zero',
     'Errors appear only for a certain coefficient order, weight, direction, alias or when one of several adjoints happens to be zero.',
     REC + [S + 'ho_rev.cpp', S + 'convolut.cpp'], [('adjoint case sections', S + 'ho_rev.cpp'), ('convolutions', S + 'convolut.cpp')],
     technique='value numbering of the case sections with constant degree against products of adjoint rows with the symbolic Taylor expansion of the derivative',
     note='Exact real arithmetic; orders up to three, two weights or directions stand for all; ties of non-smooth operations and bases within the fixed tolerance of zero are left out.')
prop('C09', 'Traceless variables carry exact values, derivatives and patterns',
     'For every overloaded operator and function of the traceless classes adtl::adouble and adtl_indo::adouble, with any of the operands being the same object, the value of the result is the value of the named function, each of the numDir directional derivatives of an adtl result is the derivative of that function applied to the operand tangents, and the index pattern of an adtl_indo result contains, in ascending order without repetition, every index an operand with non-vanishing influence carries and no index that no operand carries. Operands that are not results stay unchanged. Accessors deliver and set exactly the direction asked for and reject directions that do not exist.',
     ['inputs', 'programs'], 'all operand values, tangents and index patterns of every overload in every pattern of identical operands; two directions stand for all',
     'Tests try each overload at a single point with distinct operands; a wrong branch, a second direction, an operand that is also the result, or a lost index does not show.',
     [I + 'adtl.h', I + 'adtl_indo.h'], [('tangent loops over numDir', I + 'adtl.h'), ('add_to_pattern', I + 'adtl_indo.h')],
     technique='value numbering of the overload bodies against the symbolic derivative of the named function; constant propagation over representative index lists',
     note='Exact real arithmetic; points without derivative (ties, zero arguments of roots and logarithms) are left out; the higher order traceless class is the subject of C24.')
prop('C10', 'Bit-pattern propagation covers every dependency and invents none',
     'For every recordable operation and operand-alias pattern, and every word of the bit pattern alike, the forward bit-pattern sweeps give the result the union of the patterns of all operands its derivative depends on, and of no location that is not an operand; the reverse bit-pattern sweeps pass the pattern of a result on to every operand with non-vanishing derivative, clear it when the result is overwritten, and pass it to nothing else. The tight sweeps do so for the branch taken at the point considered, the safe sweeps for every branch that could be taken, including a target that keeps its value.',
     ['inputs', 'programs'], 'all patterns, all operand values (tight) or all branches (safe) of every operation in every alias pattern; two words stand for all',
     'Patterns in tests fit in one word and are computed at one point; a lost dependency gives a wrong compressed Jacobian only for certain structures.',
     FWD + [S + 'fo_rev.cpp'], [('_INT_FOR_ sections', S + 'uni5_for.cpp'), ('_INT_REV_ sections', S + 'fo_rev.cpp')],
     technique='value numbering of the bit-pattern sections against the support of the symbolic derivative, region by region of the branch conditions',
     note='Ties of non-smooth operations are left out; the union along a program follows from the steps by induction; the counting over calls in strip-mined drivers is not part of this property.')
prop('C11', 'Seeds reach, and results come from, exactly the declared variables',
     'In every derivative evaluator the i-th independent variable is seeded from the i-th row of the seed array and the i-th dependent variable delivers to the i-th row of the result array (transposed in the reverse vector modes as documented), direction by direction and coefficient by coefficient; nothing else is stored, result arrays not asked for are not touched, and counting starts at the first (reverse: last) variable and moves by one per declaration. A reverse sweep adds the seed of a dependent to the adjoint its variable already has from later uses, marks it active exactly when an adjoint is non-zero, and leaves no adjoint behind at an independent assignment, so a variable may be used after it was declared dependent or be declared independent again.',
     ['inputs', 'programs'], 'every declaration of an independent or dependent in every program, for all seeds; two directions and coefficient order two stand for all',
     'Tests declare independents first and dependents last, once each; a transposed index or a missing accumulation shows only in other shapes.',
     FWD + REV, [('assign_ind, assign_dep', S + 'uni5_for.cpp'), ('assign_ind, assign_dep', S + 'fo_rev.cpp'), ('assign_ind, assign_dep', S + 'ho_rev.cpp')],
     technique='value numbering of the declaration sections; loads from and stores to the caller arrays compared with the documented layout',
     note='Switching variables of abs-normal sweeps and index-domain results are not part of this property.')
D_ = S + 'drivers/'
prop('C12', 'Drivers return the derivatives they are named after',
     'Every driver built on the evaluators - function, gradient, vec_jac, jacobian, large_jacobian, jac_vec, hess_vec, hess_mat, hessian, hessian2, lagra_hess_vec, the overloaded and partitioned forward/reverse calls, forodec, accodec (with and without sparsity), jac_solv, inverse_Taylor_prop, tensor_eval, inverse_tensor_eval, tensor_address, tensor_value, abs_normal and the Fortran-callable versions - stores in every documented element of its result exactly the derivative, Taylor coefficient, adjoint, tensor entry or solution it is documented to be, for all dimensions, also when called repeatedly with changing dimensions, degrees and points. It returns the smallest code of the evaluator calls it made (a singular Jacobian gives -3), stays within the documented extents of the arrays it is given, restores what it permutes, and releases everything it allocates, also when an evaluator fails.',
     ['inputs', 'histories'], 'all traced functions, points, directions and weights at representative dimensions and sequences of calls',
     'Tests call drivers on one or two functions with fixed dimensions, in fresh processes and without failures; chunking, caching and error paths stay untouched.',
     [D_ + 'drivers.cpp', D_ + 'taylor.cpp', D_ + 'odedrivers.cpp', D_ + 'psdrivers.cpp', D_ + 'driversf.cpp', S + 'interfaces.cpp', S + 'interfacesf.cpp', S + 'forward_partx.cpp'],
     [('easy drivers', D_ + 'drivers.cpp'), ('tensors, inverse and linear solver', D_ + 'taylor.cpp'), ('ODE drivers', D_ + 'odedrivers.cpp'), ('Fortran interface', S + 'interfacesf.cpp')],
     technique='value numbering of the drivers against contracts of the evaluators over formal functions; constant propagation of dimensions and return codes; bounds and release typestate',
     note='Representative dimensions (up to about five) stand for all; the evaluators are taken by their contracts (C03-C08, C11); generic position for pivots, every pivot order for two unknowns.')
V_ = S + 'valuetape/'
VH = 'ADOL-C/include/adolc/valuetape/'
prop('C13', 'What is recorded is what every sweep reads back, for any buffers and history',
     'Operations, locations, constants, live-variable values and parameters put on a tape come back unchanged, complete and in order in every forward and, last first, in every reverse sweep over it: with buffers of any admissible size, given by configuration or to trace_on, filled to any level, held in core, overflowed to files, or written to files on request (trace_off with a non-zero argument). This also holds for a tape that was recorded before, with other sizes or on files, and for parameters replaced by set_param_vec. The storage code stays inside its buffers, uses files only while they are open and reads only what was written, leaves no file of operations, locations or constants open between sweeps, and every evaluator answers a block mark with the block function of its direction.',
     ['inputs', 'programs', 'histories'], 'all recorded contents; buffer sizes, fill levels and numbers of operations, live variables and parameters around every block boundary; sequences of recordings, sweeps and parameter changes',
     'Default buffers hold half a million entries, so tests never cross a block boundary, never meet a left-over file and record each tape once.',
     [V_ + 'tapeinfos.cpp', V_ + 'valuetape.cpp', VH + 'tapeinfos.h', VH + 'valuetape.h', VH + 'bufferstate.h', VH + 'infotype.h', S + 'tape_interface.cpp'],
     [('put_op, put_block, get_*_block_*', V_ + 'tapeinfos.cpp'), ('start_trace, close_tape, save_params, discard_params_r', V_ + 'valuetape.cpp'), ('prepare_for, prepare_rev, init_sweep', VH + 'valuetape.h')],
     technique='abstract interpretation of the storage code with constant positions and symbolic contents against the sequence put; typestate of files; effects of the block sections',
     note='Representative buffer sizes and lengths; the I/O chunk is taken as 24 bytes so that chunked transfers are reached; stdio is a model without I/O errors; files are not shared between processes.')
prop('C14', 'The Taylor stack returns each saved coefficient, last first, for any buffer size',
     'Coefficients saved while recording with keep or by a forward sweep, singly or in blocks of any length, are returned by the reverse sweep exactly once, last first and in the documented arrangement, in every repetition of the reverse sweep, for Taylor buffers of any size filled to any level, in core or over a file, and after the stack was written anew. The stack code stays inside its buffer and the arrays it is given and reads only what was written.',
     ['inputs', 'programs', 'histories'], 'all coefficients; buffer sizes and numbers of coefficients around every block boundary; all writing and reading calls in turn; repeated sweeps',
     'Default Taylor buffers hold half a million entries; tests stay within the first block.',
     [V_ + 'tapeinfos.cpp', V_ + 'valuetape.cpp', VH + 'tapeinfos.h', VH + 'bufferstate.h'],
     [('write_taylor, write_taylors, write_scaylors, get_taylors, get_taylors_p, get_tay_block_r', V_ + 'tapeinfos.cpp'), ('taylor_begin, taylor_close, taylor_back, keep_stock', V_ + 'valuetape.cpp')],
     technique='abstract interpretation of the stack code with constant positions and symbolic coefficients against the sequence pushed',
     note='Representative buffer sizes and counts; stdio is a model without I/O errors.')

SP_ = S + 'sparse/'
SPH = 'ADOL-C/include/adolc/sparse/'
prop('C15', 'Sparse drivers deliver exactly the pattern and the derivatives at it',
     'For every sparsity pattern, in every combination of sparse method, control flow mode, propagation direction, compression and recovery, through the C++ templates and the C interface: jac_pat and hess_pat deliver per row the count and the indices of the pattern the selected sweep yields, increasing and each once; generate_seed_jac and generate_seed_hess deliver a seed matrix in which no two entries of a row (column) share a direction; sparse_jac and sparse_hess deliver every entry of the pattern exactly once (the Hessian: its upper triangle) with the derivative at the point of that call, with a new and with a reused pattern, into memory of the library or of the caller; the abs-normal variant splits it into the blocks Y, J, Z, L with cy and cz. The code returned reports the worst of the sweeps; misuse (repeat without a pattern, containers of another size, no base point in tight mode) is refused. Rows, seeds and workspaces are allocated to the sizes accessed and released exactly once. A program that instantiates the templates gets the same code as the library.',
     ['inputs', 'configurations', 'histories'], 'representative patterns at every word and strip boundary, all template instances and option values, all return codes of the sweeps, sequences of new and repeated calls; formal derivatives',
     'The tests call each driver on one small function, mostly once; the product of modes, word boundaries, repeats and failures is out of reach.',
     [SPH + 'sparsedrivers.h', SP_ + 'sparsedrivers.cpp', SP_ + 'sparsedrivers_c.cpp', V_ + 'sparseinfos.cpp', VH + 'sparseinfos.h'],
     [('jac_pat, hess_pat, generate_seed_jac, generate_seed_hess, sparse_jac, sparse_hess', SPH + 'sparsedrivers.h'), ('extract', SP_ + 'sparsedrivers.cpp'), ('call_sparse_jac, writeJacToBuffers', SP_ + 'sparsedrivers_c.cpp'), ('SparseJacInfos, SparseHessInfos', V_ + 'sparseinfos.cpp')],
     technique='abstract interpretation of the drivers with formal derivatives, contracts for the pattern sweeps and for ColPack, typestate of storage; one-definition lint over all translation units',
     note='ColPack and the sweeps are replaced by their contracts; strips are shortened to two words so that their boundaries are reached; patterns are representative.')
prop('C16', 'Index-domain patterns contain every dependence and nothing that cannot be one',
     'For every operation a recorder can put on a tape, whatever independents its operands depend on, however operands and results coincide, with variables that were alive before the recording, and for values on every side of a branch: indopro_forward_tight/safe return for each dependent a row with every independent on which the recorded computation depends there (safe: on any side of a branch), each once and none that does not enter it; nonl_ind(_old)_forward_tight/safe return a symmetric pattern with every pair of independents that occurs in a second derivative, without pairs that occur in none (beyond factors of one vector or fused operation, and results that overwrite a factor in the old method); indopro_forward_absnormal gives each abs a row with exactly the independents of its argument and its result the new independent. The sweeps stay inside their blocks for sets of any size, use no uninitialised entry and release everything but the rows.',
     ['inputs', 'programs'], 'all records of all recorders with all aliases; operand sets disjoint, overlapping, equal, nested, empty and larger than a block; signs and ties at every branch; live variables; repeated operations',
     'The tests compare a few patterns of small functions; aliasing of result and operand, branches, live variables and list growth are not in them.',
     [S + 'uni5_for.cpp', S + 'indopro_forward_t.cpp', S + 'indopro_forward_s.cpp', S + 'nonl_ind_forward_t.cpp', S + 'nonl_ind_forward_s.cpp', S + 'nonl_ind_old_forward_t.cpp', S + 'nonl_ind_old_forward_s.cpp', S + 'indopro_forward_pl.cpp'],
     [('indopro_forward_*, nonl_ind_*_forward_*', S + 'uni5_for.cpp'), ('copy/merge/combine_index_domains, traverse_unary, extend_nonlinearity_domain_*', S + 'uni5_for.cpp')],
     technique='constant propagation of complete index-domain sweeps over the record of each recorder, against the support of its symbolic derivatives; bounds, definedness and release typestate',
     note='Support is judged at representative values; supersets within one vector operation, eq_min_prod or overwritten factor (old method) are accepted for Hessians; safe mode refuses active subscripts and external functions.')
prop('C17', 'Live locations are exclusive, keep their values and are returned exactly once',
     'For every sequence of creations and destructions of variables and parameters, requests for contiguous locations and settings of the location manager (block and singleton manager): live variables have distinct locations inside the store and keep their values when the store grows or the free blocks are consolidated; numLives() counts them; after ensureContiguousLocations(n) the next n variables get consecutive locations; parameters get consecutive indices and keep their values; a returned location is available again and no block, store or list element is used outside its extent or after its release. Over every sequence of construction, move, (self) move assignment, release and borrowing, each location is owned by exactly one object and returned exactly once; borrowed locations are never returned.',
     ['histories', 'configurations'], 'all sequences of requests up to the bound on live variables for several control settings and both managers, longer histories with many growths; all short sequences of special members over three objects',
     'Tests create a few variables; the order in which locations are returned and requested decides which blocks exist, when the store grows and what consolidation finds.',
     [S + 'storemanager.cpp', I + 'storemanager.h', S + 'valuetape/globaltapevarscl.cpp', I + 'valuetape/valuetape.h', I + 'adtb_types.h'],
     [('StoreManagerLocintBlock: next_loc, free_loc, ensure_block, grow, consolidateBlocks', S + 'storemanager.cpp'), ('tape_location special members', I + 'adtb_types.h'), ('GlobalTapeVarsCL::reallocStore', S + 'valuetape/globaltapevarscl.cpp')],
     technique='constant propagation of the managers over all reachable manager states up to a bound; ownership typestate over sequences of special members',
     note='Bounded in live variables and states; moving a whole tape (ValueTape move constructor) and ADOLC_TRACK_ACTIVITY builds are outside.')
prop('C18', 'The return code of a sweep tells how branches compare with those at taping',
     'Whatever the operand values were at taping and are now, and whatever the code is so far: a comparison with another outcome than at taping ends the forward sweep with a negative code and no further record is evaluated; at the tie of a comparison that still holds the code is at most 0; fabs, fmin and fmax at the kink give at most 1; another branch of fabs, fmin, fmax, ceil, floor, condassign or condeqassign than at taping (taken then and not now, or the reverse) gives at most 2, in reverse sweeps where the adjoint of the result does not vanish; every other operation, and every sweep that sees no values, leaves the code alone. Codes are only ever lowered, start as 3, and the code is what the sweep returns.',
     ['inputs', 'programs'], 'all branch records of all recorders with all aliases, every sign region of the operands at taping and at evaluation, every code so far, all sweeps',
     'A code is the product of two points and of everything the sweep met before; tests evaluate a few points and mostly ignore the code.',
     [S + 'uni5_for.cpp', S + 'fo_rev.cpp', S + 'ho_rev.cpp', S + 'adouble.cpp', S + 'advector.cpp'],
     [('ret_c, MINDEC in the comparison, abs_val, min_op, ceil_op, floor_op and cond_* sections', S + 'uni5_for.cpp'), ('the same sections in reverse', S + 'fo_rev.cpp'), ('the same sections in reverse', S + 'ho_rev.cpp')],
     technique='value numbering of the sections over two points (taping and evaluation), codes compared with the documented meaning region by region',
     note='At a tie at taping either code is accepted; abs in abs-normal sweeps has no switch by definition; codes of external functions are with the external function drivers.')

prop('C19', 'Threads work on tapes and variables of their own without sharing state',
     'For every set of threads that each record and evaluate tapes, or compute with traceless variables, of their own, and every interleaving: no object with static storage in the library is changed by one thread and seen by another, except settings documented to hold for the whole process (number of directions, degree and mode of the traceless types), which only their setters change. Tape numbers, the current tape, the nesting of recordings, work arrays of the drivers, the state of tape_doc, of revolve and of fixpoint iterations belong to the thread, files of tapes have names that differ between threads, and no library function with hidden static state is called.',
     ['schedules', 'programs'], 'all interleavings of all threads, by the absence of shared mutable objects',
     'A data race needs two threads in the same driver at the same moment; tests run the drivers in one thread.',
     [I + 'tape_interface.h', S + 'interfaces.cpp', S + 'drivers/taylor.cpp', S + 'valuetape/persistanttapeinfos.cpp', S + 'tapedoc/tapedoc.cpp', S + 'fixpoint.cpp', I + 'revolve.h', I + 'adtl.h'],
     [('tapeBuffer, currentTapePtr, currentTapeStack', I + 'tape_interface.h'), ('createFileName, getThreadIndex', S + 'valuetape/persistanttapeinfos.cpp'), ('work arrays of the drivers', S + 'drivers/taylor.cpp')],
     technique='effect analysis: classification of every object with static storage by the uses of it in the whole program; flow of the thread index into file names; banned calls',
     note='Objects handed from thread to thread by the user are outside; uses through references given away are undecided. The output file of tape_doc has its documented name. MPI sources are not compiled.')
prop('C20', 'The counts of a tape describe it, and every sweep refuses counts that do not fit',
     'For every recording function, the counters of independents, dependents and (in recordings without min and max) switches advance by exactly what it puts on the tape. After trace_off the statistics are the counts of this recording - independents, dependents, switches and fused updates exactly, locations and operations not less than there are - whatever was recorded, kept or evaluated on the tape before, and no sweep changes them. Every sweep ends with an error before it evaluates anything if, and only if, the numbers of dependents, independents or (abs-normal sweeps that take it) switches given to it are not those of the tape, an abs-normal sweep is asked of a tape recorded with min and max, or a reverse sweep finds no Taylor stack, one of another degree or one of other counts.',
     ['inputs', 'programs', 'histories'], 'all recording functions; histories of recordings with and without keep and of keeping sweeps; all sweeps with all combinations of the counts of caller, tape and Taylor stack on either side of every comparison',
     'Sweeps size their workspaces by these counts; tests always pass the right ones and mostly record each tape once.',
     [S + 'adouble.cpp', S + 'advector.cpp', V_ + 'valuetape.cpp', S + 'uni5_for.cpp', S + 'fo_rev.cpp', S + 'ho_rev.cpp', S + 'tapedoc/tapedoc.cpp'],
     [('increment_numInds, increment_numDeps, increment_numSwitches', S + 'adouble.cpp'), ('stop_trace, start_trace, taylor_begin, taylor_close, initNewTape', V_ + 'valuetape.cpp'), ('checks after init_sweep', S + 'uni5_for.cpp')],
     technique='effect counting over the recorders, abstract interpretation of the closing of a tape, exhaustive evaluation of the refusal conditions of every sweep',
     note='The tape stays open after a refused sweep (the error is fatal by design); statistics read back from files of another process are outside.')
prop('C21', 'External functions: every callback gets its own call and its results stay there',
     'For every tape with calls of external functions (plain, with integers, with several groups of variables), the function recorded is called once per call, in order while recording and in forward sweeps and in reverse order in reverse sweeps, by the callback of the mode of the sweep, with the values, directions and adjoints of the variables of its own call, its integers, shape, context and tape. What it yields is in the variables of its call and nowhere else; the adjoints of the results are consumed; previous values are stored by recorder and keeping sweeps alike and restored exactly. The least code of the callbacks is returned, blocks are released. The objects of class EDFobject, EDFobject_iArr and EDFobject_v2 run their own methods with the arguments given.',
     ['inputs', 'programs', 'histories'], 'recorders and the five first order sweeps; several calls of the same and of different functions with overlapping groups of variables, shapes, integer arrays, both settings of dp_x_changes and dp_y_priorRequired, memory of the user and of the library',
     'Tests call one external function once and check the gradient at one point.',
     [S + 'externfcts.cpp', S + 'externfcts2.cpp', S + 'uni5_for.cpp', S + 'fo_rev.cpp', VH + 'valuetape.h'],
     [('call_ext_fct', S + 'externfcts.cpp'), ('call_ext_fct', S + 'externfcts2.cpp'), ('sections ext_diff, ext_diff_iArr, ext_diff_v2', S + 'uni5_for.cpp'), ('sections ext_diff, ext_diff_iArr, ext_diff_v2', S + 'fo_rev.cpp')],
     technique='abstract interpretation of recorders and sweeps over tapes of formal external calls (callbacks formal, terms exact)',
     note='Shapes of up to three groups and three calls; higher order sweeps have no external functions.')
prop('C22', 'Checkpointing: a checkpointed loop has the derivatives of the plain one',
     'For every number of steps and checkpoints, recording a checkpointed part and each forward sweep give the values and tangents of all steps in order, and each reverse sweep runs the adjoints of all steps in reverse order, every one at the state (and with the other data saved by the callbacks) of its own step, whether the step is retaped always, or when it branches, or not at all. Never more snapshots are alive than checkpoints; snapshots are taken, restored and released consistently, also over repeated evaluations, forward sweeps without reverse sweeps and interleaved parts; no more plain steps are evaluated than the least number that suffices with so many snapshots; the tape recorded outside is not disturbed.',
     ['inputs', 'programs', 'histories'], 'numbers of steps and checkpoints, retaping or branching steps, scalar and vector reverse sweeps after recording or after a forward sweep, two parts on one tape, repeated evaluation',
     'The tests run one schedule; the state machine of revolve has another history for each pair of steps and checkpoints.',
     [S + 'checkpointing.cpp', S + 'revolve.cpp'],
     [('Context::checkpointing, initExternalDiffFunction', S + 'checkpointing.cpp'), ('revolve', S + 'revolve.cpp')],
     technique='abstract interpretation of checkpointing and revolve over histories; steps, callbacks and inner sweeps formal, schedules followed exactly',
     note='Bounds: all pairs up to eight steps and four checkpoints, up to 20 steps with two to six checkpoints, single schedules up to 50 steps; inner sweeps are replaced by their contracts (C02 to C05).')
prop('C23', 'Fixed-point iterations: values, tangents and adjoints of the fixed point',
     'For every fixed-point iteration on a tape, recording and forward sweeps iterate the step from the given start with the given parameters until the norm of the last change is below the bound (forward sweeps of first order: with the tangents, until both norms are), yield the last iterate (and its tangent) and report a failure to converge within the largest number of iterations; reverse sweeps iterate the adjoint equation at the fixed point evaluated last (while recording or in a keeping sweep), add the result to the adjoints of the parameters and leave the adjoint of the start alone. Every iteration uses its own step, norms, bounds, limits and tape of the step whatever other iterations there are on this or other tapes; the step is recorded once, at the fixed point, on its own tape, and the current tape is the one it was.',
     ['inputs', 'programs', 'histories'], 'numbers of unknowns, parameters and iterations (values, tangents and adjoints converge at different iterations, or not within the limits), histories of several iterations on one and on two tapes, recorded again, evaluated at several points',
     'The test runs one iteration at the point of its recording.',
     [S + 'fixpoint.cpp'], [('fp_iteration, iteration', S + 'fixpoint.cpp'), ('fp_zos_forward, fp_fos_forward, fp_fos_reverse', S + 'fixpoint.cpp')],
     technique='abstract interpretation of recording and sweeps of fixed-point iterations; step, norms and sweeps over the step formal',
     note='That an iteration converges is a property of the step of the user; sweeps over the step are replaced by their contracts (C02 to C05). Iterations that share a tape for the step are outside.')
prop('C24', 'Traceless variables of higher order carry exact Taylor coefficients',
     'For every overloaded operator and function of the higher order traceless class adtl_hov::adouble that does not announce that it is not implemented, with any of the operands being the same object, the value of the result is the value of the named function, its first derivatives are that function\'s derivative applied to the operand tangents, its Taylor coefficients in every direction and up to the degree set are those of the function along the curves the operand coefficients describe, and its index pattern contains every index an operand with non-vanishing influence carries and no index that no operand carries. Operands that are not results stay unchanged. Functions without rules for coefficients (inverse trigonometric and hyperbolic functions, tan, tanh, log10, cbrt, ceil, floor, fmin, fmax, a variable raised to a variable) end the program or throw at every operand instead of returning. Accessors deliver and set exactly the value, direction or row of coefficients asked for and reject directions that do not exist.',
     ['inputs', 'programs'], 'all operand values, tangents, coefficients and index patterns of every overload in every pattern of identical operands; two directions, coefficients of degree one to five',
     'No test of the suite covers a degree above one; the coefficients of degree k enter those of every higher degree through sums whose terms appear one by one with the degree.',
     [I + 'adtl_hov.h', S + 'adouble_tl_hov.cpp'], [('recursions over ho_deriv', I + 'adtl_hov.h'), ('add_to_pattern', I + 'adtl_hov.h')],
     technique='value numbering of the overload bodies; coefficients compared with the Taylor expansion of the named function derived symbolically',
     note='Exact real arithmetic; arguments of logarithms, roots and powers are positive, divisors not zero; ties are left out. Degrees up to five (coefficient loops are followed exactly), two directions.')
prop('C90', 'Rounding: computed derivatives are as accurate as the arithmetic allows',
     'For every recorded program and every point, function values equal those of the program run with doubles bit for bit, and derivatives differ from the exact ones by no more than the rounding errors of a backward stable evaluation of the same elementary operations.',
     ['inputs', 'programs'], 'all programs and points, IEEE double arithmetic with the mathematical library of the platform',
     'Rounding errors depend on the operands of every operation.',
     [S + 'uni5_for.cpp', S + 'fo_rev.cpp', S + 'ho_rev.cpp'], [('case sections', S + 'uni5_for.cpp')],
     na='Error bounds are quantities of a run: they depend on magnitudes no static argument over arbitrary tapes bounds, and on the accuracy of libm. The claimed properties decide the same formulas over the reals.')
prop('C91', 'Complexity: the cost of a sweep is a small multiple of the cost of the function',
     'For every recorded program, a gradient by reverse mode costs at most a small constant times the function (cheap gradient principle), memory of a forward sweep is proportional to the largest number of live variables, and that of a kept tape to the number of operations.',
     ['inputs', 'programs'], 'all programs; time and memory of all sweeps',
     'Cost is asymptotic; tests run small tapes.',
     [S + 'uni5_for.cpp', S + 'fo_rev.cpp'], [('case sections', S + 'fo_rev.cpp')],
     na='Run time is a quantity of the execution; a static count of operations per record would restate the source without an oracle for what is allowed.')
prop('C92', 'Recorded programs have the control flow of the point of evaluation',
     'A tape used at a point at which the user program would take another path is always recognised as such by a return code.',
     ['inputs', 'programs'], 'all user programs',
     'The user program is not part of the library.',
     [S + 'adouble.cpp', S + 'uni5_for.cpp'], [('comparison operators', S + 'adouble.cpp')],
     na='Whether the user program branches on adoubles (recorded) or on plain doubles taken from them (invisible) is a fact about code outside the repository; the part inside it is decided by C18.')
