LFVM = 'go/interpreter/lfvm/'
EZ = 'cpp/vm/evmzero/'
RS = 'rust/src/'
TECH = 'bounded-exhaustive model checking: enumeration of all executions of a reference EVM state machine over a finite alphabet, each replayed on every real interpreter'
NOTE = ('Every state/program of the stated finite space is executed; the deciding oracle is an independent reference EVM transition system (go/ref), and every model trace is replayed on the real '
        'LFVM (plain and with super instructions), evmzero and evmrs (default and five feature combinations) built from /repo. Assumes third-party stand-ins (evmc bindings, intx, ethash, uint256, bnum, '
        'lru) behave as the originals; says nothing about values outside the alphabet.')
NOTES = ('All checks build the code under test from /repo via ./build.sh; third-party dependencies that are not installed are replaced by minimal stand-ins in /verif/shim. '
         'Checks are deterministic; ./check.sh <id> thorough raises the bounds.')
WHY = 'Unit tests sample a few operand values, gas amounts and revisions per instruction and implementation; this must hold for every input, at every gas amount and in every revision, on all interpreters alike. '
IFILES = [LFVM + 'instructions.go', LFVM + 'interpreter.go', EZ + 'interpreter.cc', RS + 'interpreter.rs']

FL = 'go/processor/floria/'
PTECH = 'bounded-exhaustive model checking: enumeration of all transactions and call trees of a finite space on a reference processor, each replayed on the real processor with a scripted interpreter'
PNOTE = ('The oracle is an independent processor model (go/proc/model.go) on an in-memory world state; every model execution is replayed on the real floria processor built from /repo, with an interpreter that '
         'plays enumerated scripts, records all it sees and checks the world for leftovers of failed calls. Third-party code (geth precompiles, hashing) is replaced by stand-ins.')
CTECH = 'stateless model checking: exhaustive enumeration of the operation histories and of all thread schedules up to a preemption bound, executing the real code under a controlled scheduler'
def prop(id, title, statement, over, quant, why, files, mech, observe, note='', technique=TECH, note0=NOTE, **kw):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=(note + ' ' + note0).strip(), technique=technique, **kw)

PROPS = [
 prop('P01', 'Arithmetic, comparison, bitwise and hash instructions compute EVM results',
  'For all operands, every arithmetic, comparison, bitwise, shift and hashing instruction produces the result the EVM defines, and consumes exactly its defined gas, on every interpreter and in every revision. This includes the corner cases: division and modulo by zero, signed overflow, modular arithmetic without intermediate overflow, exponentiation, sign extension and shifts by any amount, and Keccak hashing of memory ranges of any length.',
  ['inputs', 'programs', 'configurations'], 'all tuples over alphabets of 15-62 corner words per operand for every unary, binary and ternary operation; all hash input lengths around block boundaries; all interpreters and revisions',
  WHY + 'Each implementation tests a handful of operand tuples.',
  [LFVM + 'instructions.go', EZ + 'interpreter.cc', EZ + 'uint256.h', RS + 'types/amount.rs', RS + 'interpreter.rs', LFVM + 'hash_cache.go', LFVM + 'keccak.go'],
  [('lfvm arithmetic instructions', LFVM + 'instructions.go'), ('evmzero operator implementations', EZ + 'interpreter.cc'), ('evmrs u256 type', RS + 'types/amount.rs')],
  ['result of executing a program that returns the computed word and the gas left']),
 prop('P02', 'Stack manipulation and stack bounds follow the EVM',
  'At every stack height from 0 to 1024, every instruction either has its defined effect on exactly the stack elements it is defined to touch, or the execution fails because the stack would underflow or exceed 1024 elements. PUSH instructions push exactly the bytes following them (zero padded at the end of the code), and DUP and SWAP reach exactly the positions they name.',
  ['inputs', 'programs', 'configurations'], 'every opcode at every boundary stack height, every PUSH with every truncation length, all DUP/SWAP pairs and all short stack programs',
  WHY, IFILES + [LFVM + 'stack.go', EZ + 'stack.h', RS + 'types/stack.rs'],
  [('stack bounds table', LFVM + 'stack_usage.go'), ('evmzero stack checks', EZ + 'interpreter.cc'), ('evmrs stack', RS + 'types/stack.rs')], ['returned stack contents, success/failure, gas left']),
 prop('P03', 'Control flow reaches exactly the positions the program defines',
  'For every program, jumps succeed exactly when their target is a JUMPDEST instruction that is not push data, execution continues at that instruction, and PC, GAS, code end, STOP and undefined instructions behave as the EVM defines at every code position. Code conversion, padding, super instructions and code analysis caching never change the outcome or gas of any program.',
  ['programs', 'inputs', 'configurations'], 'all programs over a 14-symbol control-flow alphabet up to the depth bound, all jump targets incl. targets of 2^16/2^32/2^64 and more, all push-data patterns around block boundaries, programs around the 24576 and 65536 byte limits',
  WHY + 'Jump analysis and code conversion must be right for every byte string.',
  [LFVM + 'converter.go', LFVM + 'interpreter.go', LFVM + 'super_instructions.go', EZ + 'interpreter.cc', RS + 'types/code_analysis.rs', RS + 'types/code_reader.rs'],
  [('lfvm code conversion', LFVM + 'converter.go'), ('evmzero jump destination analysis', EZ + 'interpreter.cc'), ('evmrs code analysis', RS + 'types/code_analysis.rs')], ['outcome, output and gas left of complete programs']),
 prop('P04', 'Memory contents, bounds, copies and expansion costs follow the EVM',
  'Every memory reading, writing, copying and hashing instruction and every return and revert accesses exactly the bytes of the given range, zero fills unwritten memory and out-of-range sources, expands memory in whole words and charges the quadratic expansion cost exactly once. Ranges that cannot be paid for or exceed the addressable size fail the execution, and zero-length ranges neither expand memory nor cost expansion gas.',
  ['inputs', 'programs', 'configurations'], 'all offset/length/source combinations over boundary alphabets up to 2^256-1, all pairs of memory operations, all overlapping MCOPY ranges, return data of every length',
  WHY, [LFVM + 'memory.go', LFVM + 'instructions.go', EZ + 'memory.h', EZ + 'memory.cc', EZ + 'interpreter.cc', RS + 'types/memory.rs', 'go/interpreter/evmc/evmc_interpreter.go'],
  [('lfvm memory', LFVM + 'memory.go'), ('evmzero memory', EZ + 'memory.cc'), ('evmrs memory', RS + 'types/memory.rs')], ['memory dumped as output, MSIZE, gas left']),
 prop('P05', 'Gas is charged exactly as defined, and shortage fails the execution',
  'For every instruction, revision, operand combination and amount of gas, the gas charged (static, dynamic, memory, access list, call stipend and 63/64 rule) is exactly the defined one. Execution with one unit less than required fails, consumes all gas and leaves no effects; with exactly the required gas it succeeds, and the gas left and gas refund reported are exact.',
  ['inputs', 'programs', 'configurations'], 'every instruction with all operand combinations over cost-relevant alphabets, in all revisions, executed at every gas amount at which any charge may fail (t-1 and t for each charge)',
  WHY, [LFVM + 'gas.go', LFVM + 'instructions.go', EZ + 'interpreter.cc', RS + 'utils/mod.rs', RS + 'interpreter.rs', 'go/interpreter/evmc/evmc_interpreter.go'],
  [('lfvm static gas tables', LFVM + 'gas.go'), ('evmzero gas', EZ + 'interpreter.cc'), ('evmrs gas', RS + 'utils/mod.rs')], ['gas left, refund, status for each gas limit']),
 prop('P06', 'Storage costs, refunds and effects follow the storage history',
  'For every sequence of persistent and transient storage reads and writes, the values read and written, the gas charged, the refunds granted or revoked and the warm/cold accounting are those defined for the original, current and new value of the slot and the revision. Writes with no more than 2300 gas left fail, and writes in static mode fail without effect.',
  ['histories', 'inputs', 'configurations'], 'all (original, current, new) value classes x warm/cold x revision x gas amounts, and all sequences of SLOAD/SSTORE/TLOAD/TSTORE up to the depth bound on two slots',
  WHY + 'Refund accounting depends on the complete write history of a slot.', [LFVM + 'instructions.go', LFVM + 'gas.go', EZ + 'interpreter.cc', RS + 'interpreter.rs', 'go/tosca/world_state.go'],
  [('storage status classification', 'go/tosca/interpreter.go'), ('lfvm SSTORE', LFVM + 'instructions.go'), ('evmzero SSTORE', EZ + 'interpreter.cc'), ('evmrs SSTORE', RS + 'interpreter.rs')], ['storage effects at the host interface, gas left, refund']),
 prop('P07', 'Calls and creations hand over exactly the specified context and results',
  'For every call and create instruction, the kind, recipient, sender, code address, value, gas, salt, static flag and input handed to the environment are exactly the ones defined, and the returned status, output, gas, refund, created address and return data are delivered to the caller exactly once and intact. Calls exceeding the depth limit or balance fail without reaching the callee and return the gas.',
  ['histories', 'inputs', 'fault_sequences', 'configurations'], 'all call kinds x operand alphabets x environment answers (success, failure, revert, output lengths, gas left, refund), and all pairs of consecutive calls followed by return data accesses',
  WHY, [LFVM + 'instructions.go', EZ + 'interpreter.cc', RS + 'interpreter.rs', 'go/interpreter/evmc/evmc_interpreter.go'],
  [('lfvm calls', LFVM + 'instructions.go'), ('evmc host adapter', 'go/interpreter/evmc/evmc_interpreter.go'), ('evmrs call', RS + 'interpreter.rs')], ['call parameters seen by the host, memory and return data seen by the caller']),
 prop('P08', 'Static executions never modify state',
  'In static mode no sequence of instructions leads to a state modification: storage and transient storage writes, logs, creations, self destructs and value-bearing calls fail the execution before any effect reaches the environment, and nested calls inherit static mode.',
  ['programs', 'configurations', 'inputs'], 'every instruction with sample operands, and all pairs and triples of instructions, in static mode in all revisions on all interpreters',
  WHY, IFILES, [('lfvm static checks', LFVM + 'instructions.go'), ('evmzero static checks', EZ + 'interpreter.cc'), ('evmrs static checks', RS + 'interpreter.rs')], ['number of mutating host calls, outcome']),
 prop('P09', 'Instructions are available exactly from their introducing revision on',
  'Every opcode byte is executable exactly in the revisions that define it and fails the execution in all others, at any position of a program, on every interpreter; revisions newer than the newest supported one are rejected with an error instead of being executed with wrong rules.',
  ['configurations', 'programs'], 'all 256 opcode bytes x all revisions x several code positions and neighbours; unsupported revision numbers on every interpreter',
  WHY, IFILES + ['go/interpreter/evmc/evmc_interpreter.go', EZ + 'opcodes.h', RS + 'types/opcode.rs'], [('revision checks', LFVM + 'interpreter.go'), ('adapter revision mapping', 'go/interpreter/evmc/evmc_interpreter.go')], ['outcome per opcode and revision']),
 prop('P10', 'Environment instructions report exactly the provided context',
  'Every instruction reading the environment (addresses, balances, code sizes, hashes and contents, call data, block and transaction parameters, block and blob hashes) delivers exactly the value the environment provides, also for non-existing accounts, out-of-range offsets and block numbers, and extreme values of every parameter, with the warm/cold accounting of the revision.',
  ['inputs', 'configurations', 'programs'], 'all environment instructions x boundary values of every context field x revisions x account classes',
  WHY, IFILES + ['go/interpreter/evmc/evmc_interpreter.go', 'go/interpreter/evmc/evmc_interpreter.go'], [('parameter conversion', 'go/interpreter/evmc/evmc_interpreter.go'), ('host callbacks', 'go/interpreter/evmc/evmc_interpreter.go')], ['returned words, gas left']),
 prop('P11', 'Logs and self destructs reach the environment exactly once and intact',
  'Every executed LOG instruction emits exactly one log with the defined address, topics in order and data bytes, and every executed SELFDESTRUCT is reported once with its account and beneficiary with the cost and refund of the revision, ending the execution; failed instructions emit nothing.',
  ['inputs', 'programs', 'configurations'], 'all LOG kinds x topic and range alphabets x gas amounts; SELFDESTRUCT x beneficiary classes x balances x repeated destruction x revisions x gas amounts',
  WHY, IFILES + ['go/interpreter/evmc/evmc_interpreter.go'], [('log emission', LFVM + 'instructions.go'), ('host callbacks', 'go/interpreter/evmc/evmc_interpreter.go')], ['logs and self destruct calls at the host interface']),
 prop('P12', 'Stepping through a program equals running it, from every state',
  'From every machine state the conformance interface can express, a single step yields exactly the state after one instruction, and a request for N steps yields the state after those instructions, no matter how an execution is split into steps; states that have ended are left alone. Program counter, gas, refund, stack, memory, return data, storage, warm sets, logs, calls and self destructs are carried over completely in both directions.',
  ['programs', 'histories', 'configurations', 'inputs'], 'single steps of every opcode from about 450,000 enumerated states (operands x revisions x static mode x warm/cold x stack heights x every critical gas amount), and every split of the executions of all programs of two (thorough: three) instruction pieces',
  'The unit tests step through a few hand-written programs on one state each; agreement of every split of every execution is a statement about all states and histories.',
  ['go/ct/evm.go', LFVM + 'ct.go', EZ + 'evmzero.cc', 'go/interpreter/evmzero/ct.go', 'go/interpreter/evmrs/ct.go', 'go/interpreter/evmc/evmc_steppable_interpreter.go', 'go/ct/utils/adapter.go', RS + 'evmc.rs'],
  [('pc mapping and state conversion', LFVM + 'ct.go'), ('steppable adapter', 'go/interpreter/evmc/evmc_steppable_interpreter.go'), ('world state adapter', 'go/ct/utils/adapter.go')], ['conformance testing states before and after'],
  note='An implementation may spend a step of a longer request on internal padding in front of a jump destination; single steps are exact.'),
 prop('P26', 'The conformance specification describes exactly the EVM',
  'For every machine state, every rule of the conformance specification that applies predicts exactly the outcome the EVM defines, and at least one rule applies to every state whose next instruction completes normally or only lacks gas. Looking up the rules for a state finds every rule whose condition holds, and evaluating rules never modifies the state they are evaluated on.',
  ['inputs', 'configurations', 'programs'], 'all rules on about 1.2 million enumerated states of all opcodes, revisions, static mode, warm/cold, storage histories, stack heights and critical gas amounts',
  'The specification is the oracle of the conformance tests; nothing checks the oracle itself against an independent definition, and errors only show on states nobody sampled.',
  ['go/ct/spc/specification.go', 'go/ct/spc/specification_map.go', 'go/ct/rlz/conditions.go', 'go/ct/st/state.go'],
  [('rules', 'go/ct/spc/specification.go'), ('rule lookup', 'go/ct/spc'), ('conditions', 'go/ct/rlz')], ['rule effects applied to states'],
  technique='bounded-exhaustive model checking: every enumerated machine state is stepped by the reference EVM and by every applicable specification rule, and compared',
  note='A shortage of gas at a conditional jump with an invalid target is left open by the specification and not required.'),
 prop('P19', 'Transactions are validated, charged and settled exactly',
  'For every transaction and world state, a transaction with a wrong or exhausted nonce, a contract as sender, a too large init code (from Shanghai on) or a sender unable to pay its gas is rejected without any effect. Every other transaction costs exactly the gas it used times its price: at least the intrinsic gas of its kind, input and access list, plus what its execution consumed and a tenth of the remaining gas for external senders, minus refunds capped by the revision; failures consume the whole limit, reverts return the rest. The receipt reports exactly what happened.',
  ['inputs', 'configurations'], 'all combinations of nonces, sender accounts, prices, balances and limits around every boundary up to 2^256; all inputs and access lists of small alphabets at gas limits around the intrinsic gas; all limits x gas uses x refunds around the caps x outcomes x revisions',
  'Unit tests have a handful of transactions; boundaries of combined 64 and 256 bit arithmetic and of all outcome, refund and revision combinations are not reachable by examples.',
  [FL + 'processor.go', 'go/tosca/processor.go', 'go/tosca/types.go'], [('validation, gas purchase and settlement', FL + 'processor.go'), ('value arithmetic', 'go/tosca/types.go')], ['receipt and complete world state after the transaction'], technique=PTECH, note0=PNOTE),
 prop('P20', 'Failed calls leave no trace and tokens are conserved',
  'For every tree of calls and creations within a transaction, with every combination of outcomes, exactly the effects of the calls whose whole chain of callers succeeded are in the final state: balances, nonces, codes, storage, transient storage, logs and destructions of every failed or reverted call or creation are undone completely, including failures of precompiled and state contracts, of value transfers and of code deployments. No execution creates or destroys tokens: the sum of all balances only decreases by the fee of the transaction.',
  ['histories', 'fault_sequences', 'configurations'], 'all call trees of up to three nested and two consecutive calls: 6 call kinds x target classes (contract, self, account, non-existing, precompiled, failing precompiled, state contract) x values x gas x outcomes (success, revert, failure, interpreter error, deployment failures) x revisions',
  'Atomicity is a statement about all call trees and all combinations of outcomes.',
  [FL + 'run_context.go', FL + 'processor.go', FL + 'state_contract.go', FL + 'precompiled.go'], [('snapshots and value transfers', FL + 'run_context.go')], ['complete world state after every nested call and after the transaction'], technique=PTECH, note0=PNOTE),
 prop('P21', 'Call frames are set up and completed as the EVM defines',
  'For every nested call and creation, the executed code, recipient, sender, value, input, gas, depth and static flag given to the interpreter are the ones defined for the kind of the call; static mode is inherited by all frames below; nothing is executed beyond a depth of 1024; calls that can not be made return their gas. Creations use the address defined by sender, nonce, salt and init code, consume a nonce even if they fail or collide, never overwrite an existing contract, warm the new address from Berlin on, and deploy the returned code exactly if its size, first byte and deposit costs permit.',
  ['histories', 'fault_sequences', 'configurations'], 'all call trees as in P20, comparing every frame; recursions of each kind to the depth limit; code deposits of all lengths, first bytes and gas amounts around all boundaries',
  'The parameters of a frame depend on the whole chain of calls above it.',
  [FL + 'run_context.go', FL + 'processor.go'], [('frame setup', FL + 'run_context.go')], ['parameters of every interpreter invocation, result of every nested call, final state, receipt'], technique=PTECH, note0=PNOTE),
 prop('P22', 'Precompiled contracts are available and charged as defined',
  'For every address, revision, kind of call, input length and gas amount, a call executes a precompiled contract exactly if the revision defines one at the called code address; it costs exactly the defined gas, too little gas or invalid input fails the call and consumes all its gas, and the output is delivered to the caller. Precompiled contracts are executed for delegated and code calls in the same way, take precedence over accounts at their address, and no other address behaves like one.',
  ['inputs', 'configurations'], 'all addresses 0 to 18 and all addresses differing from a precompiled one in a byte x revisions x call kinds and direct transactions x input lengths around all boundaries x gas amounts one below, at and above each defined cost',
  'The tests use one input and gas amount per contract.',
  [FL + 'precompiled.go', FL + 'run_context.go', FL + 'processor.go'], [('precompiled contracts', FL + 'precompiled.go')], ['result of the call, final state'], technique=PTECH, note0=PNOTE + ' The cryptography of the contracts is a stand-in.'),
 prop('P23', 'The state contract changes state only for the driver and exactly as asked',
  'Calls of the network state contract take effect only if made by the driver contract, as a plain call outside of static mode, with a known method, a complete argument list and enough gas; then exactly the requested balance, code, storage or nonce changes, for exactly the defined gas. Everything else fails without any effect and consumes the gas of the call. The driver can neither change its own balance nor its own nonce with it, and nonces are only raised by 1 to 255.',
  ['inputs', 'configurations', 'histories'], 'all methods x account pairs x argument words including values beyond 64 bits x argument lengths x gas around all costs x call kinds x static mode x senders x outcomes of the calling frame',
  'A contract able to change every account must reject every call but the intended ones.',
  [FL + 'state_contract.go', FL + 'run_context.go'], [('state contract', FL + 'state_contract.go')], ['result of the call, complete world state'], technique=PTECH, note0=PNOTE),
 prop('P24', 'Transactions on real interpreters end in the state the EVM defines',
  'For every transaction executing real bytecode, the transaction processor together with each interpreter ends in exactly the balances, nonces, codes, storage, transient storage and logs, and reports exactly the outcome, output, gas used and created contract that the EVM defines, including nested calls, creations, self destructs, refunds (none for reverted or failed frames), failures and gas shortages at any depth. All interpreters produce the same result.',
  ['programs', 'inputs', 'configurations'], 'all pairs of contracts built from alphabets of code pieces (storage, transient storage, logs, all call and create kinds to the other contract, itself, precompiled contracts and accounts, self destruct) with all endings, all single pieces at every gas limit at which a charge may fail, direct creations, all revisions',
  'Processor and interpreters are only tested against mocks of each other; gas, refund and rollback must agree across both.',
  [FL + 'processor.go', FL + 'run_context.go', LFVM + 'instructions.go', EZ + 'interpreter.cc', RS + 'interpreter.rs', 'go/interpreter/evmc/evmc_interpreter.go'],
  [('transaction processing', FL + 'processor.go'), ('nested calls', FL + 'run_context.go'), ('host adapter', 'go/interpreter/evmc/evmc_interpreter.go')], ['receipt and complete world state after the transaction'],
  technique='bounded-exhaustive model checking: every transaction of a finite space is executed by a reference processor with a reference EVM, and replayed on the real processor with every real interpreter', note0=PNOTE.replace(', with an interpreter that plays enumerated scripts, records all it sees and checks the world for leftovers of failed calls', ' running lfvm, evmzero and evmrs')),
 prop('P13', 'Executions do not depend on the history of the instance',
  'Every execution on an interpreter instance yields the result, output, gas, refund and effects of the same execution on a fresh instance, whatever was executed on the instance before, in whatever order: neither cached code, jump analyses and hashes nor pooled stacks, memories and return data carry anything from one execution into another, for any fill level of the caches. Inputs are never modified and outputs remain valid after later executions.',
  ['histories', 'inputs', 'configurations'], 'all histories of two to four executions over alphabets of 24-27 programs (equal and different code, hashes, revisions, static modes, failures, nested executions on the same instance); all lookup histories of small caches and converters; evictions of the real caches with clashing keys',
  'Unit tests run most programs on a fresh instance; no test reaches the capacity of a cache.',
  [LFVM + 'converter.go', LFVM + 'hash_cache.go', LFVM + 'interpreter.go', LFVM + 'memory.go', LFVM + 'stack.go', EZ + 'evmzero.cc', EZ + 'sha3_cache.h', EZ + 'stack.h', 'cpp/common/lru_cache.h', RS + 'interpreter.rs', RS + 'types/code_analysis.rs', RS + 'types/hash_cache.rs'],
  [('lfvm converter', LFVM + 'converter.go'), ('lfvm hash cache', LFVM + 'hash_cache.go'), ('evmzero analysis and hash caches', EZ + 'evmzero.cc')],
  ['result of every execution of the history, retained outputs, input buffers'],
  technique='stateless model checking: exhaustive enumeration of all bounded histories of executions on one instance of the real implementation, compared with a fresh instance and a reference EVM',
  note0='The oracle is the reference EVM (and a fresh instance of the same implementation). Small cache capacities are explored through the public converter of lfvm and an overlay giving access to its hash cache; the caches of evmzero and evmrs are driven beyond their real capacities.'),
 prop('P14', 'Diagnostic configurations report exactly what is executed and change nothing',
  'Logging configurations write, for every execution, one line per executed instruction (jumps may include the jump destination reached, fused instructions are one), in the order of execution including nested executions, with the name of the instruction, the gas left before it and the top of the stack. Instruction statistics and profiles count exactly the executed instructions (sequences, runs) since their last reset. None of these configurations changes the result, gas, refund or effects of any execution, and no other configuration writes anything.',
  ['programs', 'inputs', 'configurations'], 'all programs of up to two (thorough: three) of 49 instruction groups, with empty and filled stack, in two revisions, at every gas amount making a difference; all diagnostic configurations of all interpreters',
  'Unit tests log and count one or two programs.',
  [LFVM + 'instruction_logger.go', LFVM + 'instruction_statistics.go', LFVM + 'lfvm.go', EZ + 'logger.h', EZ + 'profiler.h', EZ + 'evmzero.cc', 'go/interpreter/evmzero/evmzero.go', RS + 'types/observer.rs', RS + 'interpreter.rs'],
  [('lfvm logging and statistics', LFVM + 'instruction_statistics.go'), ('evmzero logging and profiling', EZ + 'profiler.h'), ('evmrs logging', RS + 'types/observer.rs')],
  ['standard output of the process, DumpProfile, results'],
  note0='The expected trace is the one of the reference EVM; every line logged is aligned with the steps of the model. Padding introduced by the code conversion of lfvm may be logged under its own name; fused instructions are one line; an implicit stop and undefined instructions may be missing; evmzero and evmrs execute the jump destination as part of the jump. The time measured by profiles is not checked. The statistics of lfvm are compared with the (checked) log of the same configuration.'),
 prop('P15', 'Concurrent executions on shared instances do not influence each other',
  'Any number of threads may execute programs and transactions on the same interpreter and processor instances at the same time. Under every schedule, every execution yields exactly the result it yields alone, no execution waits forever, no memory is accessed in a racy way or after it has been released, and afterwards the caches, pools and statistics of the instance are intact.',
  ['schedules', 'programs'], 'all interleavings of the synchronization of two threads (three on small programs) with up to two (three) preemptions; pairs and triples of programs exercising hash caches, code and analysis caches, stack and memory pools, statistics and nested calls; cold and warm caches; same and different codes',
  'A test runs under one schedule per run; lost updates, use after release and torn cache entries show only in specific ones.',
  [LFVM + 'hash_cache.go', LFVM + 'converter.go', LFVM + 'stack.go', LFVM + 'memory.go', LFVM + 'interpreter.go', EZ + 'stack.h', EZ + 'stack.cc', EZ + 'evmzero.cc', EZ + 'interpreter.cc', 'cpp/common/lru_cache.h', FL + 'processor.go'],
  [('hash cache', LFVM + 'hash_cache.go'), ('code cache', LFVM + 'converter.go'), ('stack pool', LFVM + 'stack.go'), ('evmzero stack pool', EZ + 'stack.cc'), ('evmzero caches', EZ + 'evmzero.cc')],
  ['result of every execution, race and lifetime monitors'], technique=CTECH,
  note0='The real lfvm, floria and evmzero from /repo run under a controlled scheduler that enumerates all schedules up to the preemption bound, with a vector-clock (C++) or the Go race detector judging each; the oracle for results is the same execution alone. Scheduling points are the synchronization operations; atomics are sequentially consistent; evmrs is not covered.'),
 prop('P16', 'The LRU cache behaves as a bounded map, for every history and schedule',
  'For every capacity and every history of lookups, insertions, assignments and clearings, the LRU cache returns exactly the latest value stored for a key, or nothing if the key was never stored or has been evicted; it never holds more entries than its capacity, and evicts the least recently used entry. Under concurrent use, every schedule yields the results of some order of the operations, without races, deadlocks or use of released values.',
  ['histories', 'schedules'], 'all histories of up to eight operations on four keys for capacities of two to four, all interleavings of up to three threads with up to three operations each',
  'The tests check seven short histories by a single thread.',
  ['cpp/common/lru_cache.h'], [('cache', 'cpp/common/lru_cache.h')], ['results of the operations, size'], technique=CTECH,
  note0='The real template from /repo is executed on every history, against two reference models (assignment touching or not touching the entry), and under a controlled scheduler with vector-clock race detection and a linearizability check on every schedule. Capacities of at least two.'),
 prop('P17', 'Native interpreters access only memory they own and release all of it',
  'For every code, input, state and answer of the environment, the native interpreters (evmzero and evmrs) read and write only memory that belongs to them or to the buffers handed to them, within their exact bounds and lifetimes; every range they hand to the environment is valid; every result obtained from the environment is released exactly once; and nothing stays allocated once the results of an execution are released. No execution causes undefined behaviour or ends the process.',
  ['inputs', 'programs', 'configurations'], 'every instruction stepped from all states of a grid (stack heights at all boundaries, corner words, memory and buffer sizes), from every position in and beyond codes ending in incomplete instructions; all programs of three (thorough: four) symbols of a 32 symbol alphabet; all combinations of boundary memory ranges, return data lengths and jump positions',
  'Unit tests run in one configuration, mostly without sanitizers and with roomy buffers; an access one byte beyond goes unnoticed.',
  [EZ + 'interpreter.cc', EZ + 'memory.cc', EZ + 'memory.h', EZ + 'stack.h', EZ + 'stack.cc', EZ + 'evmzero.cc', RS + 'types/stack.rs', RS + 'types/memory.rs', RS + 'types/code_reader.rs', RS + 'types/op_fn_data.rs', RS + 'evmc.rs', RS + 'ffi'],
  [('evmzero memory', EZ + 'memory.cc'), ('evmzero push data', EZ + 'interpreter.cc'), ('evmzero step adapter', EZ + 'evmzero.cc'), ('evmrs stack', RS + 'types/stack.rs')], ['monitors for addresses, lifetimes and undefined behaviour'],
  technique='bounded-exhaustive model checking: enumeration of all executions from a finite grid of states and of all short programs on the real code, with memory and undefined behaviour monitors as the property',
  note0='The real evmzero is built with the address and undefined behaviour sanitizers, the real evmrs (performance and inline dispatch, thorough also default features) with the address sanitizer and checked unsafe preconditions. All buffers handed over have exactly the announced size. Not judged: loads of words at odd addresses, and the computation (not access) of addresses of empty ranges, which evmzero does at any offset; reads of uninitialized memory; the tail-call variants of evmrs (they need optimizations the sanitizers disable).'),
 prop('P25', 'Registries of interpreters and processors hand out what was registered',
  'For every history of registrations and lookups and every schedule of concurrent ones, a name (in any case) refers to the first implementation successfully registered under it, forever; repeated and empty (nil) registrations are refused without effect; configurations reach the constructor and its errors reach the caller; listings are complete copies whose modification changes nothing; the built-in configurations are available exactly under their names.',
  ['histories', 'schedules'], 'all histories of three operations over four names in different cases, all ways to register and to look up; all interleavings of up to three threads',
  'The tests register one or two names by a single thread.',
  ['go/tosca/interpreter_registry.go', 'go/tosca/processor_registry.go', LFVM + 'lfvm.go'], [('interpreter registry', 'go/tosca/interpreter_registry.go'), ('processor registry', 'go/tosca/processor_registry.go')], ['results of the registry operations'], technique=CTECH,
  note0='The real registries run under a controlled scheduler enumerating all schedules up to the preemption bound, with the Go race detector as monitor and a linearizability check against a map model; sequential histories are enumerated completely.'),
 prop('P28', 'Generated test states satisfy the conditions they are generated for',
  'For every combination of conditions of the specification language, every state the conformance test generators produce satisfies all of them and is well-formed, whatever the random choices; the evaluation of a condition on a state agrees with its meaning; a combination which cannot be satisfied is reported as such, by that error only; conditions on independent parts of the state never exclude each other on any random path; operations, code and data required at fixed positions are accepted exactly if some code has them there; and clones and restored generators generate under the same conditions as their original and are independent of it.',
  ['inputs', 'configurations'], 'all sequences of up to three requirements (operations, code, data) on fixed code positions; all ways of cloning, restoring and extending generators with pairs of conditions; all combinations of one, two and three of 168 conditions on all parts of the state, and all random choice sequences deviating in one or two (thorough: up to three) of the first 40 (thorough: 120) choices from the default, each with all representative values',
  'The tests sample random seeds; a generator wrong on one path in a thousand lets a conformance run check the wrong thing or abort.',
  ['go/ct/gen', 'go/ct/rlz/conditions.go', 'go/ct/rlz/expressions.go', 'go/ct/rlz/domains.go'],
  [('state generator', 'go/ct/gen/state.go'), ('conditions', 'go/ct/rlz/conditions.go')], ['generated states, results of Check, errors'],
  technique='stateless model checking: systematic exploration of all choice sequences of the real generators up to a deviation bound, with the random source replaced by a controlled one',
  note0='The random number package is replaced by one whose values are chosen by the explorer. The oracle is an independent evaluation of the conditions on states. The generator is documented to be incomplete for storage(Assigned, ., 0); conditions sharing a part of the state need not be satisfiable together.'),
 prop('P29', 'Rules are enumerated, tested and looked up completely and exactly',
  'Enumerating the test cases of a rule produces every combination of the test values of its conditions exactly once, whatever conjunctions they are grouped in, and as many as announced; every combination of generated and sample parameters follows from each case with the rest of the state unchanged; the test values of a condition cover values satisfying and values violating it, and at least one test case satisfies the rule; a consumer can stop the enumeration at any point; parallel enumeration with filters visits exactly the cases of sequential enumeration, whatever the number of jobs; the rules found for a state are exactly those whose condition it satisfies, and those applicable to the same state agree on the effect.',
  ['inputs', 'configurations'], 'all splits of test value families over conjunctions, all abort points, all tuples of parameters, all values at, below and above the boundaries of all vocabulary conditions, all pairs of vocabulary conditions, 64 rule subsets x modes x job counts, all positions and subsets of rules whose generation fails, enumerations long enough to exceed every internal buffer, and all test cases of all 1610 rules of the specification',
  'The tests check a few handmade rules; a dropped combination or a rule not found silently removes coverage from every conformance run.',
  ['go/ct/rlz', 'go/ct/spc', 'go/ct/gen'],
  [('rule enumeration', 'go/ct/rlz/rules.go'), ('specification', 'go/ct/spc/specification.go'), ('parallel enumeration', 'go/ct/spc/enumeration.go')], ['states passed to consumers, rules returned by lookups, counts, errors'],
  technique='explicit-state model checking: complete enumeration by the real enumerator compared to an independent enumeration of the same products, with the random source replaced by a controlled one',
  note0='The random number package is replaced by one whose values are chosen by the explorer. The oracle computes the product of test values itself and evaluates conditions one by one. The position solver for code is documented to be incomplete; conditions on the own address (eq/ne self) have no two-sided test values.'),
 prop('P18', 'Value types compute, convert and print exactly',
  'The 256-bit integers, currency values, addresses, keys, words and hashes used throughout compute modulo 2^256 as defined by the EVM (including division by zero, signed operations, shifts by any amount and sign extension), convert between each other and from and to integers and bytes without loss, and panic on values which do not fit; their text and JSON forms can be read back, equal texts mean equal values, and malformed texts are refused without changing the target; enumerations have unique names read back exactly and unknown names are refused; the status of a storage update follows the published table; the size in words never overflows; operations have their published codes, names, widths and validity; blocks and times map to revisions consistently.',
  ['inputs'], 'all pairs of 282 and all triples of 56 (thorough: 282) 256-bit values around all word, sign, byte and shift boundaries; all byte values at all positions of all text forms; all single-character changes and lengths of malformed texts; all triples of 38 words for storage updates; all 256 operations',
  'Tests check a few values; an error in a carry, a sign or a boundary corrupts every balance and gas computation depending on it.',
  ['go/tosca/types.go', 'go/tosca/utils.go', 'go/tosca/revisions.go', 'go/tosca/world_state.go', 'go/tosca/vm', 'go/ct/common'],
  [('currency values', 'go/tosca/types.go'), ('storage status', 'go/tosca/utils.go'), ('operations', 'go/tosca/vm/opcodes.go'), ('256-bit integers', 'go/ct/common/u256.go')], ['results of all operations, errors, panics'],
  technique='explicit-state model checking: complete enumeration of the operations over a closed set of boundary values, compared to arbitrary-precision integers and the published tables',
  note0='The 256-bit integer package is a stand-in written for this sandbox. The tested set of values contains everything the operations distinguish: word boundaries, signs, byte and shift counts.'),
 prop('P27', 'Test states are independent values with faithful comparison and files',
  'Every part of a conformance test state (storage, transient storage, accounts, stack, memory, logs, call journal, code, contexts) behaves as the value its operations describe, whatever the history of operations, clones and releases; changing a clone never changes the original or the other way around, also when released stacks are reused; two states are equal exactly if they agree on everything relevant for their status (only the status for failed states; results but not stack, memory and program counter for finished states; program counters beyond the code are equal), comparison is symmetric, and unequal states have differences; memory expansion costs are exact for all sizes; a state written to a file is read back completely and independent, damaged files are refused or yield a state that can be written and read again; interpreters see exactly the content of the state and their effects on it.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of operations on two instances with clones up to depth 3-5 (thorough: one more), all pairs of states with up to two changed parts of 92 variants x all statuses, all clones x changes, all codes up to length 4 over 8 operations, and files cut or changed at every byte',
  'Tests compare a few states; an aliased clone or an incomplete comparison makes conformance runs pass on wrong interpreters.',
  ['go/ct/st', 'go/ct/utils'],
  [('state', 'go/ct/st/state.go'), ('serialization', 'go/ct/st/serialization.go'), ('adapter', 'go/ct/utils/adapter.go')], ['observers of all parts, Eq, Diff, files, results of context operations'],
  technique='explicit-state model checking: complete enumeration of operation sequences on the real components with a reference model in lockstep, and of all damages to files',
  note0='The reference model keeps the expected observations of each component. Contents of grown stacks are unspecified.'),
 prop('P30', 'The go-ethereum adapters execute transactions like the network',
  'Transactions processed by the opera processor, and contracts executed by interpreters behind the go-ethereum adapters, have exactly the effects, gas consumption, refunds, logs and outcome the call machinery of go-ethereum defines for them: contracts see the state, call parameters and block parameters of their own frame; no frame below a static call changes the state, whatever addresses and kinds of calls lie between; failing calls, creations and precompiled contracts consume what they should and leave nothing behind; refunds may be negative in between and are paid up to their cap; tokens are neither created nor lost; transactions whose sender cannot pay, with wrong nonces or too little gas are rejected.',
  ['inputs', 'programs', 'fault_sequences', 'configurations'], 'all transactions of the spaces of P19-P23 (call trees of up to three frames with all kinds, targets and endings, call depth, creations, precompiled contracts, validity, gas, settlement), all chains of three calls in static frames over 200 addresses around those of precompiled contracts, all refund sequences of three frames, all observations of contracts before and after every call, on the opera processor (Istanbul to London) and directly on the adapters (to Cancun), and the bytecode transactions of P24 with all interpreters',
  'The unit tests check the conversions of single values on mocks; the processor tests run a few scenarios without self destructs, refunds or static frames.',
  ['go/processor/opera', 'go/geth_adapter', 'go/interpreter/geth/geth.go'],
  [('interpreter and run context adapters', 'go/geth_adapter/adapter.go'), ('state adapter', 'go/interpreter/geth/geth.go'), ('opera processor', 'go/processor/opera/processor.go')], ['receipt and complete world state after the transaction', 'everything interpreters see: parameters, balances, storage and its status, access status, call results'],
  technique=PTECH, note0=PNOTE.replace('floria processor built', 'opera processor and go-ethereum adapters built').replace('(go/proc/model.go)', '(go/proc/opera.go)').replace('Third-party code (geth precompiles, hashing) is', 'go-ethereum itself (its call machinery, precompiles, hashing) is not available offline and') + ' Out of scope: transactions with the largest nonce, revisions after London on the opera processor.'),
]
NOT_APPLICABLE = []
