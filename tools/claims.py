TECH="contract-based deductive verification (function contracts on the real Go code, go/ssa symbolic execution, SMT)"
CLAIMS={
"P01":"Every obligation of the arithmetic functions is discharged for all operands, with Go's wrapping semantics; trusts govc, go/ssa and z3/cvc5; logging calls are assumed effect-free.",
"P02":"Contracts of the gas counter, charges, bounded charges, locks, refunds and initial deductions, for all amounts and schedules; the native engine's counter is an assumed contract.",
"P03":"Contracts of every push, pop, merge, discard and clear of runtime, output, storage, metering, blockchain and big-integer state; the native engine instance is an assumed contract.",
"P04":"Contracts of storage writes (ordinary and protected), of the key construction and of the read-only flag; the blockchain hook and native engine are assumed contracts. One known finding.",
"P05":"Contracts of every storage read and write over a model of the account maps in the real heap; the blockchain hook is an assumed, state-dependent function.",
"P06":"Contracts of balance reads and transfers relating every account's balance delta before and after; exact refusal condition; the blockchain hook is assumed.",
"P07":"Contracts of merging outputs, accounts and storage, of the output stack, of adding built-in results, and of the output of finished and failed executions; native gas counter assumed.",
"P08":"Contracts of guest memory loads and stores and slice helpers for every offset and length; guest memory below 2 GiB and the native memory are assumed contracts.",
"P10":"Contracts of code verification, of the reserved names, of starting instances for new code, and of the function lookups; the native engine (compilation, exports, imports) is assumed.",
"P11":"Whole-function contracts (cases) of the host's entry points and nested executions for the refused calls, over all states of the host: nothing of the guest starts, every saved state is restored. The native engine, the blockchain hook and reflection-based nil checks are assumed contracts; upgrades by transactions are authorised by the node, not here.",
"P12":"Contracts of leaving a nested execution (failed and done, own and same context) over arbitrary states a guest may leave, and whole-function contracts of nested calls refused before their code runs. The native engine and the blockchain hook are assumed contracts; distinctness of saved states is assumed at the exit (it is what the push contracts of P03 establish). One known finding.",
"P09":"Contracts of the big integer context and of every big and small integer function of the interface, for all operands and handles; math/big is given mathematical contracts; host access through the context pointer is assumed.",
"P14":"Contracts of about sixty functions of the general interface and of all big and small integer functions, for every argument value: price charged, data yielded, effects, refusal without effect, no panic. Guest memory below 2 GiB, the node's answers and the native engine are assumed contracts; the bodies of calls to other contracts are covered only for refused arguments here (their effects: P06, P07, P11, P12).",
"P15":"Framing, dialogue numbers, dialogue start and end on both sides, classification of messages, their constructors, the type created for every kind (decided kind by kind after executing the package's initialisation), error texts, the gateways of the machine's side (request sent and answer or error returned) and the repliers of the node's side (hook asked and reply built), and the conversion of outputs to the wire and back, for all inputs. Pipes, the two marshallers (assumed to keep kind, number, error and payload) and the tables that route a request to its replier are assumed; the gateways for code, all state, built-in functions and their names are covered by the replay only.",
"P18":"Contracts of the hash and signature functions offered to contracts and of the wrappers around the primitives, down to the primitives themselves (hash functions, ed25519, btcec, BLS library), which are assumed contracts.",
}
NA={
"P19":"the schedule is decoded and zero-checked through reflection and mapstructure, which no contract within reach of the verifier can describe",
"P20":"concerns goroutine scheduling, wall-clock timeouts and recovery from panics of the native engine; sequential contracts cannot express or decide it",
}
