#!/usr/bin/env python3
# Writes properties.jsonl. Keep in step with MANIFEST.json (tools/manifest.py).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))

p("P01","Checked arithmetic is exact or saturates towards the true result",
  "Every overflow-checked addition, subtraction and multiplication returns the mathematically exact result whenever it is representable. Otherwise it returns the nearest representable value or, in the variants that report errors, an overflow error; it never returns a wrapped value as a success.",
  ["inputs"],"All pairs of operand values of each operand type.",
  "The single existing test samples a few operands of the unsigned addition; wrap-around shows only at the edges of 2^64 x 2^64 inputs.",
  ["math/overflow.go"],[("saturating and error-returning arithmetic","math/overflow.go")])

p("P02","Gas is conserved: use never creates gas and never exceeds what was given",
  "Charging gas is cumulative and saturating, the gas left is exactly the gas provided minus the gas charged and never negative, and a bounded charge fails without charging when it asks for more than is left. Deducting, restoring, reserving and refunding gas for initial cost, asynchronous calls and nested calls never make the gas available to an execution larger than the gas provided by the transaction.",
  ["inputs","histories","configurations"],"All gas limits, prices, lengths, charge sequences and gas schedules.",
  "Unit tests charge a few small amounts; overflow of a product of price and length or of a running total needs values no test samples.",
  ["arwen/contexts/metering.go","arwen/contexts/runtime.go","arwen/host/breakpoints.go"],
  [("gas counter and gas left","arwen/contexts/metering.go"),("points counter","arwen/contexts/runtime.go")],
  [("points used","gas charged so far by the running instance","wasmer instance"),("gas provided","limit of the current call","arwen/contexts/runtime.go vmInput"),("gasForExecution","gas available after initial deduction","arwen/contexts/metering.go")])

p("P03","Nested executions see isolated state and restore it exactly on return",
  "Saving the execution state and later restoring it brings back precisely the values the caller had, whatever the callee did in between, and saved states are never altered by the callee. Discarding or merging a saved state removes exactly one level, and the caller's levels below it are untouched.",
  ["inputs","histories"],"All states and all interleavings of save, mutate, restore, discard and merge.",
  "Tests push one hand-made state and pop it; aliasing between a saved and a live state appears only when particular fields are mutated in between.",
  ["arwen/contexts/metering.go","arwen/contexts/runtime.go","arwen/contexts/storage.go","arwen/contexts/bigint.go","arwen/contexts/output.go","arwen/contexts/blockchain.go"],
  [("state stacks","arwen/contexts/*.go PushState/PopSetActiveState/PopDiscard/PopMergeActiveState")])

p("P04","Protected storage cannot be written and read-only execution writes nothing",
  "A contract's storage write is rejected, with no change of state, when the execution is read-only, when the key lies in the namespace reserved for the protocol, or when the key lies in the namespace the virtual machine keeps for itself and the machine has not itself opened it. Opening that namespace lasts only for the machine's own writes.",
  ["inputs","histories"],"All keys, values, addresses and modes.",
  "Tests try a handful of keys; a prefix check that is one byte short, or a protection left switched off, is invisible to them.",
  ["arwen/contexts/storage.go","arwen/elrondapi/elrondei.go"],
  [("reserved prefix and protection checks","arwen/contexts/storage.go"),("read-only flag","arwen/contexts/runtime.go")])

p("P05","Storage reads return the last write and each write reports and pays what changed",
  "Reading a key returns the value last written to it in this transaction, or else the value held by the blockchain, and writing changes no other key. Each successful write reports added, modified, deleted or unchanged according to the old and new value, and charges persistence, storing and release per byte accordingly.",
  ["inputs","histories"],"All sequences of reads and writes of all keys, values and addresses.",
  "Tests check a few short keys and values with prices of one; wrong status or byte count in one branch, or aliasing of stored bytes, escapes them.",
  ["arwen/contexts/storage.go"],[("storage context","arwen/contexts/storage.go")])

p("P06","Value transfers conserve funds and never overdraw",
  "A transfer with a negative value, with more value than the sender holds, or to a contract that does not accept payment is refused and leaves every balance as it was. A successful transfer moves exactly the value from the sender to the receiver, and records exactly one outgoing transfer.",
  ["inputs","histories"],"All values, balances, accounts, call types and sequences of transfers.",
  "Tests move a few small amounts between two accounts; alias of balance objects, self-transfer or sign errors need specific operands.",
  ["arwen/contexts/output.go","arwen/contexts/blockchain.go","mock/world/account.go"],
  [("transfer checks","arwen/contexts/output.go")])

p("P07","Outputs of nested calls merge without loss and failures erase effects",
  "Merging a callee's output into its caller's keeps every account, storage update, log, transfer, piece of return data and gas refund of both, in order, and prefers the callee's newer values. The output produced for a failed execution carries the error code and message, no gas left, and none of the changes of the failed execution.",
  ["inputs","histories"],"All pairs of outputs and all failures.",
  "Tests merge a few small hand-made outputs; a dropped field or a lost delta only shows on outputs where both sides have it.",
  ["arwen/contexts/output.go"],[("output merging and error outputs","arwen/contexts/output.go")])

p("P08","Guest memory access stays in bounds and returns exactly the addressed bytes",
  "Loading from or storing into guest memory with any offset and length, including negative and overflowing ones, either fails with an error and no effect, or touches exactly the requested region, growing the memory only as far as allowed. The bytes loaded are a private copy, zero-padded only past the end of memory, and a batch load charges and loads exactly its announced lengths.",
  ["inputs"],"All offsets, lengths, memory sizes and contents.",
  "Tests use a few offsets around one page; 32-bit overflow, negative lengths and exact page boundaries are a handful of points in a 2^64 space.",
  ["arwen/helpers.go","arwen/contexts/runtime.go","wasmer/memory.go"],
  [("bounds checks","arwen/contexts/runtime.go MemLoad/MemStore/MemLoadMultiple"),("guarded slicing and padding","arwen/helpers.go")])

p("P09","Big integer handles are private and operations compute the exact result",
  "Each arithmetic, bitwise, shift, comparison and conversion operation offered to contracts yields the exact mathematical result in its destination handle and changes no other handle, even when source and destination coincide. A newly created number never takes a handle that is live, a handle not yet used reads as zero and touches no other, and operations without a defined result (division by zero, negative operands where forbidden) fail the execution.",
  ["inputs","histories"],"All handles, operand values and operation sequences.",
  "Tests exercise a few small operands; sign handling of quotient and remainder, aliasing of handles and destinations need particular operands.",
  ["arwen/contexts/bigint.go","arwen/elrondapi/bigIntOps.go","arwen/elrondapi/smallIntOps.go"],
  [("big integer context","arwen/contexts/bigint.go"),("operations","arwen/elrondapi/bigIntOps.go")])

p("P10","Only valid contract code is accepted",
  "Code is accepted only when it has a memory, every exported function has a well-formed, non-reserved name and takes and returns nothing, and it does not define the machine's own interface or protocol functions. Every code that satisfies these rules is accepted.",
  ["inputs","programs"],"All exported-function sets, names and signatures.",
  "Tests list a dozen sample names; a validator wrong for one character class, length or position passes them.",
  ["arwen/contexts/validator.go","arwen/contexts/reservedFunctions.go","arwen/contexts/runtime.go"],
  [("name and signature validation","arwen/contexts/validator.go"),("reserved names","arwen/contexts/reservedFunctions.go")])

p("P11","Constructors, callbacks and upgrades run only when authorised",
  "A call, whether from a transaction or from another contract, never starts a contract's constructor, and a transaction that is not a callback never starts its callback. An upgrade requested by a contract changes code only when that contract owns the target and the target was made upgradeable. A call that is refused for these reasons has no other effect.",
  ["inputs","histories"],"All callers, function names, code metadata and call types.",
  "Integration tests need the native engine and try one owner and one stranger; a missing case in the order of checks is not reached.",
  ["arwen/host/execution.go","arwen/host/arwen.go","arwen/contexts/blockchain.go","arwen/contexts/runtime.go"],
  [("entry checks","arwen/host/execution.go"),("function lookup","arwen/contexts/runtime.go")])

p("P12","A nested call that fails leaves the caller exactly as it was",
  "Executing another contract or a library function balances every state it saves with exactly one restore or merge on every outcome. When the nested call fails, the caller's accounts, storage, value, gas accounting, call parameters and read-only mode are those before the call; when it succeeds, only the callee's effects are added and only unused gas comes back.",
  ["inputs","programs","histories","fault_sequences"],"All nested calls and all points at which a callee may fail.",
  "Needs a failing callee at each step of the protocol; the suite that runs contracts cannot run here and samples few failures.",
  ["arwen/host/execution.go","arwen/contexts/*.go"],[("nested execution","arwen/host/execution.go")])

p("P13","Asynchronous calls and callbacks are routed and funded correctly",
  "An asynchronous call runs synchronously only when both contracts live in the same shard, otherwise it is sent as exactly one cross-shard transfer with its gas, locked gas, value and data. The callback receives the result code or the callee's results, and exactly the gas reserved for it plus the gas the callee left, and funds are returned to the caller exactly once on failure.",
  ["inputs","histories","programs"],"All destinations, values, gas amounts, results and failures.",
  "The tests that drive callbacks cannot run here and use fixed gas numbers; an off-by-one reservation or a lost refund on one path is not seen.",
  ["arwen/host/asyncCall.go","arwen/contexts/metering.go"],[("async execution","arwen/host/asyncCall.go"),("async gas reservation","arwen/contexts/metering.go")])

p("P14","Every API call charges its price, and bad arguments are rejected without effect",
  "Each function of the contract interface charges at least its scheduled price, and for the bytes it is given to store, whatever its outcome. An argument index, handle, offset, length or byte range that is not valid makes it stop the execution or return its documented error value without changing storage, balances, outputs or results and without calling anything; otherwise it yields exactly the datum it names (argument, return data, block information, storage value, balance, token data) at the place named and changes nothing else. No combination of arguments supplied by a contract crashes the host.",
  ["inputs","configurations"],"All argument values of every interface function and all prices.",
  "The interface has more than a hundred functions each taking 32-bit integers chosen by an attacker; tests call them with well-formed values.",
  ["arwen/elrondapi/*.go","arwen/cryptoapi/cryptoei.go"],[("interface functions","arwen/elrondapi, arwen/cryptoapi")])

p("P15","Messages between node and machine process arrive intact and in order",
  "A message sent over the pipe is framed with its exact length and kind, and the receiver yields exactly the same kind, nonce and payload, or an error. A reply is accepted only when its dialogue number follows the previous one, and no field of an output is lost when it is converted for the wire and back.",
  ["inputs","histories"],"All messages, payload sizes and sequences of dialogues.",
  "Tests send a few small messages in one order; a truncated read, a wrong length or a dropped field needs sizes or fields they do not use.",
  ["ipc/common/*.go","ipc/arwenpart/messenger.go","ipc/nodepart/messenger.go"],
  [("framing","ipc/common/sender.go, receiver.go"),("nonces","ipc/common/messenger.go"),("wire conversion","ipc/common/serializableVMOutput.go")])

p("P16","Scenario value expressions evaluate to their documented bytes",
  "Every scenario expression (numbers with sign and width, strings, hexadecimal, binary, booleans, addresses, concatenations) evaluates to exactly the bytes its notation documents, fixed-width numbers never silently overflow, and malformed expressions give an error rather than a value. Checks against a value succeed exactly when the values agree or the check is a wildcard.",
  ["inputs"],"All expression strings and checked values.",
  "Tests list sample expressions; the wrong width, sign or separator case needs a value not in the list.",
  ["mandos-go/expression/interpreter/*.go","mandos-go/json/model/*.go"],[("interpreter","mandos-go/expression/interpreter"),("value checks","mandos-go/json/model")])

p("P17","The simulated blockchain applies results exactly and rolls back completely",
  "Applying an execution result changes balances, nonces, storage, code and ownership of exactly the accounts it names by exactly the stated amounts and refuses to make a balance negative. After a rollback every account equals its state at the matching checkpoint, whatever was changed in between.",
  ["inputs","histories"],"All worlds, outputs and sequences of checkpoints, changes, rollbacks and commits.",
  "Scenario tests cannot run here; shallow copies of accounts are only visible when a specific field is changed after the checkpoint.",
  ["mock/world/*.go"],[("account map and snapshots","mock/world/worldMock.go, accountMap.go, account.go")])

p("P18","Cryptographic API results reflect exactly the verification of the given bytes",
  "Each hash and signature function offered to contracts passes exactly the contract's bytes to the primitive and returns success only when the primitive succeeded. Key, message and signature lengths are read in the documented order and a failed check is never reported as success.",
  ["inputs"],"All keys, messages, signatures and lengths.",
  "Tests verify one valid signature; swapped arguments, ignored errors or wrong lengths need invalid or unusual inputs.",
  ["arwen/cryptoapi/cryptoei.go","crypto/**"],[("crypto interface","arwen/cryptoapi/cryptoei.go")])

p("P19","Gas schedules with a missing or zero price are rejected",
  "A gas schedule is accepted only when every price of every cost group is present and non-zero, and the accepted prices are exactly those given.",
  ["configurations"],"All gas schedules.",
  "Tests load the shipped schedules only.",
  ["config/gasSchedule.go"],[("cost decoding and zero check","config/gasSchedule.go")])

p("P20","A stuck or crashing execution is stopped and reported as a failure",
  "Execution that exceeds its time limit or panics inside the engine ends with a failure output rather than a hang or crash of the host, and the host can serve the next request.",
  ["schedules","fault_sequences","programs"],"All contracts, panics and timings.",
  "Depends on the native engine's interruption and on goroutine timing.",
  ["arwen/host/arwen.go","arwen/contexts/runtime.go"],[("timeout and recovery","arwen/host/arwen.go")])

import os
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
