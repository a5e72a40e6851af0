property P11

// what every entry point of the host relies on and keeps
pred stacksOk(h) = (forall i int :: 0 <= i && i < len(h.runtimeContext.stateStack) ==> h.runtimeContext.stateStack[i] != nil && inputOk(h.runtimeContext.stateStack[i].vmInput)) && (forall i int :: 0 <= i && i < len(h.runtimeContext.instanceStack) ==> h.runtimeContext.instanceStack[i] != nil) && forall i int :: 0 <= i && i < len(h.meteringContext.stateStack) ==> h.meteringContext.stateStack[i] != nil
pred linked(h) = h.bigIntContext != nil && h.storageContext.host == h && h.meteringContext.host == h && h.outputContext.host == h && h.runtimeContext.host == h && h.blockchainContext.host == h && h.blockchainContext.blockChainHook != nil && h.builtInFuncContainer != nil && h.cryptoHook != nil
pred builderOk(c) = c.validator != nil && c.validator.reserved != nil && c.instanceBuilder != nil && (c.warmInstanceAddress != nil ==> instOk(c.warmInstance))
pred hostInv(h) = hostOk(h) && linked(h) && mOk(h.meteringContext) && h.meteringContext.gasUsedByAccounts != nil && bigsOk(h.bigIntContext) && outputOk(h.outputContext) && outOk(h.outputContext.outputState) && h.runtimeContext.vmInput != nil && inputOk(h.runtimeContext.vmInput) && stacksOk(h) && builderOk(h.runtimeContext)
pred callOk(i) = i != nil && i.CallValue != nil && forall j int :: 0 <= j && j < len(i.ESDTTransfers) ==> i.ESDTTransfers[j] != nil && i.ESDTTransfers[j].ESDTValue != nil

// a function of the guest runs: it may reach everything through the contract interface
ghostvar $starts Int
iface wasmer.ExportedFunctionCallback.Call(f, args)
  modifies *, $starts, $points, $bp, $chain, $memLen, $memBase, $gaslimit
  ensures $starts > old($starts)

def isInit(n) = n == arwen.InitFunctionName || n == arwen.InitFunctionNameEth
pred builtinCall(h, n) = builtinErr(ref(h.builtInFuncContainer), n) == 0 && builtinOn(builtinFunc(ref(h.builtInFuncContainer), n))

// the caller's levels are back: as many saved states as before, and the caller's call on top again
pred balanced(h) = len(h.bigIntContext.stateStack) == old(len(h.bigIntContext.stateStack)) && len(h.blockchainContext.stateStack) == old(len(h.blockchainContext.stateStack)) && len(h.meteringContext.stateStack) == old(len(h.meteringContext.stateStack)) && len(h.outputContext.stateStack) == old(len(h.outputContext.stateStack)) && len(h.runtimeContext.stateStack) == old(len(h.runtimeContext.stateStack)) && len(h.runtimeContext.instanceStack) == old(len(h.runtimeContext.instanceStack)) && len(h.storageContext.stateStack) == old(len(h.storageContext.stateStack))
pred sameCall(h) = str(h.runtimeContext.scAddress) == old(str(h.runtimeContext.scAddress)) && h.runtimeContext.callFunction == old(h.runtimeContext.callFunction) && h.runtimeContext.readOnly == old(h.runtimeContext.readOnly) && h.runtimeContext.vmInput.CallType == old(h.runtimeContext.vmInput.CallType) && h.runtimeContext.vmInput.GasProvided == old(h.runtimeContext.vmInput.GasProvided) && str(h.storageContext.address) == old(str(h.storageContext.address)) && h.runtimeContext.instance == old(h.runtimeContext.instance)

case host.(*vmHost).ExecuteOnDestContext@constructor(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && callOk(in) && !in.AllowInitFunction && isInit(in.Function) && !builtinCall(h, in.Function)
  modifies *, $points, $chain
  ensures[refused] result2 != nil && $starts == old($starts)
  ensures[balanced] balanced(h)
  ensures[restored] sameCall(h)
  ensures[rolledback] $chain == chainAt(old($chain), chainSnapshot(old($chain)))

case host.(*vmHost).ExecuteOnSameContext@constructor(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && callOk(in) && !in.AllowInitFunction && isInit(in.Function)
  modifies *, $points, $chain
  ensures[refused] result1 != nil && $starts == old($starts)
  ensures[balanced] balanced(h)
  ensures[restored] sameCall(h)
  ensures[rolledback] $chain == old($chain) || $chain == chainAt(old($chain), chainSnapshot(old($chain)))


case host.(*vmHost).RunSmartContractCall@constructor(h, in)
  nopanic
  requires h != nil && hostInv(h) && callOk(in) && isInit(in.Function)
  modifies *, $points, $chain, $gaslimit, $bp
  ensures[refused] result1 == nil && result0 != nil && result0.ReturnCode != 0 && $starts == old($starts)

case host.(*vmHost).RunSmartContractCall@callback(h, in)
  nopanic
  requires h != nil && hostInv(h) && callOk(in) && in.Function == arwen.CallbackFunctionName && in.CallType != vmcommon.AsynchronousCallBack
  modifies *, $points, $chain, $gaslimit, $bp
  ensures[refused] result1 == nil && result0 != nil && result0.ReturnCode != 0 && $starts == old($starts)

// a contract may be upgraded by another one only when it was made upgradeable and only by its owner
trusted check.IfNilReflect(i)
  pure
  ensures result <==> isnil(i) || nilAcc(ref(i))
def upgradeable(m) = len(m) == 2 && m[0] % 2 == 1
func host.(*vmHost).checkUpgradePermission(h, in)
  helper nopanic
  requires h != nil && hostOk(h) && linked(h) && in != nil
  let a = chainAcc($chain, str(in.RecipientAddr))
  modifies nothing
  ensures[allowed] result == nil <==> chainErr($chain, str(in.RecipientAddr)) == 0 && a != 0 && !nilAcc(a) && upgradeable(accMetadata(a)) && accOwner(a) == str(in.CallerAddr)

pred mayUpgrade(k, by) = chainErr($chain, k) == 0 && chainAcc($chain, k) != 0 && !nilAcc(chainAcc($chain, k)) && upgradeable(accMetadata(chainAcc($chain, k))) && accOwner(chainAcc($chain, k)) == by

case host.(*vmHost).ExecuteOnDestContext@upgrade(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && callOk(in) && in.Function == arwen.UpgradeFunctionName && !builtinCall(h, in.Function)
  requires !mayUpgrade(str(in.RecipientAddr), str(in.CallerAddr))
  modifies *, $points, $chain
  ensures[refused] result2 != nil && $starts == old($starts)
  ensures[balanced] balanced(h)
  ensures[restored] sameCall(h)
  ensures[rolledback] $chain == chainAt(old($chain), chainSnapshot(old($chain)))
  ensures[code] forall a string :: has(h.outputContext.codeUpdates, a) <==> old(has(h.outputContext.codeUpdates, a))

case host.(*vmHost).ExecuteOnSameContext@upgrade(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && callOk(in) && in.Function == arwen.UpgradeFunctionName
  requires !mayUpgrade(str(in.RecipientAddr), str(in.CallerAddr))
  modifies *, $points, $chain
  ensures[refused] result1 != nil && $starts == old($starts)
  ensures[balanced] balanced(h)
  ensures[restored] sameCall(h)
  ensures[rolledback] $chain == old($chain) || $chain == chainAt(old($chain), chainSnapshot(old($chain)))
  ensures[code] forall a string :: has(h.outputContext.codeUpdates, a) <==> old(has(h.outputContext.codeUpdates, a))


// ---- P12: leaving a nested execution
property P12
pred nested(h) = len(h.bigIntContext.stateStack) > 0 && len(h.storageContext.stateStack) > 0 && len(h.meteringContext.stateStack) > 0 && len(h.outputContext.stateStack) > 0 && len(h.runtimeContext.stateStack) > 0 && len(h.runtimeContext.instanceStack) > 0
pred oneLess(h) = len(h.bigIntContext.stateStack) == old(len(h.bigIntContext.stateStack)) - 1 && len(h.meteringContext.stateStack) == old(len(h.meteringContext.stateStack)) - 1 && len(h.outputContext.stateStack) == old(len(h.outputContext.stateStack)) - 1 && len(h.runtimeContext.stateStack) == old(len(h.runtimeContext.stateStack)) - 1 && len(h.runtimeContext.instanceStack) == old(len(h.runtimeContext.instanceStack)) - 1
pred callerBack(h) = str(h.runtimeContext.scAddress) == old(str(h.runtimeContext.stateStack[len(h.runtimeContext.stateStack)-1].scAddress)) && h.runtimeContext.callFunction == old(h.runtimeContext.stateStack[len(h.runtimeContext.stateStack)-1].callFunction) && (h.runtimeContext.readOnly <==> old(h.runtimeContext.stateStack[len(h.runtimeContext.stateStack)-1].readOnly)) && h.runtimeContext.instance == old(h.runtimeContext.instanceStack[len(h.runtimeContext.instanceStack)-1])

case host.(*vmHost).finishExecuteOnDestContext@failed(h, e)
  helper nopanic
  requires h != nil && hostInv(h) && nested(h) && e != nil
  let caller = h.runtimeContext.instanceStack[len(h.runtimeContext.instanceStack)-1]
  modifies *, $points
  ensures[failed] result != nil && result.ReturnCode != 0 && result.GasRemaining == 0
  ensures[balanced] oneLess(h) && len(h.storageContext.stateStack) == old(len(h.storageContext.stateStack)) - 1
  ensures[caller] callerBack(h) && str(h.storageContext.address) == old(str(h.storageContext.stateStack[len(h.storageContext.stateStack)-1]))
  ensures[output] h.outputContext.outputState == old(h.outputContext.stateStack[len(h.outputContext.stateStack)-1])
  ensures[meter] sameMeter(h.meteringContext, old(h.meteringContext.stateStack[len(h.meteringContext.stateStack)-1]))
  ensures[metermap] h.meteringContext.gasUsedByAccounts == old(h.meteringContext.stateStack[len(h.meteringContext.stateStack)-1].gasUsedByAccounts)
  ensures[bigs] h.bigIntContext.values == old(h.bigIntContext.stateStack[len(h.bigIntContext.stateStack)-1])
  ensures[gas] old($points)[ref(caller)] >= 0 ==> $points[ref(caller)] == min(old($points)[ref(caller)], maxI64)

// the states saved for the callers share no account, map or log storage with the running one
pred distinctStates(h) = (forall i int :: 0 <= i && i < len(h.outputContext.stateStack) ==> outOk(h.outputContext.stateStack[i]) && h.outputContext.stateStack[i] != h.outputContext.outputState && h.outputContext.stateStack[i].OutputAccounts != h.outputContext.outputState.OutputAccounts && (h.outputContext.stateStack[i].Logs == nil || base(h.outputContext.stateStack[i].Logs) != base(h.outputContext.outputState.Logs)) && (h.outputContext.stateStack[i].ReturnData == nil || base(h.outputContext.stateStack[i].ReturnData) != base(h.outputContext.outputState.ReturnData))) && (forall i int :: 0 <= i && i < len(h.outputContext.stateStack) ==> otherAccs(h.outputContext.stateStack[i].OutputAccounts, h.outputContext.outputState.OutputAccounts) && otherMaps(h.outputContext.stateStack[i].OutputAccounts, h.outputContext.outputState.OutputAccounts) && otherArrays(h.outputContext.stateStack[i].OutputAccounts, h.outputContext.outputState.OutputAccounts)) && forall i int :: 0 <= i && i < len(h.meteringContext.stateStack) ==> h.meteringContext.stateStack[i].gasUsedByAccounts != h.meteringContext.gasUsedByAccounts

case host.(*vmHost).finishExecuteOnDestContext@done(h, e)
  helper nopanic
  requires h != nil && hostInv(h) && nested(h) && distinctStates(h) && e == nil
  let left = max(h.meteringContext.gasForExecution - pointsOf(h.runtimeContext), 0)
  let caller = h.runtimeContext.instanceStack[len(h.runtimeContext.instanceStack)-1]
  let saved = h.outputContext.stateStack[len(h.outputContext.stateStack)-1]
  modifies *, $points
  ensures[balanced] oneLess(h) && len(h.storageContext.stateStack) == old(len(h.storageContext.stateStack)) - 1
  ensures[caller] callerBack(h) && str(h.storageContext.address) == old(str(h.storageContext.stateStack[len(h.storageContext.stateStack)-1]))
  ensures[failedoutput] result != nil && (result.ReturnCode != 0 ==> h.outputContext.outputState == saved)
  ensures[meter] sameMeter(h.meteringContext, old(h.meteringContext.stateStack[len(h.meteringContext.stateStack)-1]))
  ensures[metermap] result.ReturnCode != 0 ==> h.meteringContext.gasUsedByAccounts == old(h.meteringContext.stateStack[len(h.meteringContext.stateStack)-1].gasUsedByAccounts)
  ensures[bigs] h.bigIntContext.values == old(h.bigIntContext.stateStack[len(h.bigIntContext.stateStack)-1])
  ensures[gas] result.ReturnCode == 0 ==> result.GasRemaining == left && $points[ref(caller)] == (left <= old($points)[ref(caller)] ? min(old($points)[ref(caller)] - left, maxI64) : old($points)[ref(caller)])
  ensures[failedgas] result.ReturnCode != 0 && result.GasRemaining == 0 && old($points)[ref(caller)] >= 0 ==> $points[ref(caller)] == min(old($points)[ref(caller)], maxI64)

case host.(*vmHost).finishExecuteOnSameContext@failed(h, e)
  helper nopanic
  requires h != nil && hostInv(h) && nested(h) && len(h.blockchainContext.stateStack) > 0 && (e != nil || h.outputContext.outputState.ReturnCode != 0)
  modifies *, $chain
  ensures[balanced] oneLess(h) && len(h.blockchainContext.stateStack) == old(len(h.blockchainContext.stateStack)) - 1
  ensures[caller] callerBack(h)
  ensures[storage] h.storageContext.address == old(h.storageContext.address)
  ensures[output] h.outputContext.outputState == old(h.outputContext.stateStack[len(h.outputContext.stateStack)-1])
  ensures[meter] sameMeter(h.meteringContext, old(h.meteringContext.stateStack[len(h.meteringContext.stateStack)-1]))
  ensures[metermap] h.meteringContext.gasUsedByAccounts == old(h.meteringContext.stateStack[len(h.meteringContext.stateStack)-1].gasUsedByAccounts)
  ensures[bigs] h.bigIntContext.values == old(h.bigIntContext.stateStack[len(h.bigIntContext.stateStack)-1])
  ensures[chain] $chain == chainAt(old($chain), old(h.blockchainContext.stateStack[len(h.blockchainContext.stateStack)-1]))

case host.(*vmHost).finishExecuteOnSameContext@done(h, e)
  helper nopanic
  requires h != nil && hostInv(h) && nested(h) && distinctStates(h) && len(h.blockchainContext.stateStack) > 0 && e == nil && h.outputContext.outputState.ReturnCode == 0
  let left = max(h.meteringContext.gasForExecution - pointsOf(h.runtimeContext), 0)
  let caller = h.runtimeContext.instanceStack[len(h.runtimeContext.instanceStack)-1]
  let out = h.outputContext.outputState
  let bigs = h.bigIntContext.values
  modifies *, $points
  ensures[balanced] oneLess(h) && len(h.blockchainContext.stateStack) == old(len(h.blockchainContext.stateStack)) - 1
  ensures[caller] callerBack(h)
  ensures[output] h.outputContext.outputState == out
  ensures[meter] sameMeter(h.meteringContext, old(h.meteringContext.stateStack[len(h.meteringContext.stateStack)-1]))
  ensures[bigs] h.bigIntContext.values == bigs
  ensures[gas] $points[ref(caller)] == old($points)[ref(caller)] || 0 <= left && $points[ref(caller)] == min(old($points)[ref(caller)] - left, maxI64) || $points[ref(caller)] == min(old($points)[ref(caller)], maxI64)

// a nested call that is refused before its code runs
case host.(*vmHost).ExecuteOnDestContext@transfer(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && callOk(in) && !builtinCall(h, in.Function) && in.CallType != vmcommon.AsynchronousCallBack
  requires big(in.CallValue) < 0 || big(in.CallValue) > spendable(h.outputContext, str(in.CallerAddr))
  modifies *, $points, $chain
  ensures[refused] result2 != nil && $starts == old($starts)
  ensures[balanced] balanced(h)
  ensures[restored] sameCall(h)
  ensures[rolledback] $chain == chainAt(old($chain), chainSnapshot(old($chain)))
  ensures[meter] h.meteringContext.initialGasProvided == old(h.meteringContext.initialGasProvided) && h.meteringContext.initialCost == old(h.meteringContext.initialCost) && h.meteringContext.gasForExecution == old(h.meteringContext.gasForExecution)
  ensures[accounts] forall k string :: has(accounts(h.outputContext), k) <==> old(has(accounts(h.outputContext), k))
  ensures[bigs] forall k int32 :: (has(h.bigIntContext.values, k) <==> old(has(h.bigIntContext.values, k))) && (has(h.bigIntContext.values, k) ==> big(h.bigIntContext.values[k]) == old(big(h.bigIntContext.values[k])))

case host.(*vmHost).ExecuteOnSameContext@transfer(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && callOk(in)
  requires big(in.CallValue) < 0 || big(in.CallValue) > spendable(h.outputContext, str(in.CallerAddr))
  modifies *, $points, $chain
  ensures[refused] result1 != nil && $starts == old($starts)
  ensures[balanced] balanced(h)
  ensures[restored] sameCall(h)
  ensures[rolledback] $chain == old($chain) || $chain == chainAt(old($chain), chainSnapshot(old($chain)))
  ensures[meter] h.meteringContext.initialGasProvided == old(h.meteringContext.initialGasProvided) && h.meteringContext.initialCost == old(h.meteringContext.initialCost) && h.meteringContext.gasForExecution == old(h.meteringContext.gasForExecution)
  ensures[accounts] forall k string :: has(accounts(h.outputContext), k) <==> old(has(accounts(h.outputContext), k))
  ensures[bigs] forall k int32 :: (has(h.bigIntContext.values, k) <==> old(has(h.bigIntContext.values, k))) && (has(h.bigIntContext.values, k) ==> big(h.bigIntContext.values[k]) == old(big(h.bigIntContext.values[k])))

case host.(*vmHost).ExecuteOnSameContext@builtin(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && callOk(in) && builtinCall(h, in.Function)
  modifies nothing
  ensures[refused] result1 != nil

case host.(*vmHost).CreateNewContract@readonly(h, in)
  nopanic
  requires h != nil && hostInv(h) && h.runtimeContext.instance != nil && in != nil && in.CallValue != nil && h.runtimeContext.readOnly
  modifies h.meteringContext.initialCost, h.meteringContext.gasForExecution
  ensures[refused] result1 != nil && result0 == nil && $starts == old($starts)
  ensures[meter] h.meteringContext.initialGasProvided == old(h.meteringContext.initialGasProvided) && h.meteringContext.initialCost == old(h.meteringContext.initialCost) && h.meteringContext.gasForExecution == old(h.meteringContext.gasForExecution)
