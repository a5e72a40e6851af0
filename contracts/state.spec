property P03

// ---- storage: the address whose storage is accessed
func contexts.(*storageContext).PushState(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack, elems(c.stateStack)
  ensures[push] len(c.stateStack) == n + 1 && c.stateStack[n] == c.address
  ensures[below] forall i int :: 0 <= i && i < n ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*storageContext).PopSetActiveState(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack, c.address
  ensures[empty] n == 0 ==> c.address == old(c.address) && len(c.stateStack) == 0
  ensures[restore] n > 0 ==> c.address == old(c.stateStack[n-1])
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*storageContext).PopDiscard(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack
  ensures[level] len(c.stateStack) == max(n - 1, 0) && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*storageContext).ClearStateStack(c)
  nopanic
  requires c != nil
  modifies c.stateStack
  ensures[cleared] len(c.stateStack) == 0

// ---- blockchain: snapshots of the node's accounts
func contexts.(*blockchainContext).PushState(c)
  nopanic
  requires c != nil && c.blockChainHook != nil
  let n = len(c.stateStack)
  modifies c.stateStack, elems(c.stateStack)
  ensures[push] len(c.stateStack) == n + 1 && c.stateStack[n] == chainSnapshot($chain)
  ensures[below] forall i int :: 0 <= i && i < n ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*blockchainContext).PopSetActiveState(c)
  nopanic
  requires c != nil && c.blockChainHook != nil
  let n = len(c.stateStack)
  modifies c.stateStack, $chain
  ensures[empty] n == 0 ==> len(c.stateStack) == 0 && $chain == old($chain)
  ensures[restore] n > 0 ==> $chain == chainAt(old($chain), old(c.stateStack[n-1]))
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*blockchainContext).PopDiscard(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack
  ensures[level] len(c.stateStack) == max(n - 1, 0) && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*blockchainContext).ClearStateStack(c)
  nopanic
  requires c != nil
  modifies c.stateStack
  ensures[cleared] len(c.stateStack) == 0

// ---- metering
pred sameMeter(s, c) = s.initialGasProvided == old(c.initialGasProvided) && s.initialCost == old(c.initialCost) && s.gasForExecution == old(c.gasForExecution)
pred sameGas(m, k) = forall a string :: (has(m, a) <==> has(k, a)) && (has(k, a) ==> m[a] == k[a])

func contexts.(*meteringContext).PushState(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  let m = c.gasUsedByAccounts
  modifies c.stateStack, elems(c.stateStack)
  ensures[push] len(c.stateStack) == n + 1 && fresh(c.stateStack[n]) && sameMeter(c.stateStack[n], c)
  ensures[gas] fresh(c.stateStack[n].gasUsedByAccounts) && sameGas(c.stateStack[n].gasUsedByAccounts, m)
  ensures[below] forall i int :: 0 <= i && i < n ==> c.stateStack[i] == old(c.stateStack[i])
  inv {clone map[string]uint64} forall a string :: (has(clone, a) <==> visited(a))
  inv {clone map[string]uint64} forall a string :: visited(a) ==> clone[a] == c.gasUsedByAccounts[a]

func contexts.(*meteringContext).PopSetActiveState(c)
  nopanic
  requires c != nil && (len(c.stateStack) > 0 ==> c.stateStack[len(c.stateStack)-1] != nil)
  let n = len(c.stateStack)
  modifies c.stateStack, c.initialGasProvided, c.initialCost, c.gasForExecution, c.gasUsedByAccounts
  ensures[empty] n == 0 ==> len(c.stateStack) == 0 && sameMeter(c, c) && c.gasUsedByAccounts == old(c.gasUsedByAccounts)
  ensures[restore] n > 0 ==> sameMeter(c, old(c.stateStack[n-1])) && c.gasUsedByAccounts == old(c.stateStack[n-1].gasUsedByAccounts)
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*meteringContext).PopDiscard(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack
  ensures[level] len(c.stateStack) == max(n - 1, 0) && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*meteringContext).PopMergeActiveState(c)
  also P02
  nopanic
  requires c != nil && c.gasUsedByAccounts != nil
  requires forall i int :: 0 <= i && i < len(c.stateStack) ==> c.stateStack[i] != nil && c.stateStack[i].gasUsedByAccounts != c.gasUsedByAccounts
  let n = len(c.stateStack)
  let m = c.gasUsedByAccounts
  let p = c.stateStack[n-1].gasUsedByAccounts
  modifies c.stateStack, c.initialGasProvided, c.initialCost, c.gasForExecution, map(m)
  ensures[empty] n == 0 ==> len(c.stateStack) == 0 && sameMeter(c, c) && forall a string :: (has(m, a) <==> old(has(m, a))) && m[a] == old(m[a])
  ensures[restore] n > 0 ==> sameMeter(c, old(c.stateStack[n-1]))
  ensures[gas] n > 0 ==> forall a string :: (has(m, a) <==> old(has(m, a)) || has(p, a)) && (has(m, a) ==> m[a] == wrapU64((old(has(m, a)) ? old(m[a]) : 0) + (has(p, a) ? p[a] : 0)))
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])
  inv forall a string :: has(m, a) <==> old(has(m, a)) || visited(a)
  inv forall a string :: has(m, a) ==> m[a] == wrapU64((old(has(m, a)) ? old(m[a]) : 0) + (visited(a) ? p[a] : 0))

func contexts.(*meteringContext).ClearStateStack(c)
  nopanic
  requires c != nil
  modifies c.stateStack
  ensures[cleared] len(c.stateStack) == 0

// ---- big integers
func contexts.(*bigIntContext).PushState(c)
  nopanic
  requires c != nil && forall h int32 :: has(c.values, h) ==> c.values[h] != nil
  let n = len(c.stateStack)
  let v = c.values
  modifies c.stateStack, elems(c.stateStack)
  ensures[push] len(c.stateStack) == n + 1 && fresh(c.stateStack[n]) && c.values == v
  ensures[values] forall h int32 :: (has(c.stateStack[n], h) <==> has(v, h)) && (has(v, h) ==> fresh(c.stateStack[n][h]) && big(c.stateStack[n][h]) == big(v[h]))
  ensures[below] forall i int :: 0 <= i && i < n ==> c.stateStack[i] == old(c.stateStack[i])
  inv {newState contexts.bigIntMap} forall h int32 :: (has(newState, h) <==> visited(h)) && (visited(h) ==> newState[h] != nil && fresh(newState[h]) && big(newState[h]) == big(c.values[h]))

func contexts.(*bigIntContext).PopSetActiveState(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack, c.values
  ensures[empty] n == 0 ==> c.values == old(c.values) && len(c.stateStack) == 0
  ensures[restore] n > 0 ==> c.values == old(c.stateStack[n-1])
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*bigIntContext).PopDiscard(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack
  ensures[level] len(c.stateStack) == max(n - 1, 0) && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*bigIntContext).ClearStateStack(c)
  nopanic
  requires c != nil
  modifies c.stateStack
  ensures[cleared] len(c.stateStack) == 0

func contexts.(*bigIntContext).InitState(c)
  nopanic
  requires c != nil
  modifies c.values
  ensures[empty] fresh(c.values) && forall h int32 :: !has(c.values, h)

// ---- runtime: call parameters, executing instance
def callValue(i) = i.CallValue == nil ? 0 : big(i.CallValue)
pred sameESDT(a, b) = a != nil && a.ESDTValue != nil && big(a.ESDTValue) == big(b.ESDTValue) && a.ESDTTokenType == b.ESDTTokenType && a.ESDTTokenNonce == b.ESDTTokenNonce && str(a.ESDTTokenName) == str(b.ESDTTokenName)
pred sameScalars(a, b) = a.CallType == b.CallType && a.GasPrice == b.GasPrice && a.GasProvided == b.GasProvided && a.GasLocked == b.GasLocked && a.ReturnCallAfterError == b.ReturnCallAfterError && a.CallValue != nil && big(a.CallValue) == callValue(b)
pred sameBytes(a, b) = str(a.CallerAddr) == str(b.CallerAddr) && str(a.OriginalTxHash) == str(b.OriginalTxHash) && str(a.CurrentTxHash) == str(b.CurrentTxHash) && str(a.PrevTxHash) == str(b.PrevTxHash)
pred sameArgs(a, b) = len(a.Arguments) == len(b.Arguments) && forall i int :: 0 <= i && i < len(b.Arguments) ==> str(a.Arguments[i]) == str(b.Arguments[i])
pred sameTransfers(a, b) = len(a.ESDTTransfers) == len(b.ESDTTransfers) && forall i int :: 0 <= i && i < len(b.ESDTTransfers) ==> sameESDT(a.ESDTTransfers[i], b.ESDTTransfers[i])
pred inputOk(i) = i != nil ==> forall j int :: 0 <= j && j < len(i.ESDTTransfers) ==> i.ESDTTransfers[j] != nil && i.ESDTTransfers[j].ESDTValue != nil

func contexts.(*runtimeContext).SetVMInput(c, in)
  nopanic
  requires c != nil && inputOk(in)
  modifies c.vmInput
  ensures[nil] in == nil ==> c.vmInput == nil
  ensures[fresh] in != nil ==> fresh(c.vmInput)
  ensures[scalars] in != nil ==> sameScalars(c.vmInput, in)
  ensures[bytes] in != nil ==> sameBytes(c.vmInput, in)
  ensures[args] in != nil ==> sameArgs(c.vmInput, in)
  ensures[transfers] in != nil ==> sameTransfers(c.vmInput, in)
  inv forall j int :: 0 <= j && j < iter && j < len(in.ESDTTransfers) ==> sameESDT(c.vmInput.ESDTTransfers[j], in.ESDTTransfers[j])
  inv forall j int :: 0 <= j && j < iter && j < len(in.Arguments) ==> str(c.vmInput.Arguments[j]) == str(in.Arguments[j])

pred savedInput(a, b) = (b == nil <==> a == nil) && (b != nil ==> fresh(a) && sameScalars(a, b) && sameBytes(a, b) && sameArgs(a, b) && sameTransfers(a, b))
pred sameFrame(s, c) = str(s.scAddress) == old(str(c.scAddress)) && s.callFunction == old(c.callFunction) && s.codeSize == old(c.codeSize) && (s.readOnly <==> old(c.readOnly)) && s.asyncCallInfo == old(c.asyncCallInfo) && s.asyncContextInfo == old(c.asyncContextInfo)

func contexts.(*runtimeContext).PushState(c)
  nopanic
  requires c != nil && inputOk(c.vmInput)
  let n = len(c.stateStack)
  let k = len(c.instanceStack)
  modifies c.stateStack, elems(c.stateStack), c.instanceStack, elems(c.instanceStack)
  ensures[push] len(c.stateStack) == n + 1 && fresh(c.stateStack[n])
  ensures[frame] sameFrame(c.stateStack[n], c)
  ensures[input] savedInput(c.stateStack[n].vmInput, c.vmInput)
  ensures[ok] fresh(c.stateStack[len(c.stateStack)-1]) && inputOk(c.stateStack[len(c.stateStack)-1].vmInput)
  ensures[below] forall i int :: 0 <= i && i < n ==> c.stateStack[i] == old(c.stateStack[i])
  ensures[instance] len(c.instanceStack) == k + 1 && c.instanceStack[k] == c.instance
  ensures[instances] forall i int :: 0 <= i && i < k ==> c.instanceStack[i] == old(c.instanceStack[i])

// the instance saved with the state runs again; the callee's own instance is released
func contexts.(*runtimeContext).PopSetActiveState(c)
  nopanic
  requires c != nil && (len(c.stateStack) > 0 ==> c.stateStack[len(c.stateStack)-1] != nil && inputOk(c.stateStack[len(c.stateStack)-1].vmInput))
  let n = len(c.stateStack)
  let k = len(c.instanceStack)
  let s = c.stateStack[n-1]
  modifies c.stateStack, c.instanceStack, c.instance, c.vmInput, c.scAddress, c.callFunction, c.codeSize, c.readOnly, c.asyncCallInfo, c.asyncContextInfo
  ensures[empty] n == 0 ==> len(c.stateStack) == 0 && sameFrame(c, c) && c.vmInput == old(c.vmInput) && c.instance == old(c.instance) && len(c.instanceStack) == k
  ensures[frame] n > 0 ==> sameFrame(c, old(c.stateStack[n-1]))
  ensures[input] n > 0 ==> savedInput(c.vmInput, old(c.stateStack[n-1].vmInput))
  ensures[ok] n > 0 ==> inputOk(c.vmInput)
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])
  ensures[instance] n > 0 && k > 0 ==> c.instance == old(c.instanceStack[k-1])
  ensures[instances] n > 0 && k > 0 ==> len(c.instanceStack) == k - 1 && forall i int :: 0 <= i && i < k - 1 ==> c.instanceStack[i] == old(c.instanceStack[i])

func contexts.(*runtimeContext).PopDiscard(c)
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  let k = len(c.instanceStack)
  modifies c.stateStack, c.instanceStack, c.instance
  ensures[level] len(c.stateStack) == max(n - 1, 0) && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])
  ensures[instance] n > 0 && k > 0 ==> c.instance == old(c.instanceStack[k-1]) && len(c.instanceStack) == k - 1

func contexts.(*runtimeContext).ClearStateStack(c)
  nopanic
  requires c != nil
  modifies c.stateStack
  ensures[cleared] len(c.stateStack) == 0

// contracts already running below the current one
func contexts.(*runtimeContext).IsContractOnTheStack(c, address)
  nopanic
  requires c != nil && forall i int :: 0 <= i && i < len(c.stateStack) ==> c.stateStack[i] != nil
  modifies nothing
  ensures[found] result <==> exists i int :: 0 <= i && i < len(c.stateStack) && str(c.stateStack[i].scAddress) == str(address)
  inv forall i int :: 0 <= i && i < iter && i < len(c.stateStack) ==> str(c.stateStack[i].scAddress) != str(address)

func contexts.(*runtimeContext).InitStateFromContractCallInput(c, in)
  nopanic
  requires c != nil && in != nil && forall j int :: 0 <= j && j < len(in.ESDTTransfers) ==> in.ESDTTransfers[j] != nil && in.ESDTTransfers[j].ESDTValue != nil
  modifies c.vmInput, c.scAddress, c.callFunction, c.asyncContextInfo
  ensures[frame] str(c.scAddress) == str(in.RecipientAddr) && c.callFunction == in.Function
  ensures[input] fresh(c.vmInput) && sameScalars(c.vmInput, in) && sameBytes(c.vmInput, in) && sameArgs(c.vmInput, in) && sameTransfers(c.vmInput, in)
  ensures[async] fresh(c.asyncContextInfo) && str(c.asyncContextInfo.CallerAddr) == str(in.CallerAddr) && forall k string :: !has(c.asyncContextInfo.AsyncContextMap, k)
