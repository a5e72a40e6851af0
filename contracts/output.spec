property P07

pred sameOut(a, b) = a.Value == old(b.Value) && a.GasLimit == old(b.GasLimit) && a.GasLocked == old(b.GasLocked) && str(a.Data) == old(str(b.Data)) && a.CallType == old(b.CallType) && str(a.SenderAddress) == old(str(b.SenderAddress))

func contexts.mergeStorageUpdates(l, r)
  helper nopanic
  requires l != nil && r != nil && l != r && (l.StorageUpdates == nil || l.StorageUpdates != r.StorageUpdates)
  let R = r.StorageUpdates
  modifies l.StorageUpdates, map(l.StorageUpdates)
  ensures[map] l.StorageUpdates != nil && (l.StorageUpdates == old(l.StorageUpdates) || fresh(l.StorageUpdates))
  ensures[keys] forall s string :: has(l.StorageUpdates, s) <==> old(has(l.StorageUpdates, s)) || has(R, s)
  ensures[newer] forall s string :: has(R, s) ==> l.StorageUpdates[s] == R[s]
  ensures[older] forall s string :: old(has(l.StorageUpdates, s)) && !has(R, s) ==> l.StorageUpdates[s] == old(l.StorageUpdates[s])
  inv forall s string :: has(l.StorageUpdates, s) <==> old(has(l.StorageUpdates, s)) || visited(s)
  inv forall s string :: visited(s) ==> l.StorageUpdates[s] == R[s]
  inv forall s string :: old(has(l.StorageUpdates, s)) && !visited(s) ==> l.StorageUpdates[s] == old(l.StorageUpdates[s])

func contexts.mergeOutputAccounts(l, r)
  helper nopanic
  requires l != nil && r != nil && l != r && (l.StorageUpdates == nil || l.StorageUpdates != r.StorageUpdates)
  let R = r.StorageUpdates
  let n = len(l.OutputTransfers)
  modifies l.Address, l.StorageUpdates, map(l.StorageUpdates), l.Balance, l.BalanceDelta, l.Code, l.CodeMetadata, l.Nonce, l.OutputTransfers, elems(l.OutputTransfers), l.GasUsed, l.CodeDeployerAddress
  ensures[address] str(l.Address) == (len(r.Address) != 0 ? str(r.Address) : old(str(l.Address)))
  ensures[nonce] l.Nonce == max(old(l.Nonce), r.Nonce)
  ensures[balance] l.Balance == (r.Balance != nil ? r.Balance : old(l.Balance))
  ensures[delta] l.BalanceDelta != nil && big(l.BalanceDelta) == (r.BalanceDelta != nil ? big(r.BalanceDelta) : old(l.BalanceDelta) != nil ? old(big(l.BalanceDelta)) : 0)
  ensures[code] str(l.Code) == (len(r.Code) > 0 ? str(r.Code) : old(str(l.Code)))
  ensures[metadata] str(l.CodeMetadata) == (len(r.CodeMetadata) > 0 ? str(r.CodeMetadata) : old(str(l.CodeMetadata)))
  ensures[deployer] str(l.CodeDeployerAddress) == (r.CodeDeployerAddress != nil ? str(r.CodeDeployerAddress) : old(str(l.CodeDeployerAddress)))
  ensures[ntransfers] len(l.OutputTransfers) == max(n, len(r.OutputTransfers))
  ensures[transfers] forall i int :: 0 <= i && i < n ==> sameOut(l.OutputTransfers[i], old(l.OutputTransfers[i]))
  ensures[transfers2] forall i int :: n <= i && i < len(l.OutputTransfers) ==> sameOut(l.OutputTransfers[i], old(r.OutputTransfers[i]))
  ensures[array] base(l.OutputTransfers) == old(base(l.OutputTransfers)) || fresh(l.OutputTransfers)
  ensures[map] l.StorageUpdates != nil && (l.StorageUpdates == old(l.StorageUpdates) || fresh(l.StorageUpdates))
  ensures[keys] forall s string :: has(l.StorageUpdates, s) <==> old(has(l.StorageUpdates, s)) || has(R, s)
  ensures[newer] forall s string :: has(R, s) ==> l.StorageUpdates[s] == R[s]
  ensures[older] forall s string :: old(has(l.StorageUpdates, s)) && !has(R, s) ==> l.StorageUpdates[s] == old(l.StorageUpdates[s])
  ensures[gas] l.GasUsed == r.GasUsed

// ---- whole outputs
pred accsOk(m) = forall k string :: has(m, k) ==> m[k] != nil && str(m[k].Address) == k
// no two accounts share a storage map or a transfer array
pred ownMaps(m) = forall j string, k string :: has(m, j) && has(m, k) && j != k ==> m[j].StorageUpdates == nil || m[j].StorageUpdates != m[k].StorageUpdates
pred ownArrays(m) = forall j string, k string :: has(m, j) && has(m, k) && j != k ==> m[j].OutputTransfers == nil || base(m[j].OutputTransfers) != base(m[k].OutputTransfers)
pred otherAccs(m, q) = forall j string, k string :: has(m, j) && has(q, k) ==> m[j] != q[k]
pred otherMaps(m, q) = forall j string, k string :: has(m, j) && has(q, k) ==> m[j].StorageUpdates == nil || m[j].StorageUpdates != q[k].StorageUpdates
pred otherArrays(m, q) = forall j string, k string :: has(m, j) && has(q, k) ==> m[j].OutputTransfers == nil || base(m[j].OutputTransfers) != base(q[k].OutputTransfers)
pred sameFields(a, b) = a.Address == old(b.Address) && a.Nonce == old(b.Nonce) && a.Balance == old(b.Balance) && a.BalanceDelta == old(b.BalanceDelta) && a.StorageUpdates == old(b.StorageUpdates) && a.Code == old(b.Code) && a.CodeMetadata == old(b.CodeMetadata) && a.OutputTransfers == old(b.OutputTransfers) && a.GasUsed == old(b.GasUsed) && a.CodeDeployerAddress == old(b.CodeDeployerAddress)

// what the callee's account k does to the caller's
pred mergedNums(L, R, k) = L[k].Nonce == max(old(has(L, k)) ? old(L[k].Nonce) : 0, R[k].Nonce) && L[k].GasUsed == R[k].GasUsed && L[k].Balance == (R[k].Balance != nil ? R[k].Balance : old(has(L, k)) ? old(L[k].Balance) : nil)
pred mergedDelta(L, R, k) = L[k].BalanceDelta != nil && big(L[k].BalanceDelta) == (R[k].BalanceDelta != nil ? big(R[k].BalanceDelta) : old(has(L, k) && L[k].BalanceDelta != nil) ? old(big(L[k].BalanceDelta)) : 0)
pred mergedCode(L, R, k) = (len(R[k].Code) > 0 ==> str(L[k].Code) == str(R[k].Code)) && (len(R[k].Code) == 0 ==> str(L[k].Code) == (old(has(L, k)) ? old(str(L[k].Code)) : ""))
pred mergedMeta(L, R, k) = (len(R[k].CodeMetadata) > 0 ==> str(L[k].CodeMetadata) == str(R[k].CodeMetadata)) && (len(R[k].CodeMetadata) == 0 ==> str(L[k].CodeMetadata) == (old(has(L, k)) ? old(str(L[k].CodeMetadata)) : ""))
pred mergedCount(L, R, k) = len(L[k].OutputTransfers) == max(old(has(L, k)) ? old(len(L[k].OutputTransfers)) : 0, len(R[k].OutputTransfers))

func contexts.mergeVMOutputs(l, r)
  helper nopanic nomerge
  requires l != nil && r != nil && l != r && l.OutputAccounts != nil && l.OutputAccounts != r.OutputAccounts
  requires accsOk(l.OutputAccounts) && accsOk(r.OutputAccounts)
  requires ownMaps(l.OutputAccounts) && ownArrays(l.OutputAccounts)
  requires otherAccs(l.OutputAccounts, r.OutputAccounts) && otherMaps(l.OutputAccounts, r.OutputAccounts) && otherArrays(l.OutputAccounts, r.OutputAccounts)
  let L = l.OutputAccounts
  let R = r.OutputAccounts
  let nl = len(l.Logs)
  let nd = len(l.ReturnData)
  modifies obj(l), map(L), heap F:vmcommon.OutputAccount.*, heap F:vmcommon.OutputTransfer.*, heap M:string:*vmcommon.StorageUpdate.*, elems(l.Logs), elems(l.ReturnData)
  ensures[accounts] l.OutputAccounts == L && forall k string :: has(L, k) <==> old(has(L, k)) || has(R, k)
  ensures[kept] forall k string :: old(has(L, k)) ==> L[k] == old(L[k])
  ensures[older] forall k string :: old(has(L, k)) && !has(R, k) ==> sameFields(L[k], L[k])
  ensures[new] forall k string :: has(R, k) && !old(has(L, k)) ==> fresh(L[k])
  ensures[callee] forall k string :: has(R, k) ==> sameFields(R[k], R[k])
  ensures[accsok] accsOk(L) && accsOk(R)
  ensures[numbers] forall k string :: has(R, k) ==> mergedNums(L, R, k)
  ensures[delta] forall k string :: has(R, k) ==> mergedDelta(L, R, k)
  ensures[code] forall k string :: has(R, k) ==> mergedCode(L, R, k)
  ensures[metadata] forall k string :: has(R, k) ==> mergedMeta(L, R, k)
  ensures[transfers] forall k string :: has(R, k) ==> mergedCount(L, R, k)
  ensures[nlogs] len(l.Logs) == nl + len(r.Logs)
  ensures[logs] (forall i int :: 0 <= i && i < nl ==> l.Logs[i] == old(l.Logs[i])) && forall i int :: nl <= i && i < nl + len(r.Logs) ==> l.Logs[i] == old(r.Logs[i - nl])
  ensures[ndata] len(l.ReturnData) == nd + len(r.ReturnData)
  ensures[data] (forall i int :: 0 <= i && i < nd ==> str(l.ReturnData[i]) == old(str(l.ReturnData[i]))) && forall i int :: nd <= i && i < nd + len(r.ReturnData) ==> str(l.ReturnData[i]) == old(str(r.ReturnData[i - nd]))
  ensures[status] l.GasRemaining == r.GasRemaining && l.ReturnCode == r.ReturnCode && l.ReturnMessage == r.ReturnMessage
  ensures[refund] l.GasRefund != nil && big(l.GasRefund) == (r.GasRefund != nil ? big(r.GasRefund) : old(l.GasRefund) != nil ? old(big(l.GasRefund)) : 0)
  inv forall k string :: has(L, k) <==> old(has(L, k)) || visited(k)
  inv forall k string :: old(has(L, k)) ==> L[k] == old(L[k])
  inv forall k string :: visited(k) && !old(has(L, k)) ==> fresh(L[k])
  inv accsOk(L)
  inv accsOk(R)
  inv forall k string :: has(R, k) ==> sameFields(R[k], R[k])
  inv forall k string :: has(L, k) ==> fresh(L[k].StorageUpdates) || old(has(L, k)) && L[k].StorageUpdates == old(L[k].StorageUpdates)
  inv otherAccs(L, R)
  inv forall k string :: has(R, k) ==> !fresh(R[k].StorageUpdates)
  inv forall k string :: has(L, k) && has(R, k) ==> L[k].StorageUpdates == nil || L[k].StorageUpdates != R[k].StorageUpdates
  inv forall k string :: old(has(L, k)) && !visited(k) ==> sameFields(L[k], L[k])
  inv forall k string :: visited(k) ==> mergedNums(L, R, k)
  inv forall k string :: visited(k) ==> mergedDelta(L, R, k)
  inv forall k string :: visited(k) ==> mergedCode(L, R, k)
  inv forall k string :: visited(k) ==> mergedMeta(L, R, k)
  inv forall k string :: visited(k) ==> mergedCount(L, R, k)

// ---- the stack of outputs of enclosing calls
pred outOk(o) = o != nil && o.OutputAccounts != nil && o.GasRefund != nil && accsOk(o.OutputAccounts) && ownMaps(o.OutputAccounts) && ownArrays(o.OutputAccounts)

func contexts.(*outputContext).PushState(c)
  also P03
  nopanic
  requires c != nil && outOk(c.outputState)
  let n = len(c.stateStack)
  let o = c.outputState
  modifies c.stateStack, elems(c.stateStack), heap F:vmcommon.OutputAccount.*, heap F:vmcommon.OutputTransfer.*, heap M:string:*vmcommon.StorageUpdate.*
  ensures[unchanged] c.outputState == old(c.outputState) && o.OutputAccounts == old(o.OutputAccounts) && forall k string :: has(o.OutputAccounts, k) ==> sameFields(o.OutputAccounts[k], o.OutputAccounts[k])
  ensures[push] len(c.stateStack) == n + 1 && fresh(c.stateStack[n]) && fresh(c.stateStack[n].OutputAccounts)
  ensures[below] forall i int :: 0 <= i && i < n ==> c.stateStack[i] == old(c.stateStack[i])
  ensures[keys] forall k string :: has(c.stateStack[n].OutputAccounts, k) <==> has(o.OutputAccounts, k)
  ensures[copies] forall k string :: has(o.OutputAccounts, k) ==> fresh(c.stateStack[n].OutputAccounts[k])
  ensures[numbers] forall k string :: has(o.OutputAccounts, k) ==> c.stateStack[n].OutputAccounts[k].Nonce == o.OutputAccounts[k].Nonce && c.stateStack[n].OutputAccounts[k].GasUsed == o.OutputAccounts[k].GasUsed && c.stateStack[n].OutputAccounts[k].Balance == o.OutputAccounts[k].Balance
  ensures[delta] forall k string :: has(o.OutputAccounts, k) && o.OutputAccounts[k].BalanceDelta != nil ==> big(c.stateStack[n].OutputAccounts[k].BalanceDelta) == big(o.OutputAccounts[k].BalanceDelta)
  ensures[code] forall k string :: has(o.OutputAccounts, k) ==> str(c.stateStack[n].OutputAccounts[k].Code) == str(o.OutputAccounts[k].Code) && str(c.stateStack[n].OutputAccounts[k].CodeMetadata) == str(o.OutputAccounts[k].CodeMetadata)
  ensures[transfers] forall k string :: has(o.OutputAccounts, k) ==> len(c.stateStack[n].OutputAccounts[k].OutputTransfers) == len(o.OutputAccounts[k].OutputTransfers)
  ensures[logs] len(c.stateStack[n].Logs) == len(o.Logs) && forall i int :: 0 <= i && i < len(o.Logs) ==> c.stateStack[n].Logs[i] == o.Logs[i]
  ensures[data] len(c.stateStack[n].ReturnData) == len(o.ReturnData) && forall i int :: 0 <= i && i < len(o.ReturnData) ==> str(c.stateStack[n].ReturnData[i]) == str(o.ReturnData[i])
  ensures[status] c.stateStack[n].GasRemaining == o.GasRemaining && c.stateStack[n].ReturnCode == o.ReturnCode && c.stateStack[n].ReturnMessage == o.ReturnMessage && big(c.stateStack[n].GasRefund) == big(o.GasRefund)

func contexts.(*outputContext).PopSetActiveState(c)
  also P03
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack, c.outputState
  ensures[empty] n == 0 ==> len(c.stateStack) == 0 && c.outputState == old(c.outputState)
  ensures[restore] n > 0 ==> c.outputState == old(c.stateStack[n-1])
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*outputContext).PopDiscard(c)
  also P03
  nopanic
  requires c != nil
  let n = len(c.stateStack)
  modifies c.stateStack
  ensures[level] len(c.stateStack) == max(n - 1, 0) && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])

func contexts.(*outputContext).ClearStateStack(c)
  also P03
  nopanic
  requires c != nil
  modifies c.stateStack
  ensures[cleared] len(c.stateStack) == 0

func contexts.(*outputContext).CensorVMOutput(c)
  also P03
  nopanic
  requires c != nil && c.outputState != nil
  let o = c.outputState
  modifies o.ReturnData, o.ReturnCode, o.ReturnMessage, o.GasRemaining, o.GasRefund, o.Logs
  ensures[isolated] len(o.ReturnData) == 0 && o.ReturnCode == vmcommon.Ok && o.ReturnMessage == "" && o.GasRemaining == 0 && len(o.Logs) == 0
  ensures[refund] o.GasRefund != nil && big(o.GasRefund) == 0

func contexts.(*outputContext).PopMergeActiveState(c)
  also P03
  nopanic
  requires c != nil && outOk(c.outputState)
  requires forall i int :: 0 <= i && i < len(c.stateStack) ==> outOk(c.stateStack[i]) && c.stateStack[i] != c.outputState && c.stateStack[i].OutputAccounts != c.outputState.OutputAccounts && (c.stateStack[i].Logs == nil || base(c.stateStack[i].Logs) != base(c.outputState.Logs)) && (c.stateStack[i].ReturnData == nil || base(c.stateStack[i].ReturnData) != base(c.outputState.ReturnData))
  requires forall i int :: 0 <= i && i < len(c.stateStack) ==> otherAccs(c.stateStack[i].OutputAccounts, c.outputState.OutputAccounts) && otherMaps(c.stateStack[i].OutputAccounts, c.outputState.OutputAccounts) && otherArrays(c.stateStack[i].OutputAccounts, c.outputState.OutputAccounts)
  let n = len(c.stateStack)
  let p = c.stateStack[n-1]
  let r = c.outputState
  let L = p.OutputAccounts
  let R = r.OutputAccounts
  let nl = len(p.Logs)
  let nd = len(p.ReturnData)
  modifies c.stateStack, c.outputState, obj(p), map(L), heap F:vmcommon.OutputAccount.*, heap F:vmcommon.OutputTransfer.*, heap M:string:*vmcommon.StorageUpdate.*, elems(p.Logs), elems(p.ReturnData)
  ensures[empty] n == 0 ==> len(c.stateStack) == 0 && c.outputState == r
  ensures[level] n > 0 ==> len(c.stateStack) == n - 1 && forall i int :: 0 <= i && i < n - 1 ==> c.stateStack[i] == old(c.stateStack[i])
  ensures[accounts] n > 0 ==> forall k string :: has(c.outputState.OutputAccounts, k) <==> old(has(L, k)) || has(R, k)
  ensures[refund] n > 0 ==> big(c.outputState.GasRefund) == old(big(p.GasRefund)) + old(big(r.GasRefund))
  ensures[status] n > 0 ==> c.outputState.ReturnCode == old(r.ReturnCode) && c.outputState.ReturnMessage == old(r.ReturnMessage) && c.outputState.GasRemaining == old(r.GasRemaining)
  ensures[logs] n > 0 ==> len(c.outputState.Logs) == nl + old(len(r.Logs))
  ensures[logs] n > 0 ==> forall i int :: 0 <= i && i < nl ==> c.outputState.Logs[i] == old(p.Logs[i])
  ensures[logs] n > 0 ==> forall i int :: nl <= i && i < nl + old(len(r.Logs)) ==> c.outputState.Logs[i] == old(r.Logs[i - nl])
  ensures[callee] n > 0 ==> forall k string :: has(R, k) && old(R[k].BalanceDelta) != nil ==> big(c.outputState.OutputAccounts[k].BalanceDelta) == old(big(R[k].BalanceDelta))
  ensures[calleegas] n > 0 ==> forall k string :: has(R, k) ==> c.outputState.OutputAccounts[k].GasUsed == old(R[k].GasUsed) && c.outputState.OutputAccounts[k].Nonce == max(old(has(L, k)) ? old(L[k].Nonce) : 0, old(R[k].Nonce))
  ensures[caller] n > 0 ==> forall k string :: old(has(L, k)) && !has(R, k) ==> c.outputState.OutputAccounts[k].GasUsed == old(L[k].GasUsed) && c.outputState.OutputAccounts[k].Nonce == old(L[k].Nonce)
  ensures[callerdelta] n > 0 ==> forall k string :: old(has(L, k)) && !has(R, k) && old(L[k].BalanceDelta) != nil ==> big(c.outputState.OutputAccounts[k].BalanceDelta) == old(big(L[k].BalanceDelta))

// ---- results of built-in functions executed for the current contract
pred ownDeltas(m) = forall j string, k string :: has(m, j) && has(m, k) && j != k ==> m[j].BalanceDelta == nil || m[j].BalanceDelta != m[k].BalanceDelta
pred otherDeltas(m, q) = forall j string, k string :: has(m, j) && has(q, k) ==> m[j].BalanceDelta != q[k].BalanceDelta

func contexts.(*outputContext).AddToActiveState(c, r)
  nopanic nomerge
  requires c != nil && outOk(c.outputState) && r != nil && r != c.outputState && c.outputState.OutputAccounts != r.OutputAccounts
  requires accsOk(r.OutputAccounts) && ownDeltas(r.OutputAccounts)
  requires otherAccs(c.outputState.OutputAccounts, r.OutputAccounts) && otherMaps(c.outputState.OutputAccounts, r.OutputAccounts) && otherArrays(c.outputState.OutputAccounts, r.OutputAccounts) && otherDeltas(c.outputState.OutputAccounts, r.OutputAccounts)
  requires forall k string :: has(c.outputState.OutputAccounts, k) ==> c.outputState.OutputAccounts[k].BalanceDelta != nil && c.outputState.OutputAccounts[k].BalanceDelta != r.GasRefund
  requires r.GasRefund == nil || r.GasRefund != c.outputState.GasRefund
  requires forall k string :: has(r.OutputAccounts, k) ==> r.OutputAccounts[k].BalanceDelta == nil || r.OutputAccounts[k].BalanceDelta != r.GasRefund
  requires forall k string :: has(r.OutputAccounts, k) ==> r.OutputAccounts[k].BalanceDelta == nil || r.OutputAccounts[k].BalanceDelta != c.outputState.GasRefund
  let l = c.outputState
  let L = l.OutputAccounts
  let R = r.OutputAccounts
  let nl = len(l.Logs)
  let nd = len(l.ReturnData)
  modifies obj(l), map(L), heap F:vmcommon.OutputAccount.*, heap F:vmcommon.OutputTransfer.*, heap M:string:*vmcommon.StorageUpdate.*, elems(l.Logs), elems(l.ReturnData), heap big*
  ensures[accounts] c.outputState == l && l.OutputAccounts == L && forall k string :: has(L, k) <==> old(has(L, k)) || has(R, k)
  ensures[older] forall k string :: old(has(L, k)) && !has(R, k) ==> L[k] == old(L[k]) && sameFields(L[k], L[k]) && big(L[k].BalanceDelta) == old(big(L[k].BalanceDelta))
  ensures[delta] forall k string :: has(R, k) && old(R[k].BalanceDelta) != nil ==> big(L[k].BalanceDelta) == old(big(R[k].BalanceDelta)) + (old(has(L, k)) ? old(big(L[k].BalanceDelta)) : 0)
  ensures[transfers] forall k string :: has(R, k) ==> len(L[k].OutputTransfers) == (old(has(L, k)) ? old(len(L[k].OutputTransfers)) : 0) + old(len(R[k].OutputTransfers))
  ensures[nonce] forall k string :: has(R, k) ==> L[k].Nonce == max(old(has(L, k)) ? old(L[k].Nonce) : 0, old(R[k].Nonce))
  ensures[nlogs] len(l.Logs) == nl + len(r.Logs)
  ensures[logs] (forall i int :: 0 <= i && i < nl ==> l.Logs[i] == old(l.Logs[i])) && forall i int :: nl <= i && i < nl + len(r.Logs) ==> l.Logs[i] == old(r.Logs[i - nl])
  ensures[ndata] len(l.ReturnData) == nd + len(r.ReturnData)
  ensures[data] forall i int :: 0 <= i && i < nd ==> str(l.ReturnData[i]) == old(str(l.ReturnData[i]))
  ensures[data2] forall i int :: nd <= i && i < nd + len(r.ReturnData) ==> str(l.ReturnData[i]) == old(str(r.ReturnData[i - nd]))
  ensures[status] l.GasRemaining == r.GasRemaining && l.ReturnCode == r.ReturnCode && l.ReturnMessage == r.ReturnMessage
  ensures[refund] big(l.GasRefund) == old(big(l.GasRefund)) + (r.GasRefund != nil ? old(big(r.GasRefund)) : 0)
  inv forall k string :: has(R, k) ==> sameFields(R[k], R[k])
  inv accsOk(L)
  inv forall k string :: has(L, k) <==> old(has(L, k))
  inv forall k string :: has(L, k) ==> L[k] == old(L[k])
  inv forall k string :: has(L, k) ==> L[k].BalanceDelta == old(L[k].BalanceDelta) && L[k].StorageUpdates == old(L[k].StorageUpdates) && L[k].Nonce == old(L[k].Nonce) && L[k].GasUsed == old(L[k].GasUsed)
  inv forall k string :: has(L, k) ==> big(L[k].BalanceDelta) == old(big(L[k].BalanceDelta))
  inv forall k string :: has(L, k) && !(visited(k) && has(R, k)) ==> L[k].OutputTransfers == old(L[k].OutputTransfers)
  inv forall k string :: has(L, k) && !has(R, k) ==> sameFields(L[k], L[k])
  inv forall k string :: has(R, k) && has(L, k) && R[k].BalanceDelta != nil && visited(k) ==> big(R[k].BalanceDelta) == old(big(R[k].BalanceDelta)) + old(big(L[k].BalanceDelta))
  inv forall k string :: has(R, k) && R[k].BalanceDelta != nil && (!visited(k) || !has(L, k)) ==> big(R[k].BalanceDelta) == old(big(R[k].BalanceDelta))
  inv forall k string :: has(R, k) && has(L, k) && visited(k) ==> len(L[k].OutputTransfers) == old(len(L[k].OutputTransfers)) + len(R[k].OutputTransfers)
  inv forall k string :: has(L, k) ==> fresh(L[k].OutputTransfers) || base(L[k].OutputTransfers) == old(base(L[k].OutputTransfers))
  inv ownArrays(L)
  inv r.GasRefund != nil ==> big(r.GasRefund) == old(big(r.GasRefund)) + old(big(l.GasRefund))
  inv big(l.GasRefund) == old(big(l.GasRefund))

// ---- the code changes reported at the end
func contexts.(*outputContext).removeNonUpdatedCode(c)
  helper nopanic
  requires c != nil && outOk(c.outputState)
  let M = c.outputState.OutputAccounts
  modifies heap F:vmcommon.OutputAccount.Code*, heap F:vmcommon.OutputAccount.CodeMetadata*, heap F:vmcommon.OutputAccount.CodeDeployerAddress*
  ensures[removed] forall k string :: has(M, k) && !has(c.codeUpdates, k) ==> M[k].Code == nil && len(M[k].Code) == 0 && len(M[k].CodeMetadata) == 0 && len(M[k].CodeDeployerAddress) == 0
  inv forall k string :: visited(k) && !has(c.codeUpdates, k) ==> M[k].Code == nil && len(M[k].Code) == 0 && len(M[k].CodeMetadata) == 0 && len(M[k].CodeDeployerAddress) == 0

func contexts.(*outputContext).DeployCode(c, input)
  nopanic
  requires c != nil && outputOk(c) && c.codeUpdates != nil
  let M = c.outputState.OutputAccounts
  let a = str(input.ContractAddress)
  modifies map(M), map(c.codeUpdates), M[a].Code, M[a].CodeMetadata, M[a].CodeDeployerAddress
  ensures[marked] has(c.codeUpdates, a) && forall k string :: k != a ==> (has(c.codeUpdates, k) <==> old(has(c.codeUpdates, k)))
  ensures[account] has(M, a) && (old(has(M, a)) ? M[a] == old(M[a]) : fresh(M[a])) && forall k string :: k != a ==> (has(M, k) <==> old(has(M, k))) && M[k] == old(M[k])
  ensures[code] str(M[a].Code) == str(input.ContractCode) && str(M[a].CodeMetadata) == str(input.ContractCodeMetadata) && str(M[a].CodeDeployerAddress) == str(input.CodeDeployerAddress)

func contexts.(*outputContext).Finish(c, data)
  nopanic
  requires c != nil && c.outputState != nil
  let o = c.outputState
  let n = len(o.ReturnData)
  modifies o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == str(data) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))

func contexts.(*outputContext).PrependFinish(c, data)
  nopanic
  requires c != nil && c.outputState != nil
  let o = c.outputState
  let n = len(o.ReturnData)
  modifies o.ReturnData
  ensures[prepend] len(o.ReturnData) == n + 1 && str(o.ReturnData[0]) == str(data) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i + 1]) == old(str(o.ReturnData[i]))

func contexts.(*outputContext).WriteLog(c, address, topics, data)
  also P04
  nopanic
  requires c != nil && c.outputState != nil && c.host != nil && rtOf(c) != nil
  let o = c.outputState
  let n = len(o.Logs)
  let ro = rtOf(c).readOnly
  modifies o.Logs, elems(o.Logs)
  ensures[readonly] ro ==> o.Logs == old(o.Logs) && forall i int :: 0 <= i && i < n ==> o.Logs[i] == old(o.Logs[i])
  ensures[append] !ro ==> len(o.Logs) == n + 1 && fresh(o.Logs[n]) && forall i int :: 0 <= i && i < n ==> o.Logs[i] == old(o.Logs[i])
  ensures[entry] !ro ==> str(o.Logs[n].Address) == str(address) && str(o.Logs[n].Data) == str(data)
  ensures[identifier] !ro && len(topics) > 0 ==> str(o.Logs[n].Identifier) == str(topics[0]) && len(o.Logs[n].Topics) == len(topics) - 1 && forall i int :: 1 <= i && i < len(topics) ==> str(o.Logs[n].Topics[i-1]) == str(topics[i])
  ensures[none] !ro && len(topics) == 0 ==> len(o.Logs[n].Topics) == 0 && len(o.Logs[n].Identifier) == 0

// ---- what a finished or failed execution reports
impl arwen.WrappableError = *arwen.wrappableError
trusted runtime.Caller(skip)
  pure
func contexts.(*runtimeContext).AddError(c, err, otherInfo)
  nopanic
  requires c != nil
  modifies c.errors
  ensures[none] err == nil ==> c.errors == old(c.errors)
  assumes is(err, *arwen.wrappableError) ==> err.(*arwen.wrappableError) != nil
  ensures[some] err != nil ==> c.errors != nil

def codeOf(e) = e == nil ? vmcommon.Ok : errIs(e, arwen.ErrSignalError) ? vmcommon.UserError : errIs(e, arwen.ErrFuncNotFound) ? vmcommon.FunctionNotFound : errIs(e, arwen.ErrFunctionNonvoidSignature) ? vmcommon.FunctionWrongSignature : errIs(e, arwen.ErrInvalidFunction) ? vmcommon.UserError : errIs(e, arwen.ErrNotEnoughGas) ? vmcommon.OutOfGas : errIs(e, arwen.ErrContractNotFound) ? vmcommon.ContractNotFound : errIs(e, arwen.ErrContractInvalid) ? vmcommon.ContractInvalid : errIs(e, arwen.ErrUpgradeFailed) ? vmcommon.UpgradeFailed : errIs(e, arwen.ErrTransferInsufficientFunds) ? vmcommon.OutOfFunds : vmcommon.ExecutionFailed

ghost errmsg(Int) Str

func contexts.(*outputContext).CreateVMOutputInCaseOfError(c, err)
  nopanic
  requires c != nil && err != nil && c.host != nil && rtOf(c) != nil && c.host.meteringContext != nil && c.host.meteringContext.host == c.host && outOf(c) == c
  requires mOk(c.host.meteringContext) && outputOk(c) && rtOf(c).vmInput != nil
  let m = accounts(c)
  let me = str(rtOf(c).scAddress)
  modifies rtOf(c).errors, map(m), m[me].GasUsed
  ensures[new] result != nil && fresh(result)
  ensures[empty] result.GasRemaining == 0 && result.GasRefund != nil && big(result.GasRefund) == 0 && result.OutputAccounts == nil && len(result.ReturnData) == 0 && len(result.Logs) == 0 && len(result.DeletedAccounts) == 0 && len(result.TouchedAccounts) == 0
  ensures[ok] outputOk(c) && accounts(c) == m
  ensures[kept] forall k string :: old(has(m, k)) ==> has(m, k) && m[k] == old(m[k])
  ensures[added] forall k string :: has(m, k) && !old(has(m, k)) ==> k == me && fresh(m[k]) && fresh(m[k].StorageUpdates) && m[k].OutputTransfers == nil
  ensures[code] result.ReturnCode == codeOf(err)
  ensures[notok] result.ReturnCode != vmcommon.Ok
  ensures[signal] errIs(err, arwen.ErrSignalError) ==> result.ReturnMessage == c.outputState.ReturnMessage
  ensures[message] !errIs(err, arwen.ErrSignalError) && c.outputState.ReturnMessage != "" ==> result.ReturnMessage == c.outputState.ReturnMessage
  ensures[message2] !errIs(err, arwen.ErrSignalError) && c.outputState.ReturnMessage == "" ==> result.ReturnMessage == errmsg(ref(err))

func contexts.(*outputContext).GetVMOutput(c)
  nopanic
  requires c != nil && c.host != nil && rtOf(c) != nil && c.host.meteringContext != nil && c.host.meteringContext.host == c.host && outOf(c) == c
  requires mOk(c.host.meteringContext) && c.host.meteringContext.gasUsedByAccounts != nil && outputOk(c) && outOk(c.outputState) && rtOf(c).vmInput != nil
  let m = accounts(c)
  let o = c.outputState
  modifies rtOf(c).errors, o.GasRemaining, map(m), map(c.host.meteringContext.gasUsedByAccounts), heap F:vmcommon.OutputAccount.GasUsed*, heap F:vmcommon.OutputAccount.Code*, heap F:vmcommon.OutputAccount.CodeMetadata*, heap F:vmcommon.OutputAccount.CodeDeployerAddress*
  ensures[result] result == o || result.ReturnCode != vmcommon.Ok
  ensures[gasleft] result == o ==> result.GasRemaining == old(max(c.host.meteringContext.gasForExecution - pointsOf(rtOf(c)), 0))
  ensures[failed] result != o ==> result.GasRemaining == 0 && result.OutputAccounts == nil && len(result.ReturnData) == 0 && len(result.Logs) == 0
  ensures[status] o.ReturnCode == old(o.ReturnCode) && o.ReturnMessage == old(o.ReturnMessage) && o.OutputAccounts == m
  ensures[code] forall k string :: old(has(m, k)) && !has(c.codeUpdates, k) ==> len(m[k].Code) == 0 && len(m[k].CodeMetadata) == 0 && len(m[k].CodeDeployerAddress) == 0
  ensures[accounts] forall k string :: old(has(m, k)) ==> has(m, k) && m[k] == old(m[k])
  ensures[added] forall k string :: has(m, k) && !old(has(m, k)) ==> k == str(rtOf(c).scAddress) && fresh(m[k]) && fresh(m[k].StorageUpdates) && m[k].OutputTransfers == nil
  ensures[wellformed] result != nil && outOk(c.outputState) && outputOk(c)

func arwen.(*wrappableError).Unwrap(e)
  nopanic
  requires e != nil
  ensures[end] len(e.errsWithLocation) <= 1 ==> result == nil
  ensures[base] len(e.errsWithLocation) == 2 ==> result == old(e.errsWithLocation[0].err)
