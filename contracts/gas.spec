property P02

pred mOk(c) = c != nil && c.host != nil && c.host.runtimeContext != nil && c.host.outputContext != nil && c.gasSchedule != nil

func contexts.(*runtimeContext).GetPointsUsed(c)
  nopanic pure
  requires c != nil
  ensures[points] result == pointsOf(c)
  ensures[range] inU64(result)

func contexts.(*runtimeContext).SetPointsUsed(c, g)
  nopanic
  requires c != nil && c.instance != nil
  modifies $points
  ensures[set] $points == store(old($points), ref(c.instance), min(g, maxI64))

func contexts.(*meteringContext).UseGas(c, gas)
  nopanic
  requires mOk(c) && rtOf(c).instance != nil
  modifies $points
  ensures[charge] $points == store(old($points), ref(rtOf(c).instance), min(old(pointsOf(rtOf(c))) + gas, maxI64))

func contexts.(*meteringContext).RestoreGas(c, gas)
  nopanic
  requires mOk(c) && rtOf(c).instance != nil
  modifies $points
  let p = pointsOf(rtOf(c))
  ensures[restore] gas <= p ==> $points == store(old($points), ref(rtOf(c).instance), min(p - gas, maxI64))
  ensures[toomuch] gas > p ==> $points == old($points)

func contexts.(*meteringContext).GasLeft(c)
  nopanic pure
  requires mOk(c)
  ensures[left] result == max(c.gasForExecution - pointsOf(rtOf(c)), 0)

func contexts.(*meteringContext).UseGasBounded(c, gas)
  nopanic
  requires mOk(c) && rtOf(c).instance != nil
  modifies $points
  let left = max(c.gasForExecution - pointsOf(rtOf(c)), 0)
  ensures[refuse] gas >= left ==> result != nil && $points == old($points)
  ensures[accept] gas < left ==> result == nil && $points == store(old($points), ref(rtOf(c).instance), min(old(pointsOf(rtOf(c))) + gas, maxI64))

func contexts.(*meteringContext).BoundGasLimit(c, value)
  nopanic pure
  requires mOk(c)
  let left = max(c.gasForExecution - pointsOf(rtOf(c)), 0)
  ensures[atmost] result <= left
  ensures[value] value >= 0 ==> result == min(value, left)
  ensures[neg] value < 0 ==> result == min(value + maxU64 + 1, left)

func contexts.(*meteringContext).UseGasForAsyncStep(c)
  nopanic
  requires mOk(c) && rtOf(c).instance != nil
  modifies $points
  let left = max(c.gasForExecution - pointsOf(rtOf(c)), 0)
  let step = c.gasSchedule.ElrondAPICost.AsyncCallStep
  ensures[refuse] step >= left ==> result != nil && $points == old($points)
  ensures[accept] step < left ==> result == nil && $points == store(old($points), ref(rtOf(c).instance), min(old(pointsOf(rtOf(c))) + step, maxI64))

func contexts.(*meteringContext).FreeGas(c, gas)
  nopanic
  requires mOk(c) && outOf(c).outputState != nil && outOf(c).outputState.GasRefund != nil
  modifies outOf(c).outputState.GasRefund
  ensures[new] fresh(outOf(c).outputState.GasRefund)
  ensures[refund] big(outOf(c).outputState.GasRefund) == wrapI64(min(wrapU64(wrapI64(old(big(outOf(c).outputState.GasRefund)))) + gas, maxU64))

func contexts.(*meteringContext).GasSpentByContract(c)
  nopanic pure
  requires mOk(c)
  ensures[spent] result == min((v2(c.host) ? c.initialCost : 0) + pointsOf(rtOf(c)), maxU64)

func contexts.(*meteringContext).GasUsedForExecution(c)
  nopanic pure
  requires mOk(c)
  ensures[used] result == max(min((v2(c.host) ? c.initialCost : 0) + pointsOf(rtOf(c)), maxU64) - c.initialCost, 0)

func contexts.(*meteringContext).ComputeGasLockedForAsync(c)
  nopanic pure
  requires mOk(c)
  let perByte = c.host.flagAheadOfTime.value == 1 ? c.gasSchedule.BaseOperationCost.AoTPreparePerByte : c.gasSchedule.BaseOperationCost.CompilePerByte
  let compile = c.host.flagDynGasLock.value == 1 ? rtOf(c).codeSize * perByte : 0
  ensures[lock] result == min(compile + c.gasSchedule.ElrondAPICost.AsyncCallStep + c.gasSchedule.ElrondAPICost.AsyncCallbackGasLock, maxU64)

func contexts.(*meteringContext).DeductInitialGasForExecution(c, contract)
  nopanic
  requires mOk(c) && rtOf(c).vmInput != nil
  modifies c.initialCost, c.gasForExecution
  let aot = c.host.flagAheadOfTime.value == 1
  let cost = aot ? c.gasSchedule.BaseOperationCost.GetCode + len(contract) * c.gasSchedule.BaseOperationCost.AoTPreparePerByte : len(contract) * c.gasSchedule.BaseOperationCost.CompilePerByte
  let given = rtOf(c).vmInput.GasProvided
  ensures[deduct] cost <= given ==> result == nil && c.initialCost == cost && c.gasForExecution == given - cost
  ensures[refuse] cost > given && given < maxU64 ==> result != nil && c.initialCost == old(c.initialCost) && c.gasForExecution == old(c.gasForExecution)
  ensures[nomore] result == nil ==> c.gasForExecution <= given

func contexts.(*meteringContext).DeductInitialGasForDirectDeployment(c, input)
  nopanic
  requires mOk(c) && rtOf(c).vmInput != nil
  modifies c.initialCost, c.gasForExecution
  let cost = c.gasSchedule.ElrondAPICost.CreateContract + len(input.ContractCode) * c.gasSchedule.BaseOperationCost.CompilePerByte
  let given = rtOf(c).vmInput.GasProvided
  ensures[deduct] cost <= given ==> result == nil && c.initialCost == cost && c.gasForExecution == given - cost
  ensures[refuse] cost > given && given < maxU64 ==> result != nil && c.initialCost == old(c.initialCost) && c.gasForExecution == old(c.gasForExecution)

func contexts.(*meteringContext).DeductInitialGasForIndirectDeployment(c, input)
  nopanic
  requires mOk(c) && rtOf(c).vmInput != nil
  modifies c.initialCost, c.gasForExecution
  let cost = len(input.ContractCode) * c.gasSchedule.BaseOperationCost.CompilePerByte
  let given = rtOf(c).vmInput.GasProvided
  ensures[deduct] cost <= given ==> result == nil && c.initialCost == cost && c.gasForExecution == given - cost
  ensures[refuse] cost > given && given < maxU64 ==> result != nil && c.initialCost == old(c.initialCost) && c.gasForExecution == old(c.gasForExecution)

func contexts.(*meteringContext).TrackGasUsedByBuiltinFunction(c, bi, bo, pi)
  nopanic
  requires mOk(c) && rtOf(c).instance != nil && bi != nil && bo != nil
  modifies $points
  let spent = max(max(bi.GasProvided - bo.GasRemaining, 0) - (pi == nil ? 0 : pi.GasProvided), 0)
  ensures[charge] $points == store(old($points), ref(rtOf(c).instance), min(old(pointsOf(rtOf(c))) + spent, maxI64))

func contexts.(*meteringContext).InitState(c)
  nopanic
  requires c != nil
  modifies c.gasUsedByAccounts, c.initialGasProvided, c.initialCost, c.gasForExecution
  ensures[zero] c.initialGasProvided == 0 && c.initialCost == 0 && c.gasForExecution == 0
  ensures[empty] fresh(c.gasUsedByAccounts) && forall k string :: !has(c.gasUsedByAccounts, k)

func contexts.(*meteringContext).InitStateFromContractCallInput(c, input)
  nopanic
  requires c != nil && input != nil
  modifies c.gasUsedByAccounts, c.initialGasProvided, c.initialCost, c.gasForExecution, input.GasProvided, input.GasLocked
  let cb = input.CallType == vmcommon.AsynchronousCallBack
  let given = cb ? min(input.GasProvided + input.GasLocked, maxU64) : input.GasProvided
  ensures[given] c.initialGasProvided == given && c.gasForExecution == given && c.initialCost == 0
  ensures[unlock] input.GasProvided == given && input.GasLocked == (cb ? 0 : old(input.GasLocked))
  ensures[empty] fresh(c.gasUsedByAccounts) && forall k string :: !has(c.gasUsedByAccounts, k)

def transfersTo(a, n) = sumN(n, i, a.OutputTransfers[i].GasLimit + a.OutputTransfers[i].GasLocked)
def transfers(a) = transfersTo(a, len(a.OutputTransfers))
pred accountsOk(m) = m != nil && forall k string :: has(m, k) ==> m[k] != nil

func contexts.(*meteringContext).getGasTransferredByAccount(c, account)
  helper nopanic pure
  requires account != nil
  ensures[sum] result == min(old(transfers(account)), maxU64)
  inv {g uint64} g == min(old(transfersTo(account, iter)), maxU64)

func contexts.(*meteringContext).getCurrentTotalUsedGas(c)
  helper nopanic pure
  requires mOk(c) && outOf(c).outputState != nil && accountsOk(outOf(c).outputState.OutputAccounts)
  let m = outOf(c).outputState.OutputAccounts
  ensures[sum] result == min(sumMap(m, k, m[k].GasUsed + transfers(m[k])), maxU64)
  inv {g uint64} g == min(sumVisited(k, outOf(c).outputState.OutputAccounts[k].GasUsed + transfers(outOf(c).outputState.OutputAccounts[k])), maxU64)


func contexts.(*meteringContext).getGasUsedByAllOtherAccounts(c, accounts)
  helper nopanic pure
  requires mOk(c) && accountsOk(accounts)
  let me = str(rtOf(c).scAddress)
  ensures[sum] result == min(sumMap(accounts, k, (k != me ? c.gasUsedByAccounts[k] : 0) + transfers(accounts[k])), maxU64)
  inv {g uint64} g == min(sumVisited(k, (k != str(rtOf(c).scAddress) ? c.gasUsedByAccounts[k] : 0) + transfers(accounts[k])), maxU64)

func contexts.(*meteringContext).setGasUsedToOutputAccounts(c, o)
  helper nopanic
  requires c != nil && o != nil && accountsOk(o.OutputAccounts)
  requires forall j string, k string :: has(o.OutputAccounts, j) && has(o.OutputAccounts, k) && j != k ==> o.OutputAccounts[j] != o.OutputAccounts[k]
  let m = o.OutputAccounts
  modifies heap F:vmcommon.OutputAccount.GasUsed
  ensures[set] forall k string :: has(m, k) ==> m[k].GasUsed == (has(c.gasUsedByAccounts, k) ? c.gasUsedByAccounts[k] : 0)
  ensures[complete] result == nil <==> forall k string :: has(c.gasUsedByAccounts, k) ==> has(m, k)
  inv forall k string :: visited(k) ==> m[k].GasUsed == (has(c.gasUsedByAccounts, k) ? c.gasUsedByAccounts[k] : 0)
  inv forall k string :: visited(k) ==> has(m, k)
  inv forall k string :: has(m, k) ==> m[k].GasUsed == (has(c.gasUsedByAccounts, k) ? c.gasUsedByAccounts[k] : 0)

func contexts.(*meteringContext).checkGas(c, o)
  helper nopanic pure
  requires mOk(c) && o != nil && rtOf(c).vmInput != nil && outOf(c).outputState != nil && accountsOk(outOf(c).outputState.OutputAccounts)
  let m = outOf(c).outputState.OutputAccounts
  ensures[conserved] result == nil <==> !v2(c.host) || min(min(sumMap(m, k, m[k].GasUsed + transfers(m[k])), maxU64) + o.GasRemaining, maxU64) == c.initialGasProvided

func contexts.(*meteringContext).updateSCGasUsed(c)
  helper nopanic
  requires mOk(c) && c.gasUsedByAccounts != nil && outputOk(outOf(c)) && rtOf(c).vmInput != nil
  let me = str(rtOf(c).scAddress)
  modifies map(accounts(outOf(c))), map(c.gasUsedByAccounts)
  ensures[ok] outputOk(outOf(c)) && has(accounts(outOf(c)), me)
  ensures[kept] forall k string :: old(has(accounts(outOf(c)), k)) ==> has(accounts(outOf(c)), k) && accounts(outOf(c))[k] == old(accounts(outOf(c))[k])
  ensures[added] forall k string :: has(accounts(outOf(c)), k) && !old(has(accounts(outOf(c)), k)) ==> k == str(rtOf(c).scAddress) && fresh(accounts(outOf(c))[k]) && fresh(accounts(outOf(c))[k].StorageUpdates) && accounts(outOf(c))[k].OutputTransfers == nil
  ensures[others] forall k string :: k != me ==> (has(c.gasUsedByAccounts, k) <==> old(has(c.gasUsedByAccounts, k))) && c.gasUsedByAccounts[k] == old(c.gasUsedByAccounts[k])
  ensures[spent] has(c.gasUsedByAccounts, me) && c.gasUsedByAccounts[me] <= min((v2(c.host) ? c.initialCost : 0) + pointsOf(rtOf(c)), maxU64)

func contexts.(*meteringContext).UpdateGasStateOnSuccess(c, o)
  nopanic
  requires mOk(c) && c.gasUsedByAccounts != nil && outputOk(outOf(c)) && o == outOf(c).outputState && rtOf(c).vmInput != nil
  let m = o.OutputAccounts
  modifies map(m), map(c.gasUsedByAccounts), heap F:vmcommon.OutputAccount.GasUsed
  ensures[ok] outputOk(outOf(c)) && o.OutputAccounts == m
  ensures[kept] forall k string :: old(has(m, k)) ==> has(m, k) && m[k] == old(m[k])
  ensures[added] forall k string :: has(m, k) && !old(has(m, k)) ==> k == str(rtOf(c).scAddress) && fresh(m[k]) && fresh(m[k].StorageUpdates) && m[k].OutputTransfers == nil
  ensures[conserved] result == nil && v2(c.host) ==> min(min(sumMap(m, k, m[k].GasUsed + transfers(m[k])), maxU64) + o.GasRemaining, maxU64) == c.initialGasProvided
  ensures[reported] result == nil ==> forall k string :: has(m, k) ==> m[k].GasUsed == (has(c.gasUsedByAccounts, k) ? c.gasUsedByAccounts[k] : 0)

func contexts.(*meteringContext).UpdateGasStateOnFailure(c, o)
  nopanic
  requires mOk(c) && outputOk(outOf(c)) && rtOf(c).vmInput != nil
  let m = accounts(outOf(c))
  let me = str(rtOf(c).scAddress)
  modifies map(m), m[me].GasUsed
  ensures[ok] outputOk(outOf(c)) && accounts(outOf(c)) == m
  ensures[kept] forall k string :: old(has(m, k)) ==> has(m, k) && m[k] == old(m[k])
  ensures[added] forall k string :: has(m, k) && !old(has(m, k)) ==> k == me && fresh(m[k]) && fresh(m[k].StorageUpdates) && m[k].OutputTransfers == nil
  ensures[all] has(m, me) && m[me].GasUsed == min((old(has(m, me)) ? old(m[me].GasUsed) : 0) + c.initialGasProvided, maxU64)
