property P06

pred accOk(a) = a != nil && a.BalanceDelta != nil && a.StorageUpdates != nil
pred oaOk(m) = m != nil && forall k string :: has(m, k) ==> accOk(m[k]) && str(m[k].Address) == k
pred stateOk(o) = o != nil && oaOk(o.OutputAccounts) && o.GasRefund != nil
pred outputOk(o) = o != nil && o.host != nil && o.codeUpdates != nil && stateOk(o.outputState)
pred hostOk(h) = h != nil && h.outputContext != nil && h.runtimeContext != nil && h.blockchainContext != nil && h.meteringContext != nil && h.storageContext != nil
pred chainOk(b) = b != nil && b.blockChainHook != nil && hostOk(b.host) && outputOk(b.host.outputContext)

def accounts(o) = o.outputState.OutputAccounts
// what a transfer may have added to or taken from an account so far
def delta(o, k) = has(accounts(o), k) ? big(accounts(o)[k].BalanceDelta) : 0
pred noAcc(k) = chainErr($chain, k) != 0 || chainAcc($chain, k) == 0 || nilAcc(chainAcc($chain, k))
// the balance an account can spend
def spendable(o, k) = has(accounts(o), k)
| ? (accounts(o)[k].Balance != nil ? big(accounts(o)[k].Balance) + big(accounts(o)[k].BalanceDelta)
|   : noAcc(k) ? 0 : accBalance(chainAcc($chain, k)) + big(accounts(o)[k].BalanceDelta))
| : noAcc(k) ? 0 : accBalance(chainAcc($chain, k))

func contexts.(*outputContext).GetOutputAccount(c, address)
  nopanic
  requires outputOk(c)
  modifies map(accounts(c))
  let k = str(address)
  let m = accounts(c)
  ensures[ok] outputOk(c) && accounts(c) == m
  ensures[found] has(m, k) && m[k] == result0 && (result1 <==> !old(has(m, k)))
  ensures[old] old(has(m, k)) ==> result0 == old(m[k])
  ensures[new] result1 ==> fresh(result0) && result0.Nonce == 0 && result0.Balance == nil && big(result0.BalanceDelta) == 0 && fresh(result0.BalanceDelta) && fresh(result0.StorageUpdates) && len(result0.Code) == 0 && len(result0.CodeMetadata) == 0 && result0.OutputTransfers == nil && len(result0.OutputTransfers) == 0 && result0.GasUsed == 0 && result0.CodeDeployerAddress == nil && result0.Address == address
  ensures[nostorage] result1 ==> forall s string :: !has(result0.StorageUpdates, s)
  ensures[others] forall j string :: j != k ==> (has(m, j) <==> old(has(m, j))) && m[j] == old(m[j])

func contexts.(*blockchainContext).GetBalanceBigInt(c, address)
  nopanic
  requires chainOk(c)
  let o = c.host.outputContext
  let k = str(address)
  modifies map(accounts(o)), accounts(o)[k].Balance
  ensures[ok] outputOk(o) && accounts(o) == old(accounts(o)) && result != nil
  ensures[balance] big(result) == old(spendable(o, k))
  ensures[kept] forall j string :: spendable(o, j) == old(spendable(o, j)) && delta(o, j) == old(delta(o, j))
  ensures[address] forall b string :: has(accounts(o), b) ==> base(accounts(o)[b].Address) == base(address) || old(has(accounts(o), b)) && accounts(o)[b] == old(accounts(o)[b]) && base(accounts(o)[b].Address) == old(base(accounts(o)[b].Address))
  ensures[old] forall j string :: old(has(accounts(o), j)) ==> has(accounts(o), j) && accounts(o)[j] == old(accounts(o)[j])
  ensures[new] forall j string :: has(accounts(o), j) && !old(has(accounts(o), j)) ==> j == k && fresh(accounts(o)[j]) && accounts(o)[j].OutputTransfers == nil && len(accounts(o)[j].OutputTransfers) == 0 && accounts(o)[j].GasUsed == 0

// what every successful or refused value transfer relies on
pred canTransfer(c) = outputOk(c) && hostOk(c.host) && c.host.outputContext == c && chainOk(c.host.blockchainContext) && c.host.blockchainContext.host == c.host && c.host.runtimeContext.vmInput != nil
def ntransfers(c, k) = has(accounts(c), k) ? len(accounts(c)[k].OutputTransfers) : 0
pred mustPay(c, v, check) = v > 0 && (check || c.host.flagESDTFunctions.value != 1) && !(c.host.flagArwenV3.value == 1 && c.host.runtimeContext.vmInput.CallType == vmcommon.AsynchronousCall)
pred refusable(c, s, d, v, check) = v < 0 || v > spendable(c, s) || chainPayErr($chain, d) != 0 || (mustPay(c, v, check) && !chainPayable($chain, d))

func contexts.(*outputContext).TransferValueOnly(c, destination, sender, value, checkPayable)
  nopanic
  requires canTransfer(c) && value != nil
  let s = str(sender)
  let d = str(destination)
  let v = big(value)
  let m = accounts(c)
  modifies map(m), m[s].Balance, m[s].BalanceDelta, m[d].BalanceDelta
  ensures[ok] outputOk(c) && accounts(c) == m
  ensures[refuse] result != nil <==> old(refusable(c, s, d, v, checkPayable))
  ensures[refused] result != nil ==> forall k string :: delta(c, k) == old(delta(c, k)) && spendable(c, k) == old(spendable(c, k))
  ensures[moved] result == nil ==> forall k string :: delta(c, k) == old(delta(c, k)) - (k == s ? v : 0) + (k == d ? v : 0)
  ensures[transfers] forall k string :: ntransfers(c, k) == old(ntransfers(c, k))
  ensures[kept] forall k string :: old(has(m, k)) ==> has(m, k) && m[k] == old(m[k])
  ensures[new] forall k string :: has(m, k) && !old(has(m, k)) ==> (k == s || k == d) && fresh(m[k]) && m[k].OutputTransfers == nil && len(m[k].OutputTransfers) == 0 && m[k].GasUsed == 0
  ensures[there] result == nil ==> has(m, s) && has(m, d)

func contexts.(*outputContext).Transfer(c, destination, sender, gasLimit, gasLocked, value, input, callType)
  nopanic
  requires canTransfer(c) && value != nil
  let s = str(sender)
  let d = str(destination)
  let v = big(value)
  let check = gasLimit > 0 && callType != vmcommon.AsynchronousCallBack
  let m = accounts(c)
  modifies map(m), m[s].Balance, m[s].BalanceDelta, m[d].BalanceDelta, m[d].OutputTransfers, elem(m[d].OutputTransfers, ntransfers(c, d))
  ensures[ok] outputOk(c) && accounts(c) == m
  ensures[refuse] result != nil <==> old(refusable(c, s, d, v, check))
  ensures[refused] result != nil ==> forall k string :: delta(c, k) == old(delta(c, k)) && spendable(c, k) == old(spendable(c, k)) && ntransfers(c, k) == old(ntransfers(c, k))
  ensures[moved] result == nil ==> forall k string :: delta(c, k) == old(delta(c, k)) - (k == s ? v : 0) + (k == d ? v : 0)
  ensures[earlier] forall i int :: 0 <= i && i < old(ntransfers(c, d)) ==> m[d].OutputTransfers[i].Value == old(m[d].OutputTransfers[i].Value) && m[d].OutputTransfers[i].GasLimit == old(m[d].OutputTransfers[i].GasLimit) && m[d].OutputTransfers[i].Data == old(m[d].OutputTransfers[i].Data)
  ensures[one] result == nil ==> forall k string :: ntransfers(c, k) == old(ntransfers(c, k)) + (k == d ? 1 : 0)
  ensures[value] result == nil ==> big(m[d].OutputTransfers[old(ntransfers(c, d))].Value) == v && fresh(m[d].OutputTransfers[old(ntransfers(c, d))].Value)
  ensures[fields] result == nil ==> m[d].OutputTransfers[old(ntransfers(c, d))].GasLimit == gasLimit && m[d].OutputTransfers[old(ntransfers(c, d))].GasLocked == gasLocked && m[d].OutputTransfers[old(ntransfers(c, d))].Data == input && m[d].OutputTransfers[old(ntransfers(c, d))].CallType == callType && m[d].OutputTransfers[old(ntransfers(c, d))].SenderAddress == sender
  ensures[kept] forall k string :: old(has(m, k)) ==> has(m, k) && m[k] == old(m[k])

func contexts.(*outputContext).AddTxValueToAccount(c, address, value)
  nopanic
  requires outputOk(c) && value != nil
  let d = str(address)
  let m = accounts(c)
  modifies map(m), m[d].BalanceDelta
  ensures[ok] outputOk(c) && accounts(c) == m
  ensures[added] forall k string :: delta(c, k) == old(delta(c, k)) + (k == d ? big(value) : 0)
  ensures[transfers] forall k string :: ntransfers(c, k) == old(ntransfers(c, k))
