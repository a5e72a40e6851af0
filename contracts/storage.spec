property P05

// every storage update of every account exists, and no two accounts share their updates
pred updatesOk(m) = forall a string, k string :: has(m, a) && has(m[a].StorageUpdates, k) ==> m[a].StorageUpdates[k] != nil
pred separate(m) = forall a string, b string :: has(m, a) && has(m, b) && a != b ==> m[a].StorageUpdates != m[b].StorageUpdates
pred storOk(c) = c != nil && c.blockChainHook != nil && hostOk(c.host) && outputOk(outOf(c)) && updatesOk(accounts(outOf(c))) && separate(accounts(outOf(c)))
| && mOk(c.host.meteringContext) && c.host.meteringContext.host == c.host && rtOf(c).instance != nil
// the value an execution sees under a key of an account
def stored(o, a, k) = has(accounts(o), a) && has(accounts(o)[a].StorageUpdates, k) ? str(accounts(o)[a].StorageUpdates[k].Data) : chainStorage($chain, a, k)
def costs(c) = c.host.meteringContext.gasSchedule.BaseOperationCost
def longKey(c, k) = len(k) > 32 ? min(costs(c).DataCopyPerByte * (len(k) - 32), maxU64) : 0
pred reserved(c, k) = hasPrefix(k, str(c.elrondProtectedKeyPrefix))
def refundOf(o) = big(o.outputState.GasRefund)
def addRefund(r, g) = wrapI64(min(wrapU64(wrapI64(r)) + g, maxU64))

func contexts.(*storageContext).GetStorageUpdates(c, address)
  nopanic
  requires storOk(c)
  let o = outOf(c)
  let m = accounts(o)
  let a = str(address)
  modifies map(m)
  ensures[address] forall b string :: has(m, b) ==> base(m[b].Address) == base(address) || old(has(m, b)) && m[b] == old(m[b]) && base(m[b].Address) == old(base(m[b].Address))
  ensures[ok] storOk(c) && accounts(o) == m
  ensures[map] has(m, a) && result == m[a].StorageUpdates && result != nil
  ensures[kept] forall b string :: old(has(m, b)) ==> has(m, b) && m[b] == old(m[b])
  ensures[new] !old(has(m, a)) ==> fresh(m[a]) && fresh(result) && forall k string :: !has(result, k)
  ensures[others] forall b string :: b != a ==> (has(m, b) <==> old(has(m, b)))
  ensures[values] forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))

func contexts.(*storageContext).GetStorageUnmetered(c, key)
  nopanic
  requires storOk(c)
  let o = outOf(c)
  let m = accounts(o)
  let a = str(c.address)
  modifies map(m), map(m[a].StorageUpdates)
  ensures[address] forall b string :: has(m, b) ==> base(m[b].Address) == base(c.address) || old(has(m, b)) && m[b] == old(m[b]) && base(m[b].Address) == old(base(m[b].Address))
  ensures[ok] storOk(c) && accounts(o) == m
  ensures[read] !reserved(c, str(key)) ==> str(result) == old(stored(o, a, str(key)))
  ensures[node] reserved(c, str(key)) ==> str(result) == chainStorage($chain, a, str(key))
  ensures[values] forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))
  ensures[kept] forall b string :: old(has(m, b)) ==> has(m, b) && m[b] == old(m[b])

func contexts.(*storageContext).GetStorage(c, key)
  nopanic
  requires storOk(c)
  let o = outOf(c)
  let m = accounts(o)
  let a = str(c.address)
  modifies map(m), map(m[a].StorageUpdates), $points
  ensures[address] forall b string :: has(m, b) ==> base(m[b].Address) == base(c.address) || old(has(m, b)) && m[b] == old(m[b]) && base(m[b].Address) == old(base(m[b].Address))
  ensures[ok] storOk(c) && accounts(o) == m
  ensures[read] !reserved(c, str(key)) ==> str(result) == old(stored(o, a, str(key)))
  ensures[node] reserved(c, str(key)) ==> str(result) == chainStorage($chain, a, str(key))
  ensures[values] forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))
  ensures[gas] $points == store(old($points), ref(rtOf(c).instance), min(old(pointsOf(rtOf(c))) + longKey(c, key) + min(costs(c).DataCopyPerByte * len(result), maxU64), maxI64))

func contexts.(*storageContext).SetStorage(c, key, value)
  also P04
  nopanic
  requires storOk(c) && base(value) != base(c.address) && pointsOf(rtOf(c)) <= maxI64
  let o = outOf(c)
  let m = accounts(o)
  let a = str(c.address)
  let was = stored(o, a, str(key))
  let v = str(value)
  let n = len(value)
  let p = pointsOf(rtOf(c))
  let r = refundOf(o)
  let protected = hasPrefix(str(key), "ARWEN@") && c.arwenStorageProtectionEnabled
  let refused = rtOf(c).readOnly || reserved(c, str(key)) || protected
  let lk = longKey(c, key)
  modifies map(m), map(m[a].StorageUpdates), $points, o.outputState.GasRefund
  ensures[ok] storOk(c) && accounts(o) == m
  ensures[readonly] rtOf(c).readOnly ==> result0 == arwen.StorageUnchanged && result1 == nil
  ensures[reserved] !rtOf(c).readOnly && reserved(c, str(key)) ==> result1 == arwen.ErrStoreElrondReservedKey && result0 == arwen.StorageUnchanged
  ensures[protected] !rtOf(c).readOnly && protected ==> result1 != nil && result0 == arwen.StorageUnchanged
  ensures[refused] refused ==> $points == old($points) && refundOf(o) == r && forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))
  ensures[accepted] !refused ==> result1 == nil
  ensures[written] !refused ==> stored(o, a, str(key)) == v
  ensures[private] !refused && was != v && n > 0 ==> base(m[a].StorageUpdates[str(key)].Data) != base(value)
  ensures[others] forall b string, k string :: !(b == a && k == str(key)) ==> stored(o, b, k) == old(stored(o, b, k))
  ensures[status] !refused ==> result0 == (was == v ? arwen.StorageUnchanged : len(was) == 0 ? arwen.StorageAdded : n == 0 ? arwen.StorageDeleted : arwen.StorageModified)
  let charge = was == v ? min(costs(c).DataCopyPerByte * n, maxU64)
  | : len(was) == 0 ? min(costs(c).StorePerByte * n, maxU64)
  | : n == 0 ? 0
  | : n > len(was) ? min(min(costs(c).PersistPerByte * len(was), maxU64) + min(costs(c).StorePerByte * (n - len(was)), maxU64), maxU64)
  | : n < len(was) ? min(costs(c).PersistPerByte * n, maxU64) : 0
  ensures[gas] !refused ==> $points == store(old($points), ref(rtOf(c).instance), min(p + lk + charge, maxI64))
  ensures[release] !refused ==> refundOf(o) == (was != v && n < len(was) ? addRefund(r, min(costs(c).ReleasePerByte * (len(was) - n), maxU64)) : r)

func contexts.(*storageContext).SetProtectedStorage(c, key, value)
  also P04
  nopanic
  requires storOk(c) && base(value) != base(c.address) && pointsOf(rtOf(c)) <= maxI64
  let o = outOf(c)
  let m = accounts(o)
  let a = str(c.address)
  let refused = rtOf(c).readOnly || reserved(c, str(key))
  modifies map(m), map(m[a].StorageUpdates), $points, o.outputState.GasRefund, c.arwenStorageProtectionEnabled
  ensures[ok] storOk(c) && accounts(o) == m
  ensures[reenabled] c.arwenStorageProtectionEnabled
  ensures[refused] refused ==> $points == old($points) && forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))
  ensures[reserved] !rtOf(c).readOnly && reserved(c, str(key)) ==> result1 != nil
  ensures[written] !refused ==> result1 == nil && stored(o, a, str(key)) == str(value)
  ensures[status] result0 == arwen.StorageUnchanged || result0 == arwen.StorageModified || result0 == arwen.StorageAdded || result0 == arwen.StorageDeleted
  ensures[gas] old(pointsOf(rtOf(c))) <= pointsOf(rtOf(c)) && pointsOf(rtOf(c)) <= maxI64
  ensures[others] forall b string, k string :: !(b == a && k == str(key)) ==> stored(o, b, k) == old(stored(o, b, k))

func contexts.(*storageContext).GetStorageFromAddress(c, address, key)
  nopanic
  requires storOk(c)
  let o = outOf(c)
  let m = accounts(o)
  let a = str(address)
  modifies map(m), map(m[a].StorageUpdates), $points
  ensures[address] forall b string :: has(m, b) ==> base(m[b].Address) == base(address) || old(has(m, b)) && m[b] == old(m[b]) && base(m[b].Address) == old(base(m[b].Address))
  ensures[ok] storOk(c) && accounts(o) == m
  ensures[values] forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))
  ensures[own] a == str(c.address) && !reserved(c, str(key)) ==> str(result) == old(stored(o, a, str(key)))
  ensures[node] a == str(c.address) && reserved(c, str(key)) ==> str(result) == chainStorage($chain, a, str(key))
  ensures[foreign] a != str(c.address) && noAcc(a) ==> isnil(result)
  ensures[read] isnil(result) || str(result) == (reserved(c, str(key)) ? chainStorage($chain, a, str(key)) : old(stored(o, a, str(key))))
  ensures[gas] old(pointsOf(rtOf(c))) <= pointsOf(rtOf(c)) || pointsOf(rtOf(c)) == maxI64
  ensures[gasmax] old(pointsOf(rtOf(c))) <= maxI64 ==> pointsOf(rtOf(c)) <= maxI64

func contexts.(*storageContext).SetAddress(c, address)
  nopanic
  requires c != nil
  modifies c.address
  ensures[set] c.address == address
