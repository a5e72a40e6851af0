// The blockchain behind the hook: assumed contracts.
ghostvar $chain Int
ghost chainAcc(Int, Str) Int
ghost chainErr(Int, Str) Int
ghost accBalance(Int) Int
ghost accNonce(Int) Int
ghost accOwner(Int) Str
ghost accCodeHash(Int) Str
ghost accMetadata(Int) Str
ghost chainCode(Int, Int) Str
ghost chainStorage(Int, Str, Str) Str
ghost chainPayable(Int, Str) Bool
ghost chainPayErr(Int, Str) Int
ghost chainShard(Str) Int
ghost chainIsSC(Int, Str) Bool
ghost nilAcc(Int) Bool
ghost chainSnapshot(Int) Int
ghost chainAt(Int, Int) Int

// account lookup: an account or an error or nothing, depending only on the chain state
iface arwen.nilInterfaceChecker.IsInterfaceNil(a)
  pure
  returns nilAcc(ref(a))
iface check.NilInterfaceChecker.IsInterfaceNil(a)
  pure
  returns nilAcc(ref(a))
iface vmcommon.BlockchainHook.GetUserAccount(h, address)
  pure
  returns0 chainAcc($chain, str(address))
  returns1 chainErr($chain, str(address))
iface vmcommon.UserAccountHandler.GetBalance(a)
  pure
  ensures result != nil && big(result) == accBalance(ref(a)) && big(result) >= 0
iface vmcommon.UserAccountHandler.GetNonce(a)
  pure
  ensures result == accNonce(ref(a))
iface vmcommon.UserAccountHandler.GetOwnerAddress(a)
  pure
  ensures str(result) == accOwner(ref(a))
iface vmcommon.UserAccountHandler.GetCodeHash(a)
  pure
  ensures str(result) == accCodeHash(ref(a))
iface vmcommon.UserAccountHandler.GetCodeMetadata(a)
  pure
  ensures str(result) == accMetadata(ref(a)) && (len(result) > 0 ==> result[0] == accMetadata(ref(a))[0])
iface vmcommon.BlockchainHook.GetCode(h, a)
  pure
  ensures str(result) == chainCode($chain, ref(a))
iface vmcommon.BlockchainHook.GetStorageData(h, address, key)
  pure
  ensures str(result0) == chainStorage($chain, str(address), str(key))
iface vmcommon.BlockchainHook.IsPayable(h, address)
  pure
  returns0 chainPayable($chain, str(address))
  returns1 chainPayErr($chain, str(address))
iface vmcommon.BlockchainHook.GetShardOfAddress(h, address)
  pure
  returns chainShard(str(address))
  ensures inU64(result) && result <= 4294967295
iface vmcommon.BlockchainHook.IsSmartContract(h, address)
  pure
  returns chainIsSC($chain, str(address))
// a snapshot number stands for a past state of the chain
iface vmcommon.BlockchainHook.GetSnapshot(h)
  pure
  returns chainSnapshot($chain)
iface vmcommon.BlockchainHook.RevertToSnapshot(h, s)
  modifies $chain
  ensures $chain == chainAt(old($chain), s)
iface vmcommon.BlockchainHook.SaveCompiledCode(h, a, b)
  pure
iface vmcommon.BlockchainHook.GetCompiledCode(h, a)
  pure
iface vmcommon.BlockchainHook.NewAddress(h, creator, nonce, vmType)
  pure
