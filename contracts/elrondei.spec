property P14
// written by tools/genapi.py

// what the node tells about blocks (assumed: fixed while a transaction runs)
ghost chainNum(Int) Int
ghost chainBytes(Int) Str
ghost chainHash(Int, Int) Str
ghost chainHashErr(Int, Int) Int
iface vmcommon.BlockchainHook.CurrentTimeStamp(h)
  pure
  returns chainNum(0)
  ensures inU64(result)
iface vmcommon.BlockchainHook.CurrentNonce(h)
  pure
  returns chainNum(1)
  ensures inU64(result)
iface vmcommon.BlockchainHook.CurrentRound(h)
  pure
  returns chainNum(2)
  ensures inU64(result)
iface vmcommon.BlockchainHook.CurrentEpoch(h)
  pure
  returns chainNum(3)
  ensures 0 <= result && result <= 4294967295
iface vmcommon.BlockchainHook.LastTimeStamp(h)
  pure
  returns chainNum(4)
  ensures inU64(result)
iface vmcommon.BlockchainHook.LastNonce(h)
  pure
  returns chainNum(5)
  ensures inU64(result)
iface vmcommon.BlockchainHook.LastRound(h)
  pure
  returns chainNum(6)
  ensures inU64(result)
iface vmcommon.BlockchainHook.LastEpoch(h)
  pure
  returns chainNum(7)
  ensures 0 <= result && result <= 4294967295
iface vmcommon.BlockchainHook.CurrentRandomSeed(h)
  pure
  ensures str(result) == chainBytes(0)
iface vmcommon.BlockchainHook.LastRandomSeed(h)
  pure
  ensures str(result) == chainBytes(1)
iface vmcommon.BlockchainHook.GetStateRootHash(h)
  pure
  ensures str(result) == chainBytes(2)
iface vmcommon.BlockchainHook.GetBlockhash(h, n)
  pure
  returns1 chainHashErr($chain, n)
  ensures str(result0) == chainHash($chain, n)

def price(p) = meterOf(p).gasSchedule.ElrondAPICost
def perByte(p) = meterOf(p).gasSchedule.BaseOperationCost
def inputOf(p) = runOf(p).vmInput
pred eeiOk(p) = apiOk(p) && runOf(p).vmInput != nil && runOf(p).vmInput.CallValue != nil && len(runOf(p).vmInput.Arguments) <= 2147483647 && len(outpOf(p).outputState.ReturnData) <= 2147483647 && inputOk(runOf(p).vmInput) && chainOk(H(p).blockchainContext) && H(p).blockchainContext.host == H(p)
pred stopped(p) = $bp == store(old($bp), ref(runOf(p).instance), 1)
pred goesOn(p) = same($bp)
pred inRange(mm, o, n) = n == 0 || 0 <= o && o + n <= len(mm)
pred readable(mm, o, n) = n == 0 || 0 <= o && o <= len(mm) && 0 < n

func elrondapi.v1_3_getGasLeft(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(max(meterOf(p).gasForExecution - pointsOf(runOf(p)), 0))
  ensures[paid] paid(p, price(p).GetGasLeft)

func elrondapi.v1_3_getSCAddress(p, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = str(runOf(p).scAddress)
  assumes len(str(runOf(p).scAddress)) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d)
  ensures[around] true && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] true && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetSCAddress)

func elrondapi.v1_3_getCaller(p, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = str(inputOf(p).CallerAddr)
  assumes len(str(inputOf(p).CallerAddr)) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d)
  ensures[around] true && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] true && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetCaller)

func elrondapi.v1_3_getFunction(p, functionOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = runOf(p).callFunction
  assumes len(runOf(p).callFunction) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, functionOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[functionOffset:functionOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] true && inRange(mm, functionOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:functionOffset] == mm[0:functionOffset] && str(mem(m))[functionOffset+len(d):len(mm)] == mm[functionOffset+len(d):len(mm)]
  ensures[refused] true && functionOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == -1
  ensures[result] true ==> result == wrapI32(len(d)) || result == -1 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetFunction)

func elrondapi.v1_3_getOriginalTxHash(p, dataOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = str(inputOf(p).OriginalTxHash)
  assumes len(str(inputOf(p).OriginalTxHash)) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, dataOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[dataOffset:dataOffset+len(d)] == d)
  ensures[around] true && inRange(mm, dataOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:dataOffset] == mm[0:dataOffset] && str(mem(m))[dataOffset+len(d):len(mm)] == mm[dataOffset+len(d):len(mm)]
  ensures[refused] true && dataOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetBlockHash)

func elrondapi.v1_3_getNumArguments(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI32(len(inputOf(p).Arguments))
  ensures[paid] paid(p, price(p).GetNumArguments)

func elrondapi.v1_3_getArgumentLength(p, id)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == (0 <= id && id < len(inputOf(p).Arguments) ? wrapI32(len(inputOf(p).Arguments[id])) : -1)
  ensures[paid] paid(p, price(p).GetArgument)

func elrondapi.v1_3_getNumReturnData(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI32(len(outpOf(p).outputState.ReturnData))
  ensures[paid] paid(p, price(p).GetNumReturnData)

func elrondapi.v1_3_getReturnDataSize(p, resultID)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == (0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData) ? wrapI32(len(outpOf(p).outputState.ReturnData[resultID])) : 0)
  ensures[paid] paid(p, price(p).GetReturnDataSize)

func elrondapi.v1_3_getArgument(p, id, argOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = 0 <= id && id < len(inputOf(p).Arguments) ? str(inputOf(p).Arguments[id]) : ""
  assumes len(0 <= id && id < len(inputOf(p).Arguments) ? str(inputOf(p).Arguments[id]) : "") <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] (0 <= id && id < len(inputOf(p).Arguments)) && inRange(mm, argOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[argOffset:argOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] (0 <= id && id < len(inputOf(p).Arguments)) && inRange(mm, argOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:argOffset] == mm[0:argOffset] && str(mem(m))[argOffset+len(d):len(mm)] == mm[argOffset+len(d):len(mm)]
  ensures[refused] (0 <= id && id < len(inputOf(p).Arguments)) && argOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == -1
  ensures[result] (0 <= id && id < len(inputOf(p).Arguments)) ==> result == wrapI32(len(d)) || result == -1 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[absent] !(0 <= id && id < len(inputOf(p).Arguments)) ==> result == -1 && goesOn(p) && str(mem(m)) == mm
  ensures[paid] paid(p, price(p).GetArgument)

func elrondapi.v1_3_getReturnData(p, resultID, dataOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = 0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData) ? str(outpOf(p).outputState.ReturnData[resultID]) : ""
  assumes len(0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData) ? str(outpOf(p).outputState.ReturnData[resultID]) : "") <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] (0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData)) && inRange(mm, dataOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[dataOffset:dataOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] (0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData)) && inRange(mm, dataOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:dataOffset] == mm[0:dataOffset] && str(mem(m))[dataOffset+len(d):len(mm)] == mm[dataOffset+len(d):len(mm)]
  ensures[refused] (0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData)) && dataOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == 0
  ensures[result] (0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData)) ==> result == wrapI32(len(d)) || result == 0 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[absent] !(0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData)) ==> result == 0 && goesOn(p) && str(mem(m)) == mm
  ensures[paid] paid(p, price(p).GetReturnData)

func elrondapi.v1_3_getBlockTimestamp(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(0))
  ensures[paid] paid(p, price(p).GetBlockTimeStamp)

func elrondapi.v1_3_getBlockNonce(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(1))
  ensures[paid] paid(p, price(p).GetBlockNonce)

func elrondapi.v1_3_getBlockRound(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(2))
  ensures[paid] paid(p, price(p).GetBlockRound)

func elrondapi.v1_3_getBlockEpoch(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(3))
  ensures[paid] paid(p, price(p).GetBlockEpoch)

func elrondapi.v1_3_getPrevBlockTimestamp(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(4))
  ensures[paid] paid(p, price(p).GetBlockTimeStamp)

func elrondapi.v1_3_getPrevBlockNonce(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(5))
  ensures[paid] paid(p, price(p).GetBlockNonce)

func elrondapi.v1_3_getPrevBlockRound(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(6))
  ensures[paid] paid(p, price(p).GetBlockRound)

func elrondapi.v1_3_getPrevBlockEpoch(p)
  nopanic
  requires eeiOk(p)
  modifies $points
  ensures[value] result == wrapI64(chainNum(7))
  ensures[paid] paid(p, price(p).GetBlockEpoch)

func elrondapi.v1_3_getBlockRandomSeed(p, pointer)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = chainBytes(0)
  assumes len(chainBytes(0)) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, pointer, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[pointer:pointer+len(d)] == d)
  ensures[around] true && inRange(mm, pointer, len(d)) && len(d) > 0 ==> str(mem(m))[0:pointer] == mm[0:pointer] && str(mem(m))[pointer+len(d):len(mm)] == mm[pointer+len(d):len(mm)]
  ensures[refused] true && pointer < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetBlockRandomSeed)

func elrondapi.v1_3_getPrevBlockRandomSeed(p, pointer)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = chainBytes(1)
  assumes len(chainBytes(1)) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, pointer, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[pointer:pointer+len(d)] == d)
  ensures[around] true && inRange(mm, pointer, len(d)) && len(d) > 0 ==> str(mem(m))[0:pointer] == mm[0:pointer] && str(mem(m))[pointer+len(d):len(mm)] == mm[pointer+len(d):len(mm)]
  ensures[refused] true && pointer < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetBlockRandomSeed)

func elrondapi.v1_3_getStateRootHash(p, pointer)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = chainBytes(2)
  assumes len(chainBytes(2)) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, pointer, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[pointer:pointer+len(d)] == d)
  ensures[around] true && inRange(mm, pointer, len(d)) && len(d) > 0 ==> str(mem(m))[0:pointer] == mm[0:pointer] && str(mem(m))[pointer+len(d):len(mm)] == mm[pointer+len(d):len(mm)]
  ensures[refused] true && pointer < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetStateRootHash)

func elrondapi.v1_3_blockHash(p, nonce, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = nonce < 0 || chainHashErr($chain, nonce) != 0 ? "" : chainHash($chain, nonce)
  assumes len(nonce < 0 || chainHashErr($chain, nonce) != 0 ? "" : chainHash($chain, nonce)) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d) && result == 0
  ensures[around] true && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] true && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == 1
  ensures[result] true ==> result == 0 || result == 1 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetBlockHash)

func elrondapi.v1_3_getShardOfAddress(p, addressOffset)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let a = memRead(mm, addressOffset, 32)
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] readable(mm, addressOffset, 32) ==> goesOn(p) && result == wrapI32(chainShard(a))
  ensures[refused] !readable(mm, addressOffset, 32) ==> stopped(p) && result == 0
  ensures[paid] paid(p, price(p).GetShardOfAddress)

func elrondapi.v1_3_isSmartContract(p, addressOffset)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let a = memRead(mm, addressOffset, 32)
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] readable(mm, addressOffset, 32) ==> goesOn(p) && result == (chainIsSC($chain, a) ? 1 : 0)
  ensures[refused] !readable(mm, addressOffset, 32) ==> stopped(p) && result == 0
  ensures[paid] paid(p, price(p).IsSmartContract)

func elrondapi.v1_3_getOwnerAddress(p, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let own = str(runOf(p).scAddress)
  let d = noAcc(own) ? "" : accOwner(chainAcc($chain, own))
  assumes len(noAcc(str(runOf(p).scAddress)) ? "" : accOwner(chainAcc($chain, str(runOf(p).scAddress)))) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] chainErr($chain, own) == 0 && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d)
  ensures[around] chainErr($chain, own) == 0 && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] chainErr($chain, own) == 0 && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[absent] chainErr($chain, own) != 0 ==> stopped(p) && str(mem(m)) == mm
  ensures[paid] paid(p, price(p).GetOwnerAddress)

func elrondapi.v1_3_signalError(p, messageOffset, messageLength)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[code] readable(mm, messageOffset, messageLength) ==> outpOf(p).outputState.ReturnCode == vmcommon.UserError && outpOf(p).outputState.ReturnMessage == memRead(mm, messageOffset, messageLength)
  ensures[stopped] readable(mm, messageOffset, messageLength) ==> $bp == store(old($bp), ref(runOf(p).instance), 3)
  ensures[refused] !readable(mm, messageOffset, messageLength) ==> stopped(p)
  ensures[paid] paid(p, price(p).SignalError)

func elrondapi.v1_3_checkNoPayment(p)
  nopanic
  requires eeiOk(p)
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[paying] old(big(inputOf(p).CallValue)) > 0 ==> failedWith(p, arwen.ErrNonPayableFunctionEgld)
  ensures[tokens] old(big(inputOf(p).CallValue)) <= 0 && len(inputOf(p).ESDTTransfers) > 0 ==> failedWith(p, arwen.ErrNonPayableFunctionEsdt)
  ensures[free] old(big(inputOf(p).CallValue)) <= 0 && len(inputOf(p).ESDTTransfers) == 0 ==> goesOn(p)
  ensures[paid] paid(p, price(p).GetCallValue)

func elrondapi.v1_3_returnData(p, pointer, length)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors, outpOf(p).outputState.ReturnData, elems(outpOf(p).outputState.ReturnData)
  ensures[appended] readable(mm, pointer, length) ==> goesOn(p) && len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == memRead(mm, pointer, length) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[refused] !readable(mm, pointer, length) ==> stopped(p) && len(o.ReturnData) == n && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[paid] paid(p, price(p).Finish)
  ensures[paidbytes] length >= 0 ==> paid(p, price(p).Finish + length * perByte(p).PersistPerByte)

pred esdtOk(v) = len(v.ESDTTransfers) > 0 ==> v.ESDTTransfers[0] != nil && v.ESDTTransfers[0].ESDTValue != nil

func elrondapi.v1_3_getESDTTokenNonce(p)
  nopanic
  requires eeiOk(p) && esdtOk(inputOf(p))
  modifies $points
  ensures[value] result == (len(inputOf(p).ESDTTransfers) > 0 ? wrapI64(inputOf(p).ESDTTransfers[0].ESDTTokenNonce) : 0)
  ensures[paid] paid(p, price(p).GetCallValue)

func elrondapi.v1_3_getESDTTokenType(p)
  nopanic
  requires eeiOk(p) && esdtOk(inputOf(p))
  modifies $points
  ensures[value] result == (len(inputOf(p).ESDTTransfers) > 0 ? wrapI32(inputOf(p).ESDTTransfers[0].ESDTTokenType) : 0)
  ensures[paid] paid(p, price(p).GetCallValue)

func elrondapi.v1_3_getESDTTokenName(p, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p) && esdtOk(inputOf(p))
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = len(inputOf(p).ESDTTransfers) > 0 ? str(inputOf(p).ESDTTransfers[0].ESDTTokenName) : ""
  assumes len(len(inputOf(p).ESDTTransfers) > 0 ? str(inputOf(p).ESDTTransfers[0].ESDTTokenName) : "") <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] true && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] true && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == -1
  ensures[result] true ==> result == wrapI32(len(d)) || result == -1 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetCallValue)

func elrondapi.v1_3_callValue(p, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = (len(bebytes(big(inputOf(p).CallValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).CallValue))), 0)) + bebytes(big(inputOf(p).CallValue)))
  assumes len((len(bebytes(big(inputOf(p).CallValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).CallValue))), 0)) + bebytes(big(inputOf(p).CallValue)))) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] true && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] true && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == -1
  ensures[result] true ==> result == wrapI32(len(d)) || result == -1 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetCallValue)

func elrondapi.v1_3_getESDTValue(p, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p) && esdtOk(inputOf(p))
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = len(inputOf(p).ESDTTransfers) > 0 && big(inputOf(p).ESDTTransfers[0].ESDTValue) > 0 ? (len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))), 0)) + bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) : ""
  assumes len(len(inputOf(p).ESDTTransfers) > 0 && big(inputOf(p).ESDTTransfers[0].ESDTValue) > 0 ? (len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))), 0)) + bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) : "") <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] true && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] true && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] true && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == -1
  ensures[result] true ==> result == wrapI32(len(d)) || result == -1 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[paid] paid(p, price(p).GetCallValue)

pred storeApi(p) = eeiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
pred kept(o) = forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))

func elrondapi.v1_3_storageLoadLength(p, keyOffset, keyLength)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let mm = str(mem(ctxMem(runOf(p))))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let d = (reserved(storOf(p), key) ? chainStorage($chain, a, key) : stored(outpOf(p), a, key))
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[length] readable(mm, keyOffset, keyLength) ==> goesOn(p) && result == wrapI32(len(d))
  ensures[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1
  ensures[values] kept(o)
  ensures[paid] paid(p, price(p).StorageLoad)

func elrondapi.v1_3_storageLoad(p, keyOffset, keyLength, dataOffset)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let d = (reserved(storOf(p), key) ? chainStorage($chain, a, key) : stored(outpOf(p), a, key))
  assumes len((reserved(storOf(p), memRead(str(mem(ctxMem(runOf(p)))), keyOffset, keyLength)) ? chainStorage($chain, str(storOf(p).address), memRead(str(mem(ctxMem(runOf(p)))), keyOffset, keyLength)) : stored(outpOf(p), str(storOf(p).address), memRead(str(mem(ctxMem(runOf(p)))), keyOffset, keyLength)))) <= 2147483647
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] readable(mm, keyOffset, keyLength) && inRange(mm, dataOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[dataOffset:dataOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] readable(mm, keyOffset, keyLength) && inRange(mm, dataOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:dataOffset] == mm[0:dataOffset] && str(mem(m))[dataOffset+len(d):len(mm)] == mm[dataOffset+len(d):len(mm)]
  ensures[refused] readable(mm, keyOffset, keyLength) && dataOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == -1
  ensures[result] readable(mm, keyOffset, keyLength) ==> result == wrapI32(len(d)) || result == -1 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[absent] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1 && str(mem(m)) == mm
  ensures[paid] paid(p, price(p).StorageLoad)

func elrondapi.v1_3_storageStore(p, keyOffset, keyLength, dataOffset, dataLength)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let mm = str(mem(ctxMem(runOf(p))))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let v = memRead(mm, dataOffset, dataLength)
  let was = stored(o, a, key)
  let ok = readable(mm, keyOffset, keyLength) && readable(mm, dataOffset, dataLength)
  let ro = runOf(p).readOnly
  let refused = reserved(storOf(p), key) || hasPrefix(key, "ARWEN@") && storOf(p).arwenStorageProtectionEnabled
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), $points, outpOf(p).outputState.GasRefund, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] ok && !ro && !refused ==> goesOn(p) && stored(o, a, key) == v && result == (was == v ? arwen.StorageUnchanged : len(was) == 0 ? arwen.StorageAdded : len(v) == 0 ? arwen.StorageDeleted : arwen.StorageModified)
  ensures[readonly] ok && ro ==> goesOn(p) && kept(o) && result == arwen.StorageUnchanged
  ensures[protected] ok && !ro && refused ==> stopped(p) && kept(o) && result == -1
  ensures[refused] !ok ==> stopped(p) && kept(o) && result == -1
  ensures[others] forall b string, k string :: !(b == a && k == key) ==> stored(o, b, k) == old(stored(o, b, k))
  ensures[paid] paid(p, price(p).StorageStore)

func elrondapi.v1_3_storageLoadFromAddress(p, addressOffset, keyOffset, keyLength, dataOffset)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let m = ctxMem(runOf(p))
  let mm = str(mem(ctxMem(runOf(p))))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let b = memRead(mm, addressOffset, 32)
  let ok = readable(mm, keyOffset, keyLength) && readable(mm, addressOffset, 32)
  let d = (reserved(storOf(p), key) ? chainStorage($chain, b, key) : stored(outpOf(p), b, key))
  assumes len(chainStorage($chain, memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32), memRead(str(mem(ctxMem(runOf(p)))), keyOffset, keyLength))) <= 2147483647
  assumes len(stored(outpOf(p), memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32), memRead(str(mem(ctxMem(runOf(p)))), keyOffset, keyLength))) <= 2147483647
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)].StorageUpdates), $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[own] ok && b == a && inRange(mm, dataOffset, len(d)) ==> goesOn(p) && result == wrapI32(len(d)) && (len(d) > 0 ==> str(mem(m))[dataOffset:dataOffset+len(d)] == d)
  ensures[foreign] ok && b != a && noAcc(b) ==> goesOn(p) && result == 0 && len(mem(m)) == len(mm)
  ensures[read] ok && goesOn(p) && result > 0 && len(d) <= 2147483647 ==> result == len(d) && str(mem(m))[dataOffset:dataOffset+len(d)] == d
  ensures[refused] !ok ==> stopped(p) && result == -1 && str(mem(m)) == mm
  ensures[paid] paid(p, price(p).StorageLoad)

func elrondapi.v1_3_writeLog(p, dataPointer, dataLength, topicPtr, numTopics)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let o = outpOf(p).outputState
  let n = len(o.Logs)
  let ro = runOf(p).readOnly
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors, outpOf(p).outputState.Logs, elems(outpOf(p).outputState.Logs)
  ensures[refused] numTopics < 0 || !readable(mm, dataPointer, dataLength) ==> stopped(p) && o.Logs == old(o.Logs)
  ensures[entry] goesOn(p) && $bp[ref(runOf(p).instance)] != 1 && !ro ==> len(o.Logs) == n + 1 && str(o.Logs[n].Address) == str(runOf(p).scAddress) && str(o.Logs[n].Data) == memRead(mm, dataPointer, dataLength) && (numTopics > 0 ==> str(o.Logs[n].Identifier) == memRead(mm, topicPtr, 32))
  ensures[kept] len(o.Logs) >= n && forall i int :: 0 <= i && i < n ==> o.Logs[i] == old(o.Logs[i])
  ensures[readonly] ro ==> o.Logs == old(o.Logs)
  ensures[paid] paid(p, price(p).Log)
  ensures[paidbytes] 0 <= numTopics && 0 <= dataLength ==> paid(p, price(p).Log + (numTopics * 32 + dataLength) * perByte(p).PersistPerByte)
  inv {t [][]byte} len(t) == numTopics
  inv {t [][]byte} fresh(t)
  inv {t [][]byte} iter > 0 ==> str(t[0]) == memRead(str(mem(ctxMem(runOf(p)))), topicPtr, 32)
  inv {i int32} i == iter && 0 <= i && i <= numTopics
  inv {i int32} apiOk(p) && $points == pre($points) && $bp == pre($bp)

func elrondapi.v1_3_setStorageLock(p, keyOffset, keyLength, lockTimestamp)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let mm = str(mem(ctxMem(runOf(p))))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let k1 = key + "ARWEN@TIMELOCK"
  let k2 = "ARWEN@TIMELOCK" + key
  let ro = runOf(p).readOnly
  let v = bebytes(lockTimestamp)
  let refused = reserved(storOf(p), k1) || reserved(storOf(p), k2)
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), $points, outpOf(p).outputState.GasRefund, storOf(p).arwenStorageProtectionEnabled, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[set] readable(mm, keyOffset, keyLength) && !ro && !refused ==> goesOn(p) && (stored(o, a, k1) == v || stored(o, a, k2) == v) && result >= 0
  ensures[others] forall b string, k string :: !(b == a && (k == k1 || k == k2)) ==> stored(o, b, k) == old(stored(o, b, k))
  ensures[readonly] ro ==> kept(o)
  ensures[protected] storOf(p).arwenStorageProtectionEnabled || !readable(mm, keyOffset, keyLength)
  ensures[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1 && kept(o) && storOf(p).arwenStorageProtectionEnabled == old(storOf(p).arwenStorageProtectionEnabled)
  ensures[paid] paid(p, price(p).Int64StorageStore)

func elrondapi.v1_3_clearStorageLock(p, keyOffset, keyLength)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let mm = str(mem(ctxMem(runOf(p))))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let k1 = key + "ARWEN@TIMELOCK"
  let k2 = "ARWEN@TIMELOCK" + key
  let ro = runOf(p).readOnly
  let refused = reserved(storOf(p), k1) || reserved(storOf(p), k2)
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), $points, outpOf(p).outputState.GasRefund, storOf(p).arwenStorageProtectionEnabled, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[cleared] readable(mm, keyOffset, keyLength) && !ro && !refused ==> goesOn(p) && (stored(o, a, k1) == bebytes(0) || stored(o, a, k2) == bebytes(0)) && result >= 0
  ensures[readonly] ro ==> kept(o)
  ensures[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1 && kept(o)
  ensures[paid] paid(p, price(p).Int64StorageStore)

func elrondapi.v1_3_getStorageLock(p, keyOffset, keyLength)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let mm = str(mem(ctxMem(runOf(p))))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let k1 = key + "ARWEN@TIMELOCK"
  let k2 = "ARWEN@TIMELOCK" + key
  let refused = reserved(storOf(p), k1) || reserved(storOf(p), k2)
  let t1 = wrapI64(beval(stored(o, a, k1)))
  let t2 = wrapI64(beval(stored(o, a, k2)))
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] readable(mm, keyOffset, keyLength) && !refused ==> goesOn(p) && (result == t1 || result == t2)
  ensures[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1
  ensures[values] kept(o)
  ensures[ok] eeiOk(p)
  ensures[paid] paid(p, price(p).StorageLoad)

func elrondapi.v1_3_isStorageLocked(p, keyOffset, keyLength)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let mm = str(mem(ctxMem(runOf(p))))
  let key = memRead(mm, keyOffset, keyLength)
  let o = outpOf(p)
  let a = str(storOf(p).address)
  let k1 = key + "ARWEN@TIMELOCK"
  let k2 = "ARWEN@TIMELOCK" + key
  let refused = reserved(storOf(p), k1) || reserved(storOf(p), k2)
  let t1 = wrapI64(beval(stored(o, a, k1)))
  let t2 = wrapI64(beval(stored(o, a, k2)))
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[locked] readable(mm, keyOffset, keyLength) && !refused ==> goesOn(p) && (result == (t1 < 0 ? -1 : t1 <= wrapI64(chainNum(0)) ? 0 : 1) || result == (t2 < 0 ? -1 : t2 <= wrapI64(chainNum(0)) ? 0 : 1))
  ensures[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1
  ensures[values] kept(o)
  ensures[paid] paid(p, price(p).StorageLoad)

func elrondapi.v1_3_getCurrentESDTNFTNonce(p, addressOffset, tokenIDOffset, tokenIDLen)
  nopanic
  requires storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))
  let mm = str(mem(ctxMem(runOf(p))))
  let o = outpOf(p)
  let a = memRead(mm, addressOffset, 32)
  let k = "ELROND" + "nonce" + memRead(mm, tokenIDOffset, tokenIDLen)
  let ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen)
  modifies map(accounts(outpOf(p))), map(accounts(outpOf(p))[memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)].StorageUpdates), $points
  ensures[refused] !ok ==> result == 0
  ensures[values] kept(o)
  ensures[paid] paid(p, price(p).StorageLoad)

func elrondapi.v1_3_getExternalBalance(p, addressOffset, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let d = bebytes(spendable(outpOf(p), memRead(mm, addressOffset, 32)))
  assumes len(bebytes(spendable(outpOf(p), memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)))) <= 2147483647
  modifies map(accounts(outpOf(p))), accounts(outpOf(p))[memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)].Balance, $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] readable(mm, addressOffset, 32) && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d)
  ensures[around] readable(mm, addressOffset, 32) && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] readable(mm, addressOffset, 32) && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[absent] !readable(mm, addressOffset, 32) ==> stopped(p) && str(mem(m)) == mm
  ensures[moved] forall k string :: delta(outpOf(p), k) == old(delta(outpOf(p), k))
  ensures[paid] paid(p, price(p).GetExternalBalance)

ghost chainToken(Int, Str, Str, Int) Int
ghost chainTokenErr(Int, Str, Str, Int) Int
def token(a, t, n) = typed(chainToken($chain, a, t, n), "*esdt.ESDigitalToken")
iface vmcommon.BlockchainHook.GetESDTToken(h, a, t, n)
  pure
  returns0 chainToken($chain, str(a), str(t), n)
  returns1 chainTokenErr($chain, str(a), str(t), n)
  ensures result1 == nil ==> result0 != nil && result0.Value != nil

func elrondapi.v1_3_getESDTNFTNameLength(p, addressOffset, tokenIDOffset, tokenIDLen, nonce)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let a = memRead(mm, addressOffset, 32)
  let t = memRead(mm, tokenIDOffset, tokenIDLen)
  let ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen) && chainTokenErr($chain, a, t, wrapU64(nonce)) == 0
  let tok = token(a, t, wrapU64(nonce))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[length] ok ==> goesOn(p) && result == (tok.TokenMetaData == nil ? 0 : wrapI32(len(tok.TokenMetaData.Name)))
  ensures[refused] !ok ==> stopped(p) && result == 0
  ensures[paid] paid(p, price(p).GetExternalBalance)

func elrondapi.v1_3_getESDTNFTAttributeLength(p, addressOffset, tokenIDOffset, tokenIDLen, nonce)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let a = memRead(mm, addressOffset, 32)
  let t = memRead(mm, tokenIDOffset, tokenIDLen)
  let ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen) && chainTokenErr($chain, a, t, wrapU64(nonce)) == 0
  let tok = token(a, t, wrapU64(nonce))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[length] ok ==> goesOn(p) && result == (tok.TokenMetaData == nil ? 0 : wrapI32(len(tok.TokenMetaData.Attributes)))
  ensures[refused] !ok ==> stopped(p) && result == 0
  ensures[paid] paid(p, price(p).GetExternalBalance)

func elrondapi.v1_3_getESDTNFTURILength(p, addressOffset, tokenIDOffset, tokenIDLen, nonce)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let a = memRead(mm, addressOffset, 32)
  let t = memRead(mm, tokenIDOffset, tokenIDLen)
  let ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen) && chainTokenErr($chain, a, t, wrapU64(nonce)) == 0
  let tok = token(a, t, wrapU64(nonce))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[length] ok ==> goesOn(p) && result == (tok.TokenMetaData == nil ? 0 : wrapI32((len(tok.TokenMetaData.URIs) == 0 ? 0 : len(tok.TokenMetaData.URIs[0]))))
  ensures[refused] !ok ==> stopped(p) && result == 0
  ensures[paid] paid(p, price(p).GetExternalBalance)

func elrondapi.v1_3_getESDTBalance(p, addressOffset, tokenIDOffset, tokenIDLen, nonce, resultOffset)
  nopanic
  requires eeiOk(p) && apart(p)
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let a = memRead(mm, addressOffset, 32)
  let t = memRead(mm, tokenIDOffset, tokenIDLen)
  let ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen) && chainTokenErr($chain, a, t, wrapU64(nonce)) == 0
  let tok = token(a, t, wrapU64(nonce))
  let d = bebytes(big(tok.Value))
  assumes len(bebytes(big(token(memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32), memRead(str(mem(ctxMem(runOf(p)))), tokenIDOffset, tokenIDLen), wrapU64(nonce)).Value))) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] ok && inRange(mm, resultOffset, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d) && result == wrapI32(len(d))
  ensures[around] ok && inRange(mm, resultOffset, len(d)) && len(d) > 0 ==> str(mem(m))[0:resultOffset] == mm[0:resultOffset] && str(mem(m))[resultOffset+len(d):len(mm)] == mm[resultOffset+len(d):len(mm)]
  ensures[refused] ok && resultOffset < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm && result == 0
  ensures[result] ok ==> result == wrapI32(len(d)) || result == 0 && stopped(p) && str(mem(m))[0:len(mm)] == mm
  ensures[absent] !ok ==> stopped(p) && result == 0 && str(mem(m)) == mm
  ensures[paid] paid(p, price(p).GetExternalBalance)

func elrondapi.v1_3_getCallValueTokenName(p, callValueOffset, tokenNameOffset)
  nopanic
  requires eeiOk(p) && apart(p) && esdtOk(inputOf(p))
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let name = len(inputOf(p).ESDTTransfers) > 0 ? str(inputOf(p).ESDTTransfers[0].ESDTTokenName) : ""
  let d = (len(inputOf(p).ESDTTransfers) > 0 && len(inputOf(p).ESDTTransfers[0].ESDTTokenName) > 0 ? (len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))), 0)) + bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) : (len(bebytes(big(inputOf(p).CallValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).CallValue))), 0)) + bebytes(big(inputOf(p).CallValue))))
  assumes len(len(inputOf(p).ESDTTransfers) > 0 ? str(inputOf(p).ESDTTransfers[0].ESDTTokenName) : "") <= 2147483647
  assumes len((len(inputOf(p).ESDTTransfers) > 0 && len(inputOf(p).ESDTTransfers[0].ESDTTokenName) > 0 ? (len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))), 0)) + bebytes(big(inputOf(p).ESDTTransfers[0].ESDTValue))) : (len(bebytes(big(inputOf(p).CallValue))) == 0 ? "" : zeros(max(32 - len(bebytes(big(inputOf(p).CallValue))), 0)) + bebytes(big(inputOf(p).CallValue))))) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] inRange(mm, callValueOffset, len(d)) && inRange(mm, tokenNameOffset, len(name)) ==> goesOn(p) && result == wrapI32(len(name))
  ensures[refused] tokenNameOffset < 0 && len(name) > 0 || callValueOffset < 0 && len(d) > 0 ==> stopped(p) && result == -1
  ensures[paid] paid(p, price(p).GetCallValue)

def le32(d, i) = d[i] + 256 * d[i + 1] + 65536 * d[i + 2] + 16777216 * d[i + 3]
func elrondapi.createInt32Array(rawData, numIntegers)
  nopanic
  requires 0 <= numIntegers && numIntegers <= 536870911 && len(rawData) == 4 * numIntegers
  ensures[len] len(result) == numIntegers && fresh(result)
  ensures[values] forall i int :: 0 <= i && i < numIntegers ==> result[i] == wrapI32(le32(rawData, 4 * i))
  inv {cursor int} cursor == 4 * iter && 0 <= iter
  inv {index int} index == iter
  inv {r []int32} fresh(r) && len(r) == numIntegers && forall i int :: 0 <= i && i < iter ==> r[i] == wrapI32(le32(rawData, 4 * i))
func elrondapi.getArgumentsFromMemory(h, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires hostOk(h) && h.runtimeContext.instance != nil
  let mm = str(mem(ctxMem(h.runtimeContext)))
  modifies nothing
  ensures[count] result2 == nil ==> numArguments >= 0 && len(result0) == numArguments
  ensures[refused] numArguments < 0 || numArguments > 536870911 || !readable(mm, argumentsLengthOffset, numArguments * 4) ==> result2 != nil
  ensures[none] result2 != nil ==> result0 == nil && result1 == 0
  ensures[lengths] result2 == nil && numArguments > 0 ==> forall i int :: 0 <= i && i < numArguments ==> len(result0[i]) == wrapI32(le32(memRead(mm, argumentsLengthOffset, numArguments * 4), 4 * i))

pred argsReadable(mm, n, lo) = 0 <= n && n <= 536870911 && readable(mm, lo, n * 4)
func elrondapi.extractIndirectContractCallArguments(h, destOffset, valueOffset, hasValueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires hostOk(h) && h.runtimeContext.instance != nil && mOk(h.meteringContext) && h.meteringContext.host == h && 0 <= pointsOf(h.runtimeContext) && pointsOf(h.runtimeContext) <= maxI64
  let mm = str(mem(ctxMem(h.runtimeContext)))
  modifies $points
  ensures[refused] !readable(mm, destOffset, 32) || hasValueOffset && !readable(mm, valueOffset, 32) || !readable(mm, functionOffset, functionLength) || !argsReadable(mm, numArguments, argumentsLengthOffset) ==> result1 != nil
  ensures[none] result1 != nil <==> result0 == nil
  ensures[read] result1 == nil ==> str(result0.dest) == memRead(mm, destOffset, 32) && str(result0.function) == memRead(mm, functionOffset, functionLength) && len(result0.args) == numArguments
  ensures[value] result1 == nil && hasValueOffset ==> result0.value != nil && big(result0.value) == beval(memRead(mm, valueOffset, 32))
  ensures[gas] old(pointsOf(h.runtimeContext)) <= pointsOf(h.runtimeContext) && pointsOf(h.runtimeContext) <= maxI64

func elrondapi.v1_3_writeEventLog(p, numTopics, topicLengthsOffset, topicOffset, dataOffset, dataLength)
  nopanic
  requires eeiOk(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let o = outpOf(p).outputState
  let n = len(o.Logs)
  let ro = runOf(p).readOnly
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors, outpOf(p).outputState.Logs, elems(outpOf(p).outputState.Logs)
  ensures[refused] !argsReadable(mm, numTopics, topicLengthsOffset) || !readable(mm, dataOffset, dataLength) ==> stopped(p) && o.Logs == old(o.Logs)
  ensures[entry] goesOn(p) && $bp[ref(runOf(p).instance)] != 1 && !ro ==> len(o.Logs) == n + 1 && str(o.Logs[n].Address) == str(runOf(p).scAddress) && str(o.Logs[n].Data) == memRead(mm, dataOffset, dataLength)
  ensures[kept] len(o.Logs) >= n && forall i int :: 0 <= i && i < n ==> o.Logs[i] == old(o.Logs[i])
  ensures[readonly] ro ==> o.Logs == old(o.Logs)
  ensures[paid] goesOn(p) && $bp[ref(runOf(p).instance)] != 1 ==> paid(p, price(p).Log)

func elrondapi.v1_3_getESDTTokenData(p, addressOffset, tokenIDOffset, tokenIDLen, nonce, valueHandle, propertiesOffset, hashOffset, nameOffset, attributesOffset, creatorOffset, royaltiesHandle, urisOffset)
  nopanic
  requires eeiOk(p) && apart(p) && bigsOk(bigsOf(p))
  let m = ctxMem(runOf(p))
  let mm = str(mem(ctxMem(runOf(p))))
  let a = memRead(mm, addressOffset, 32)
  let t = memRead(mm, tokenIDOffset, tokenIDLen)
  let ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen) && chainTokenErr($chain, a, t, wrapU64(nonce)) == 0
  let tok = token(a, t, wrapU64(nonce))
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors, map(bigsOf(p).values), big(bigsOf(p).values[valueHandle]), big(bigsOf(p).values[royaltiesHandle])
  ensures[refused] !ok ==> stopped(p) && result == 0 && str(mem(m)) == mm
  ensures[paid] paid(p, price(p).GetExternalBalance)

// the parser of call data (assumed: a function of the data)
ghost callName(Str) Str
ghost callErr(Str) Int
trusted parsers.NewCallArgsParser()
  pure
  ensures result != nil
trusted parsers.(*callArgsParser).ParseData(c, d)
  pure
  returns0 callName(d)
  returns2 callErr(d)

func elrondapi.v1_3_transferValue(p, destOffset, valueOffset, dataOffset, length)
  nopanic
  requires eeiOk(p) && canTransfer(outpOf(p)) && H(p).builtInFuncContainer != nil
  let mm = str(mem(ctxMem(runOf(p))))
  let c = outpOf(p)
  let m = accounts(c)
  let s = str(runOf(p).scAddress)
  let d = memRead(mm, destOffset, 32)
  let v = beval(memRead(mm, valueOffset, 32))
  let data = memRead(mm, dataOffset, length)
  let ok = readable(mm, destOffset, 32) && readable(mm, valueOffset, 32) && readable(mm, dataOffset, length)
  let bc = ref(H(p).builtInFuncContainer)
  let builtin = builtinErr(bc, callName(data)) == 0 && builtinOn(builtinFunc(bc, callName(data)))
  let possible = !refusable(c, s, d, v, false)
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors, map(m), m[s].Balance, m[s].BalanceDelta, m[d].BalanceDelta, m[d].OutputTransfers, elem(m[d].OutputTransfers, ntransfers(c, d))
  ensures[refused] !ok || !builtin && !possible ==> stopped(p) && result == 1
  ensures[builtin] ok && builtin ==> goesOn(p) && result == 1
  ensures[nothing] !ok || builtin || !possible ==> forall k string :: delta(c, k) == old(delta(c, k)) && ntransfers(c, k) == old(ntransfers(c, k))
  ensures[moved] ok && !builtin && possible ==> goesOn(p) && result == 0 && forall k string :: delta(c, k) == old(delta(c, k)) - (k == s ? v : 0) + (k == d ? v : 0) && ntransfers(c, k) == old(ntransfers(c, k)) + (k == d ? 1 : 0)
  ensures[transfer] ok && !builtin && possible ==> big(m[d].OutputTransfers[old(ntransfers(c, d))].Value) == v && str(m[d].OutputTransfers[old(ntransfers(c, d))].Data) == data && m[d].OutputTransfers[old(ntransfers(c, d))].GasLimit == 0 && str(m[d].OutputTransfers[old(ntransfers(c, d))].SenderAddress) == s
  ensures[paid] paid(p, price(p).TransferValue)
  ensures[paidbytes] ok && length > 0 ==> paid(p, price(p).TransferValue + length * perByte(p).PersistPerByte)

case elrondapi.v1_3_executeOnSameContext@badargs(p, gasLimit, addressOffset, valueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), addressOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), valueOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), functionOffset, functionLength) || !argsReadable(str(mem(ctxMem(runOf(p)))), numArguments, argumentsLengthOffset))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == 1

case elrondapi.v1_3_executeOnDestContext@badargs(p, gasLimit, addressOffset, valueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), addressOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), valueOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), functionOffset, functionLength) || !argsReadable(str(mem(ctxMem(runOf(p)))), numArguments, argumentsLengthOffset))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == 1

case elrondapi.v1_3_executeOnDestContextByCaller@badargs(p, gasLimit, addressOffset, valueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), addressOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), valueOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), functionOffset, functionLength) || !argsReadable(str(mem(ctxMem(runOf(p)))), numArguments, argumentsLengthOffset))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == 1

case elrondapi.v1_3_delegateExecution@badargs(p, gasLimit, addressOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), addressOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), functionOffset, functionLength) || !argsReadable(str(mem(ctxMem(runOf(p)))), numArguments, argumentsLengthOffset))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == 1

case elrondapi.v1_3_executeReadOnly@badargs(p, gasLimit, addressOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), addressOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), functionOffset, functionLength) || !argsReadable(str(mem(ctxMem(runOf(p)))), numArguments, argumentsLengthOffset))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == 1

case elrondapi.v1_3_transferValueExecute@badargs(p, addressOffset, valueOffset, gasLimit, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), addressOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), valueOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), functionOffset, functionLength) || !argsReadable(str(mem(ctxMem(runOf(p)))), numArguments, argumentsLengthOffset))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == 1
  ensures[paid] paid(p, price(p).TransferValue)

case elrondapi.v1_3_transferESDTNFTExecute@badargs(p, addressOffset, tokenIDOffset, tokenIDLen, valueOffset, nonce, gasLimit, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), addressOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), valueOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), functionOffset, functionLength) || !argsReadable(str(mem(ctxMem(runOf(p)))), numArguments, argumentsLengthOffset) || !readable(str(mem(ctxMem(runOf(p)))), tokenIDOffset, tokenIDLen))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == 1

case elrondapi.v1_3_asyncCall@badargs(p, destOffset, valueOffset, dataOffset, length)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), destOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), valueOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), dataOffset, length))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p)
  ensures[paid] paid(p, price(p).AsyncCallStep)

case elrondapi.v1_3_createAsyncCall@badargs(p, id, idLength, destOffset, valueOffset, dataOffset, length, successOffset, successLength, errorOffset, errorLength, gas)
  nopanic
  requires eeiOk(p) && (!readable(str(mem(ctxMem(runOf(p)))), id, idLength) || !readable(str(mem(ctxMem(runOf(p)))), destOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), valueOffset, 32) || !readable(str(mem(ctxMem(runOf(p)))), dataOffset, length) || !readable(str(mem(ctxMem(runOf(p)))), successOffset, successLength) || !readable(str(mem(ctxMem(runOf(p)))), errorOffset, errorLength))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p)

case elrondapi.v1_3_setAsyncContextCallback@badargs(p, id, idLength, callback, callbackLength)
  nopanic
  requires eeiOk(p) && (runOf(p).asyncContextInfo != nil && (!readable(str(mem(ctxMem(runOf(p)))), id, idLength) || !readable(str(mem(ctxMem(runOf(p)))), callback, callbackLength)))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] stopped(p) && result == -1

