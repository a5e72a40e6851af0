property P09

func contexts.(*bigIntContext).GetOne(c, handle)
  nopanic
  requires bigsOk(c)
  modifies map(c.values)
  ensures[ok] bigsOk(c)
  ensures[handle] has(c.values, handle) && result == c.values[handle]
  ensures[value] big(result) == old(val(c, handle))
  ensures[known] old(has(c.values, handle)) ==> result == old(c.values[handle])
  ensures[new] !old(has(c.values, handle)) ==> fresh(result)
  ensures[others] forall h int32 :: h != handle ==> (has(c.values, h) <==> old(has(c.values, h))) && c.values[h] == old(c.values[h])

func contexts.(*bigIntContext).GetTwo(c, h1, h2)
  nopanic
  requires bigsOk(c)
  modifies map(c.values)
  ensures[ok] bigsOk(c)
  ensures[handles] has(c.values, h1) && result0 == c.values[h1] && has(c.values, h2) && result1 == c.values[h2]
  ensures[values] forall h int32 :: val(c, h) == old(val(c, h))
  ensures[known] forall h int32 :: old(has(c.values, h)) ==> has(c.values, h) && c.values[h] == old(c.values[h])
  ensures[new] forall h int32 :: has(c.values, h) && !old(has(c.values, h)) ==> fresh(c.values[h]) && (h == h1 || h == h2)

func contexts.(*bigIntContext).GetThree(c, h1, h2, h3)
  nopanic
  requires bigsOk(c)
  modifies map(c.values)
  ensures[ok] bigsOk(c)
  ensures[handles] has(c.values, h1) && result0 == c.values[h1] && has(c.values, h2) && result1 == c.values[h2] && has(c.values, h3) && result2 == c.values[h3]
  ensures[values] forall h int32 :: val(c, h) == old(val(c, h))
  ensures[known] forall h int32 :: old(has(c.values, h)) ==> has(c.values, h) && c.values[h] == old(c.values[h])
  ensures[new] forall h int32 :: has(c.values, h) && !old(has(c.values, h)) ==> fresh(c.values[h]) && (h == h1 || h == h2 || h == h3)

// a new handle is never one in use
func contexts.(*bigIntContext).Put(c, value)
  nopanic
  requires bigsOk(c)
  modifies map(c.values)
  ensures[ok] bigsOk(c)
  ensures[unused] !old(has(c.values, result))
  ensures[value] has(c.values, result) && big(c.values[result]) == value && fresh(c.values[result])
  ensures[others] forall h int32 :: h != result ==> (has(c.values, h) <==> old(has(c.values, h))) && c.values[h] == old(c.values[h])

pred bigApi(p) = apiOk(p) && bigsOk(bigsOf(p))
// the machine's own numbers are never behind a handle
pred noBig(p, n) = forall h int32 :: has(bigsOf(p).values, h) ==> bigsOf(p).values[h] != n
// no number other than the one behind d changed
pred only(p, d) = bigsOk(bigsOf(p)) && forall h int32 :: h != d ==> val(bigsOf(p), h) == old(val(bigsOf(p), h))
pred unchanged(p) = bigsOk(bigsOf(p)) && forall h int32 :: val(bigsOf(p), h) == old(val(bigsOf(p), h))

func elrondapi.useExtraGasForOperations(metering, values)
  helper nopanic
  requires mOk(metering) && rtOf(metering).instance != nil && pointsOf(rtOf(metering)) <= maxI64
  requires forall i int :: 0 <= i && i < len(values) ==> values[i] != nil
  modifies $points
  ensures[nomore] forall q int :: q != ref(rtOf(metering).instance) ==> $points[q] == old($points)[q]
  ensures[more] old(pointsOf(rtOf(metering))) <= pointsOf(rtOf(metering)) && pointsOf(rtOf(metering)) <= maxI64
  inv old(pointsOf(rtOf(metering))) <= pointsOf(rtOf(metering)) && pointsOf(rtOf(metering)) <= maxI64
  inv forall q int :: q != ref(rtOf(metering).instance) ==> $points[q] == old($points)[q]

func elrondapi.v1_3_bigIntAdd(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points
  ensures[result] val(b, destination) == old(val(b, op1)) + old(val(b, op2))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntAdd)

func elrondapi.v1_3_bigIntSub(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points
  ensures[result] val(b, destination) == old(val(b, op1)) - old(val(b, op2))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntSub)

func elrondapi.v1_3_bigIntMul(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points
  ensures[result] val(b, destination) == old(val(b, op1)) * old(val(b, op2))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntMul)

func elrondapi.v1_3_bigIntTDiv(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op2)) == 0) ==> val(b, destination) == tdiv(old(val(b, op1)), old(val(b, op2)))
  ensures[refused] old(val(b, op2)) == 0 ==> unchanged(p) && failedWith(p, arwen.ErrDivZero)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntTDiv)

func elrondapi.v1_3_bigIntTMod(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op2)) == 0) ==> val(b, destination) == trem(old(val(b, op1)), old(val(b, op2)))
  ensures[refused] old(val(b, op2)) == 0 ==> unchanged(p) && failedWith(p, arwen.ErrDivZero)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntTMod)

func elrondapi.v1_3_bigIntEDiv(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op2)) == 0) ==> val(b, destination) == old(val(b, op1)) / old(val(b, op2))
  ensures[refused] old(val(b, op2)) == 0 ==> unchanged(p) && failedWith(p, arwen.ErrDivZero)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntEDiv)

func elrondapi.v1_3_bigIntEMod(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op2)) == 0) ==> val(b, destination) == old(val(b, op1)) % old(val(b, op2))
  ensures[refused] old(val(b, op2)) == 0 ==> unchanged(p) && failedWith(p, arwen.ErrDivZero)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntEMod)

func elrondapi.v1_3_bigIntAnd(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op1)) < 0 || old(val(b, op2)) < 0) ==> val(b, destination) == bvand(old(val(b, op1)), old(val(b, op2)))
  ensures[refused] old(val(b, op1)) < 0 || old(val(b, op2)) < 0 ==> unchanged(p) && failedWith(p, arwen.ErrBitwiseNegative)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntAnd)

func elrondapi.v1_3_bigIntOr(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op1)) < 0 || old(val(b, op2)) < 0) ==> val(b, destination) == old(val(b, op1)) + old(val(b, op2)) - bvand(old(val(b, op1)), old(val(b, op2)))
  ensures[refused] old(val(b, op1)) < 0 || old(val(b, op2)) < 0 ==> unchanged(p) && failedWith(p, arwen.ErrBitwiseNegative)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntOr)

func elrondapi.v1_3_bigIntXor(p, destination, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op1)) < 0 || old(val(b, op2)) < 0) ==> val(b, destination) == old(val(b, op1)) + old(val(b, op2)) - 2 * bvand(old(val(b, op1)), old(val(b, op2)))
  ensures[refused] old(val(b, op1)) < 0 || old(val(b, op2)) < 0 ==> unchanged(p) && failedWith(p, arwen.ErrBitwiseNegative)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntXor)

func elrondapi.v1_3_bigIntAbs(p, destination, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points
  ensures[result] val(b, destination) == abs(old(val(b, op)))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntAbs)

func elrondapi.v1_3_bigIntNeg(p, destination, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points
  ensures[result] val(b, destination) == -old(val(b, op))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntNeg)

func elrondapi.v1_3_bigIntNot(p, destination, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op)) < 0) ==> val(b, destination) == -1 - old(val(b, op))
  ensures[refused] old(val(b, op)) < 0 ==> unchanged(p) && failedWith(p, arwen.ErrBitwiseNegative)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntNot)

func elrondapi.v1_3_bigIntShr(p, destination, op, bits)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op)) < 0 || bits < 0) ==> val(b, destination) == old(val(b, op)) / pow2(bits)
  ensures[refused] old(val(b, op)) < 0 || bits < 0 ==> unchanged(p) && failedWith(p, arwen.ErrShiftNegative)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntShr)

func elrondapi.v1_3_bigIntShl(p, destination, op, bits)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[result] !(old(val(b, op)) < 0 || bits < 0) ==> val(b, destination) == old(val(b, op)) * pow2(bits)
  ensures[refused] old(val(b, op)) < 0 || bits < 0 ==> unchanged(p) && failedWith(p, arwen.ErrShiftNegative)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntShl)

func elrondapi.v1_3_bigIntSign(p, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), $points
  ensures[sign] result == (old(val(b, op)) < 0 ? -1 : old(val(b, op)) == 0 ? 0 : 1)
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntSign)

func elrondapi.v1_3_bigIntCmp(p, op1, op2)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), $points
  ensures[order] result == (old(val(b, op1)) < old(val(b, op2)) ? -1 : old(val(b, op1)) == old(val(b, op2)) ? 0 : 1)
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntCmp)

func elrondapi.v1_3_bigIntIsInt64(p, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), $points
  ensures[fits] result == (inI64(old(val(b, op))) ? 1 : 0)
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntIsInt64)

func elrondapi.v1_3_bigIntGetInt64(p, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), $points
  ensures[value] result == wrapI64(old(val(b, op)))
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntGetInt64)

func elrondapi.v1_3_bigIntUnsignedByteLength(p, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), $points
  ensures[length] result == wrapI32(len(bebytes(old(val(b, op)))))
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntUnsignedByteLength)

func elrondapi.v1_3_bigIntSignedByteLength(p, op)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), $points
  ensures[length] result == wrapI32(len(twosbytes(old(val(b, op)))))
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntSignedByteLength)

func elrondapi.v1_3_bigIntSetInt64(p, destination, value)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points
  ensures[result] val(b, destination) == value
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntSetInt64)

func elrondapi.v1_3_bigIntNew(p, smallValue)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  modifies map(b.values), $points
  ensures[unused] !old(has(b.values, result))
  ensures[value] has(b.values, result) && val(b, result) == smallValue
  ensures[only] only(p, result)
  ensures[paid] paid(p, bigCosts(p).BigIntNew)

func elrondapi.v1_3_bigIntGetCallValue(p, destination)
  also P14
  nopanic
  requires bigApi(p) && runOf(p).vmInput != nil && runOf(p).vmInput.CallValue != nil && noBig(p, runOf(p).vmInput.CallValue)
  let b = bigsOf(p)
  modifies map(b.values), big(b.values[destination]), $points
  ensures[result] val(b, destination) == old(big(runOf(p).vmInput.CallValue))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntGetCallValue)

func elrondapi.v1_3_bigIntGetUnsignedArgument(p, id, destination)
  also P14
  nopanic
  requires bigApi(p) && runOf(p).vmInput != nil
  let b = bigsOf(p)
  let args = runOf(p).vmInput.Arguments
  assumes len(runOf(p).vmInput.Arguments) <= 2147483647
  modifies map(b.values), big(b.values[destination]), $points
  ensures[value] 0 <= id && id < len(args) ==> val(b, destination) == old(beval(str(args[id])))
  ensures[range] id < 0 || id >= len(args) ==> unchanged(p)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntGetUnsignedArgument)

func elrondapi.v1_3_bigIntGetSignedArgument(p, id, destination)
  also P14
  nopanic
  requires bigApi(p) && runOf(p).vmInput != nil
  let b = bigsOf(p)
  let args = runOf(p).vmInput.Arguments
  assumes len(runOf(p).vmInput.Arguments) <= 2147483647
  modifies map(b.values), big(b.values[destination]), $points
  ensures[value] 0 <= id && id < len(args) ==> val(b, destination) == old(twosval(str(args[id])))
  ensures[range] id < 0 || id >= len(args) ==> unchanged(p)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntGetSignedArgument)

func elrondapi.v1_3_bigIntGetUnsignedBytes(p, reference, byteOffset)
  also P14
  nopanic
  requires bigApi(p) && apart(p)
  let b = bigsOf(p)
  let m = ctxMem(runOf(p))
  let d = bebytes(val(b, reference))
  assumes len(bebytes(val(bigsOf(p), reference))) <= 2147483647
  let old0 = str(mem(m))
  modifies map(b.values), $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntGetUnsignedBytes)
  ensures[stored] byteOffset >= 0 && byteOffset + len(d) <= len(old0) && len(d) > 0 ==> mem(m)[byteOffset:byteOffset+len(d)] == d && result == len(d)
  ensures[refused] $bp != old($bp) ==> result == 0 && mem(m)[0:len(old0)] == old0
  ensures[length] result == len(d) || result == 0

func elrondapi.v1_3_bigIntGetSignedBytes(p, reference, byteOffset)
  also P14
  nopanic
  requires bigApi(p) && apart(p)
  let b = bigsOf(p)
  let m = ctxMem(runOf(p))
  let d = twosbytes(val(b, reference))
  assumes len(twosbytes(val(bigsOf(p), reference))) <= 2147483647
  let old0 = str(mem(m))
  modifies map(b.values), $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntGetSignedBytes)
  ensures[stored] byteOffset >= 0 && byteOffset + len(d) <= len(old0) && len(d) > 0 ==> mem(m)[byteOffset:byteOffset+len(d)] == d && result == len(d)
  ensures[refused] $bp != old($bp) ==> result == 0 && mem(m)[0:len(old0)] == old0
  ensures[length] result == len(d) || result == 0

func elrondapi.v1_3_bigIntSetUnsignedBytes(p, destination, byteOffset, byteLength)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = byteLength == 0 || 0 <= byteOffset && byteOffset <= len(mm) && 0 < byteLength
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] inside ==> val(b, destination) == beval(memRead(mm, byteOffset, byteLength))
  ensures[refused] !inside ==> unchanged(p) && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntSetUnsignedBytes)

func elrondapi.v1_3_bigIntSetSignedBytes(p, destination, byteOffset, byteLength)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = byteLength == 0 || 0 <= byteOffset && byteOffset <= len(mm) && 0 < byteLength
  modifies map(b.values), big(b.values[destination]), $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] inside ==> val(b, destination) == twosval(memRead(mm, byteOffset, byteLength))
  ensures[refused] !inside ==> unchanged(p) && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntSetSignedBytes)

func elrondapi.v1_3_bigIntFinishUnsigned(p, reference)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies map(b.values), $points, o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == bebytes(old(val(b, reference))) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntFinishUnsigned)

func elrondapi.v1_3_bigIntFinishSigned(p, reference)
  also P14
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies map(b.values), $points, o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == twosbytes(old(val(b, reference))) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).BigIntFinishSigned)

func elrondapi.v1_3_bigIntStorageStoreUnsigned(p, keyOffset, keyLength, source)
  also P14
  nopanic
  requires bigApi(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let b = bigsOf(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let v = bebytes(val(b, source))
  let was = stored(o, a, key)
  let refused = reserved(c, key) || hasPrefix(key, "ARWEN@") && c.arwenStorageProtectionEnabled
  modifies map(b.values), $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), o.outputState.GasRefund, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[only] unchanged(p)
  ensures[written] inside && !refused && !runOf(p).readOnly ==> stored(o, a, key) == v && result == (was == v ? 0 : len(was) == 0 ? 2 : len(v) == 0 ? 3 : 1)
  ensures[others] forall x string, k string :: !(inside && x == a && k == key) ==> stored(o, x, k) == old(stored(o, x, k))
  ensures[readonly] runOf(p).readOnly || !inside || refused ==> forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[failed] !inside || refused && !runOf(p).readOnly ==> $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, bigCosts(p).BigIntStorageStoreUnsigned)

func elrondapi.v1_3_bigIntStorageLoadUnsigned(p, keyOffset, keyLength, destination)
  also P14
  nopanic
  requires bigApi(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let b = bigsOf(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  modifies map(b.values), big(b.values[destination]), $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] inside && !reserved(c, key) ==> val(b, destination) == beval(old(stored(o, a, key))) && result == wrapI32(len(old(stored(o, a, key))))
  ensures[refused] !inside ==> unchanged(p) && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[only] only(p, destination)
  ensures[storage] forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[paid] paid(p, bigCosts(p).BigIntStorageLoadUnsigned)

func elrondapi.v1_3_bigIntGetExternalBalance(p, addressOffset, destination)
  also P14
  nopanic
  requires bigApi(p) && chainOk(H(p).blockchainContext) && H(p).blockchainContext.host == H(p)
  let b = bigsOf(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = 0 <= addressOffset && addressOffset <= len(mm)
  modifies map(b.values), big(b.values[destination]), $points, map(accounts(outpOf(p))), heap F:vmcommon.OutputAccount.Balance, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[refused] !inside ==> unchanged(p) && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[value] inside ==> val(b, destination) >= 0
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntGetExternalBalance)

func elrondapi.v1_3_bigIntGetESDTCallValue(p, destination)
  also P14
  nopanic
  requires bigApi(p) && runOf(p).vmInput != nil && inputOk(runOf(p).vmInput)
  requires forall i int :: 0 <= i && i < len(runOf(p).vmInput.ESDTTransfers) ==> noBig(p, runOf(p).vmInput.ESDTTransfers[i].ESDTValue)
  let b = bigsOf(p)
  let t = runOf(p).vmInput.ESDTTransfers
  modifies map(b.values), big(b.values[destination]), $points
  ensures[value] val(b, destination) == (len(t) == 0 ? 0 : old(big(t[0].ESDTValue)))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntGetCallValue)

func elrondapi.v1_3_smallIntGetUnsignedArgument(p, id)
  also P14
  nopanic
  requires apiOk(p) && runOf(p).vmInput != nil
  let args = runOf(p).vmInput.Arguments
  assumes len(runOf(p).vmInput.Arguments) <= 2147483647
  let n = beval(str(args[id]))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] 0 <= id && id < len(args) && inU64(n) ==> result == wrapI64(n) && $bp == old($bp)
  ensures[large] 0 <= id && id < len(args) && !inU64(n) ==> result == 0 && failedWith(p, arwen.ErrArgOutOfRange)
  ensures[range] id < 0 || id >= len(args) ==> result == 0 && failedWith(p, arwen.ErrArgIndexOutOfRange)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64GetArgument)

func elrondapi.v1_3_smallIntGetSignedArgument(p, id)
  also P14
  nopanic
  requires apiOk(p) && runOf(p).vmInput != nil
  let args = runOf(p).vmInput.Arguments
  assumes len(runOf(p).vmInput.Arguments) <= 2147483647
  let n = twosval(str(args[id]))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] 0 <= id && id < len(args) && inI64(n) ==> result == (n) && $bp == old($bp)
  ensures[large] 0 <= id && id < len(args) && !inI64(n) ==> result == 0 && failedWith(p, arwen.ErrArgOutOfRange)
  ensures[range] id < 0 || id >= len(args) ==> result == 0 && failedWith(p, arwen.ErrArgIndexOutOfRange)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64GetArgument)

func elrondapi.v1_3_int64getArgument(p, id)
  also P14
  nopanic
  requires apiOk(p) && runOf(p).vmInput != nil
  let args = runOf(p).vmInput.Arguments
  assumes len(runOf(p).vmInput.Arguments) <= 2147483647
  let n = twosval(str(args[id]))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] 0 <= id && id < len(args) && inI64(n) ==> result == (n) && $bp == old($bp)
  ensures[large] 0 <= id && id < len(args) && !inI64(n) ==> result == 0 && failedWith(p, arwen.ErrArgOutOfRange)
  ensures[range] id < 0 || id >= len(args) ==> result == 0 && failedWith(p, arwen.ErrArgIndexOutOfRange)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64GetArgument)

func elrondapi.v1_3_smallIntFinishUnsigned(p, value)
  also P14
  nopanic
  requires apiOk(p)
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies $points, o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == bebytes(wrapU64(value)) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64Finish)

func elrondapi.v1_3_smallIntFinishSigned(p, value)
  also P14
  nopanic
  requires apiOk(p)
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies $points, o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == twosbytes(value) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64Finish)

func elrondapi.v1_3_int64finish(p, value)
  also P14
  nopanic
  requires apiOk(p)
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies $points, o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == twosbytes(value) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64Finish)

func elrondapi.v1_3_smallIntStorageStoreUnsigned(p, keyOffset, keyLength, value)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let v = bebytes(wrapU64(value))
  let was = stored(o, a, key)
  let refused = reserved(c, key) || hasPrefix(key, "ARWEN@") && c.arwenStorageProtectionEnabled
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), o.outputState.GasRefund, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] inside && !refused && !runOf(p).readOnly ==> stored(o, a, key) == v && result == (was == v ? 0 : len(was) == 0 ? 2 : len(v) == 0 ? 3 : 1)
  ensures[others] forall x string, k string :: !(inside && x == a && k == key) ==> stored(o, x, k) == old(stored(o, x, k))
  ensures[readonly] runOf(p).readOnly || !inside || refused ==> forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[failed] !inside || refused && !runOf(p).readOnly ==> result == -1 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageStore)

func elrondapi.v1_3_smallIntStorageStoreSigned(p, keyOffset, keyLength, value)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let v = twosbytes(value)
  let was = stored(o, a, key)
  let refused = reserved(c, key) || hasPrefix(key, "ARWEN@") && c.arwenStorageProtectionEnabled
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), o.outputState.GasRefund, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] inside && !refused && !runOf(p).readOnly ==> stored(o, a, key) == v && result == (was == v ? 0 : len(was) == 0 ? 2 : len(v) == 0 ? 3 : 1)
  ensures[others] forall x string, k string :: !(inside && x == a && k == key) ==> stored(o, x, k) == old(stored(o, x, k))
  ensures[readonly] runOf(p).readOnly || !inside || refused ==> forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[failed] !inside || refused && !runOf(p).readOnly ==> result == -1 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageStore)

func elrondapi.v1_3_int64storageStore(p, keyOffset, keyLength, value)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let v = bebytes(wrapU64(value))
  let was = stored(o, a, key)
  let refused = reserved(c, key) || hasPrefix(key, "ARWEN@") && c.arwenStorageProtectionEnabled
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), o.outputState.GasRefund, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[written] inside && !refused && !runOf(p).readOnly ==> stored(o, a, key) == v && result == (was == v ? 0 : len(was) == 0 ? 2 : len(v) == 0 ? 3 : 1)
  ensures[others] forall x string, k string :: !(inside && x == a && k == key) ==> stored(o, x, k) == old(stored(o, x, k))
  ensures[readonly] runOf(p).readOnly || !inside || refused ==> forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[failed] !inside || refused && !runOf(p).readOnly ==> result == -1 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageStore)

func elrondapi.v1_3_smallIntStorageLoadUnsigned(p, keyOffset, keyLength)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let n = beval(stored(o, a, key))
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] inside && !reserved(c, key) && inU64(n) ==> result == wrapI64(n) && $bp == old($bp)
  ensures[large] inside && !reserved(c, key) && !inU64(n) ==> result == 0 && failedWith(p, arwen.ErrStorageValueOutOfRange)
  ensures[failed] !inside ==> result == 0 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[storage] forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageLoad)

func elrondapi.v1_3_smallIntStorageLoadSigned(p, keyOffset, keyLength)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let n = twosval(stored(o, a, key))
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] inside && !reserved(c, key) && inI64(n) ==> result == (n) && $bp == old($bp)
  ensures[large] inside && !reserved(c, key) && !inI64(n) ==> result == 0 && failedWith(p, arwen.ErrStorageValueOutOfRange)
  ensures[failed] !inside ==> result == 0 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[storage] forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageLoad)

func elrondapi.v1_3_int64storageLoad(p, keyOffset, keyLength)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let n = beval(stored(o, a, key))
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[value] inside && !reserved(c, key) && inU64(n) ==> result == wrapI64(n) && $bp == old($bp)
  ensures[large] inside && !reserved(c, key) && !inU64(n) ==> result == 0 && failedWith(p, arwen.ErrStorageValueOutOfRange)
  ensures[failed] !inside ==> result == 0 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[storage] forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageLoad)

