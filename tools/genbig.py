import re
p='/verif/contracts/bigint.spec'
s=open(p).read()
i=s.index('func elrondapi.v1_3_bigIntAdd')
s=s[:i]
out=[]
FAULT='$bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors'
def ens(*l): return ''.join('  ensures'+x+'\n' for x in l)
def fn(name,params,mods,*es):
    out.append(f"func elrondapi.v1_3_{name}(p{''.join(', '+x for x in params)})\n  nopanic\n  requires bigApi(p)\n  let b = bigsOf(p)\n  modifies {mods}\n"+ens(*es)+"\n")
O1='old(val(b, op1))';O2='old(val(b, op2))';O='old(val(b, op))'
D='map(b.values), big(b.values[destination]), $points'
def three(name,res,cost='BigIntSub',bad=None,err=None):
    e=[]
    if bad:
        e.append(f'[result] !({bad}) ==> val(b, destination) == {res}')
        e.append(f'[refused] {bad} ==> unchanged(p) && failedWith(p, arwen.{err})')
    else: e.append(f'[result] val(b, destination) == {res}')
    e+=['[only] only(p, destination)',f'[paid] paid(p, bigCosts(p).{cost})']
    fn(name,['destination','op1','op2'],D+(', '+FAULT if bad else ''),*e)
three('bigIntAdd',f'{O1} + {O2}')
three('bigIntSub',f'{O1} - {O2}')
three('bigIntMul',f'{O1} * {O2}','BigIntMul')
Z=f'{O2} == 0'
three('bigIntTDiv',f'tdiv({O1}, {O2})','BigIntTDiv',Z,'ErrDivZero')
three('bigIntTMod',f'trem({O1}, {O2})','BigIntSub',Z,'ErrDivZero')
three('bigIntEDiv',f'{O1} / {O2}','BigIntSub',Z,'ErrDivZero')
three('bigIntEMod',f'{O1} % {O2}','BigIntSub',Z,'ErrDivZero')
N=f'{O1} < 0 || {O2} < 0'
AND=f'bvand({O1}, {O2})'
three('bigIntAnd',AND,'BigIntSub',N,'ErrBitwiseNegative')
three('bigIntOr',f'{O1} + {O2} - {AND}','BigIntSub',N,'ErrBitwiseNegative')
three('bigIntXor',f'{O1} + {O2} - 2 * {AND}','BigIntSub',N,'ErrBitwiseNegative')
def two(name,params,res,bad=None,err=None):
    e=[]
    if bad:
        e.append(f'[result] !({bad}) ==> val(b, destination) == {res}')
        e.append(f'[refused] {bad} ==> unchanged(p) && failedWith(p, arwen.{err})')
    else: e.append(f'[result] val(b, destination) == {res}')
    e+=['[only] only(p, destination)','[paid] paid(p, bigCosts(p).BigIntSub)']
    fn(name,params,D+(', '+FAULT if bad else ''),*e)
two('bigIntAbs',['destination','op'],f'abs({O})')
two('bigIntNeg',['destination','op'],f'-{O}')
two('bigIntNot',['destination','op'],f'-1 - {O}',f'{O} < 0','ErrBitwiseNegative')
two('bigIntShr',['destination','op','bits'],f'{O} / pow2(bits)',f'{O} < 0 || bits < 0','ErrShiftNegative')
two('bigIntShl',['destination','op','bits'],f'{O} * pow2(bits)',f'{O} < 0 || bits < 0','ErrShiftNegative')
def q(name,params,cost,*es):
    fn(name,params,'map(b.values), $points',*es,'[only] unchanged(p)',f'[paid] paid(p, bigCosts(p).{cost})')
q('bigIntSign',['op'],'BigIntSign',f'[sign] result == ({O} < 0 ? -1 : {O} == 0 ? 0 : 1)')
q('bigIntCmp',['op1','op2'],'BigIntCmp',f'[order] result == ({O1} < {O2} ? -1 : {O1} == {O2} ? 0 : 1)')
q('bigIntIsInt64',['op'],'BigIntIsInt64',f'[fits] result == (inI64({O}) ? 1 : 0)')
q('bigIntGetInt64',['op'],'BigIntGetInt64',f'[value] result == wrapI64({O})')
q('bigIntUnsignedByteLength',['op'],'BigIntUnsignedByteLength',f'[length] result == wrapI32(len(bebytes({O})))')
q('bigIntSignedByteLength',['op'],'BigIntSignedByteLength',f'[length] result == wrapI32(len(twosbytes({O})))')
fn('bigIntSetInt64',['destination','value'],D,'[result] val(b, destination) == value','[only] only(p, destination)','[paid] paid(p, bigCosts(p).BigIntSub)')
fn('bigIntNew',['smallValue'],'map(b.values), $points','[unused] !old(has(b.values, result))','[value] has(b.values, result) && val(b, result) == smallValue','[only] only(p, result)','[paid] paid(p, bigCosts(p).BigIntNew)')
GCV=1
fn('bigIntGetCallValue',['destination'],D,'[result] val(b, destination) == old(big(runOf(p).vmInput.CallValue))','[only] only(p, destination)','[paid] paid(p, bigCosts(p).BigIntGetCallValue)')

def raw(t): out.append(t.strip('\n')+'\n\n')
MEMMOD='$memLen, $memBase, elems(mem(ctxMem(runOf(p))))'
ARG='map(b.values), big(b.values[destination]), $points'
for n,f in (('bigIntGetUnsignedArgument','beval'),('bigIntGetSignedArgument','twosval')):
    raw(f"""
func elrondapi.v1_3_{n}(p, id, destination)
  also P14
  nopanic
  requires bigApi(p) && runOf(p).vmInput != nil
  let b = bigsOf(p)
  let args = runOf(p).vmInput.Arguments
  assumes len(runOf(p).vmInput.Arguments) <= 2147483647
  modifies {ARG}
  ensures[value] 0 <= id && id < len(args) ==> val(b, destination) == old({f}(str(args[id])))
  ensures[range] id < 0 || id >= len(args) ==> unchanged(p)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).{n[0].upper()+n[1:]})
""")
for n,f in (('bigIntGetUnsignedBytes','bebytes'),('bigIntGetSignedBytes','twosbytes')):
    raw(f"""
func elrondapi.v1_3_{n}(p, reference, byteOffset)
  nopanic
  requires bigApi(p) && apart(p)
  let b = bigsOf(p)
  let m = ctxMem(runOf(p))
  let d = {f}(val(b, reference))
  assumes len({f}(val(bigsOf(p), reference))) <= 2147483647
  let old0 = str(mem(m))
  modifies map(b.values), $points, {MEMMOD}, {FAULT}
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).{n[0].upper()+n[1:]})
  ensures[stored] byteOffset >= 0 && byteOffset + len(d) <= len(old0) && len(d) > 0 ==> mem(m)[byteOffset:byteOffset+len(d)] == d && result == len(d)
  ensures[refused] $bp != old($bp) ==> result == 0 && mem(m)[0:len(old0)] == old0
  ensures[length] result == len(d) || result == 0
""")
for n,f in (('bigIntSetUnsignedBytes','beval'),('bigIntSetSignedBytes','twosval')):
    raw(f"""
func elrondapi.v1_3_{n}(p, destination, byteOffset, byteLength)
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = byteLength == 0 || 0 <= byteOffset && byteOffset <= len(mm) && 0 < byteLength
  modifies {ARG}, {FAULT}
  ensures[value] inside ==> val(b, destination) == {f}(memRead(mm, byteOffset, byteLength))
  ensures[refused] !inside ==> unchanged(p) && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).{n[0].upper()+n[1:]})
""")
for n,f in (('bigIntFinishUnsigned','bebytes'),('bigIntFinishSigned','twosbytes')):
    raw(f"""
func elrondapi.v1_3_{n}(p, reference)
  nopanic
  requires bigApi(p)
  let b = bigsOf(p)
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies map(b.values), $points, o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == {f}(old(val(b, reference))) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[only] unchanged(p)
  ensures[paid] paid(p, bigCosts(p).{n[0].upper()+n[1:]})
""")
raw(f"""
func elrondapi.v1_3_bigIntStorageStoreUnsigned(p, keyOffset, keyLength, source)
  nopanic
  requires bigApi(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let b = bigsOf(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let v = bebytes(val(b, source))
  let was = stored(o, a, key)
  let refused = reserved(c, key) || hasPrefix(key, "ARWEN@") && c.arwenStorageProtectionEnabled
  modifies map(b.values), $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), o.outputState.GasRefund, {FAULT}
  ensures[only] unchanged(p)
  ensures[written] inside && !refused && !runOf(p).readOnly ==> stored(o, a, key) == v && result == (was == v ? 0 : len(was) == 0 ? 2 : len(v) == 0 ? 3 : 1)
  ensures[others] forall x string, k string :: !(inside && x == a && k == key) ==> stored(o, x, k) == old(stored(o, x, k))
  ensures[readonly] runOf(p).readOnly || !inside || refused ==> forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[failed] !inside || refused && !runOf(p).readOnly ==> $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, bigCosts(p).BigIntStorageStoreUnsigned)
""")
raw(f"""
func elrondapi.v1_3_bigIntStorageLoadUnsigned(p, keyOffset, keyLength, destination)
  nopanic
  requires bigApi(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let b = bigsOf(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  modifies {ARG}, map(accounts(o)), map(accounts(o)[a].StorageUpdates), {FAULT}
  ensures[value] inside && !reserved(c, key) ==> val(b, destination) == beval(old(stored(o, a, key))) && result == wrapI32(len(old(stored(o, a, key))))
  ensures[refused] !inside ==> unchanged(p) && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[only] only(p, destination)
  ensures[storage] forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[paid] paid(p, bigCosts(p).BigIntStorageLoadUnsigned)
""")
raw(f"""
func elrondapi.v1_3_bigIntGetExternalBalance(p, addressOffset, destination)
  nopanic
  requires bigApi(p) && chainOk(H(p).blockchainContext) && H(p).blockchainContext.host == H(p)
  let b = bigsOf(p)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = 0 <= addressOffset && addressOffset <= len(mm)
  modifies {ARG}, map(accounts(outpOf(p))), heap F:vmcommon.OutputAccount.Balance, {FAULT}
  ensures[refused] !inside ==> unchanged(p) && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[value] inside ==> val(b, destination) >= 0
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntGetExternalBalance)
""")
raw(f"""
func elrondapi.v1_3_bigIntGetESDTCallValue(p, destination)
  nopanic
  requires bigApi(p) && runOf(p).vmInput != nil && inputOk(runOf(p).vmInput)
  requires forall i int :: 0 <= i && i < len(runOf(p).vmInput.ESDTTransfers) ==> noBig(p, runOf(p).vmInput.ESDTTransfers[i].ESDTValue)
  let b = bigsOf(p)
  let t = runOf(p).vmInput.ESDTTransfers
  modifies {ARG}
  ensures[value] val(b, destination) == (len(t) == 0 ? 0 : old(big(t[0].ESDTValue)))
  ensures[only] only(p, destination)
  ensures[paid] paid(p, bigCosts(p).BigIntGetCallValue)
""")
# small integers
for n,f,rng,w in (('smallIntGetUnsignedArgument','beval','inU64','wrapI64'),('smallIntGetSignedArgument','twosval','inI64',''),('int64getArgument','twosval','inI64','')):
    raw(f"""
func elrondapi.v1_3_{n}(p, id)
  also P14
  nopanic
  requires apiOk(p) && runOf(p).vmInput != nil
  let args = runOf(p).vmInput.Arguments
  assumes len(runOf(p).vmInput.Arguments) <= 2147483647
  let n = {f}(str(args[id]))
  modifies $points, {FAULT}
  ensures[value] 0 <= id && id < len(args) && {rng}(n) ==> result == {w}(n) && $bp == old($bp)
  ensures[large] 0 <= id && id < len(args) && !{rng}(n) ==> result == 0 && failedWith(p, arwen.ErrArgOutOfRange)
  ensures[range] id < 0 || id >= len(args) ==> result == 0 && failedWith(p, arwen.ErrArgIndexOutOfRange)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64GetArgument)
""")
for n,f in (('smallIntFinishUnsigned','bebytes(wrapU64(value))'),('smallIntFinishSigned','twosbytes(value)'),('int64finish','twosbytes(value)')):
    raw(f"""
func elrondapi.v1_3_{n}(p, value)
  also P14
  nopanic
  requires apiOk(p)
  let o = outpOf(p).outputState
  let n = len(o.ReturnData)
  modifies $points, o.ReturnData, elems(o.ReturnData)
  ensures[append] len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == {f} && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64Finish)
""")
for n,f in (('smallIntStorageStoreUnsigned','bebytes(wrapU64(value))'),('smallIntStorageStoreSigned','twosbytes(value)'),('int64storageStore','bebytes(wrapU64(value))')):
    raw(f"""
func elrondapi.v1_3_{n}(p, keyOffset, keyLength, value)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let v = {f}
  let was = stored(o, a, key)
  let refused = reserved(c, key) || hasPrefix(key, "ARWEN@") && c.arwenStorageProtectionEnabled
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), o.outputState.GasRefund, {FAULT}
  ensures[written] inside && !refused && !runOf(p).readOnly ==> stored(o, a, key) == v && result == (was == v ? 0 : len(was) == 0 ? 2 : len(v) == 0 ? 3 : 1)
  ensures[others] forall x string, k string :: !(inside && x == a && k == key) ==> stored(o, x, k) == old(stored(o, x, k))
  ensures[readonly] runOf(p).readOnly || !inside || refused ==> forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[failed] !inside || refused && !runOf(p).readOnly ==> result == -1 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageStore)
""")
for n,f,rng,w in (('smallIntStorageLoadUnsigned','beval','inU64','wrapI64'),('smallIntStorageLoadSigned','twosval','inI64',''),('int64storageLoad','beval','inU64','wrapI64')):
    raw(f"""
func elrondapi.v1_3_{n}(p, keyOffset, keyLength)
  also P14
  nopanic
  requires apiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
  let c = storOf(p)
  let o = outpOf(p)
  let a = str(c.address)
  let mm = str(mem(ctxMem(runOf(p))))
  let inside = keyLength == 0 || 0 <= keyOffset && keyOffset <= len(mm) && 0 < keyLength
  let key = memRead(mm, keyOffset, keyLength)
  let n = {f}(stored(o, a, key))
  modifies $points, map(accounts(o)), map(accounts(o)[a].StorageUpdates), {FAULT}
  ensures[value] inside && !reserved(c, key) && {rng}(n) ==> result == {w}(n) && $bp == old($bp)
  ensures[large] inside && !reserved(c, key) && !{rng}(n) ==> result == 0 && failedWith(p, arwen.ErrStorageValueOutOfRange)
  ensures[failed] !inside ==> result == 0 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[storage] forall x string, k string :: stored(o, x, k) == old(stored(o, x, k))
  ensures[paid] paid(p, meterOf(p).gasSchedule.ElrondAPICost.Int64StorageLoad)
""")
# every function pays its own price (P14)
def own(t):
    m = re.match(r'func elrondapi\.v1_3_(\w+)\(', t)
    if not m: return t
    if 'bigCosts(p).BigIntSub)' in t and m[1].startswith('bigInt'): t = t.replace('bigCosts(p).BigIntSub)', 'bigCosts(p).B' + m[1][1:] + ')')
    if '  also P14\n' not in t: t = t.replace('\n', '\n  also P14\n', 1)
    return t
out = [own(t) for t in out]
t=s+''.join(out)
i=t.index('v1_3_bigIntGetCallValue')
t=t[:i]+t[i:].replace('requires bigApi(p)','requires bigApi(p) && runOf(p).vmInput != nil && runOf(p).vmInput.CallValue != nil && noBig(p, runOf(p).vmInput.CallValue)',1)
open(p,'w').write(t)
