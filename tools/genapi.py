"""genapi.py: writes contracts/elrondei.spec, the contracts of the contract interface (arwen/elrondapi/elrondei.go)."""
out = []
FAULT = '$bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors'
MEM = '$memLen, $memBase, elems(mem(ctxMem(runOf(p))))'

HEAD = r'''property P14
// written by tools/genapi.py

// what the node tells about blocks (assumed: fixed while a transaction runs)
ghost chainNum(Int) Int
ghost chainBytes(Int) Str
ghost chainHash(Int, Int) Str
ghost chainHashErr(Int, Int) Int
'''
for i, (m, bits) in enumerate([('CurrentTimeStamp', 64), ('CurrentNonce', 64), ('CurrentRound', 64), ('CurrentEpoch', 32), ('LastTimeStamp', 64), ('LastNonce', 64), ('LastRound', 64), ('LastEpoch', 32)]):
    HEAD += f'iface vmcommon.BlockchainHook.{m}(h)\n  pure\n  returns chainNum({i})\n  ensures in{"U64" if bits==64 else "U32"}(result)\n'.replace('inU32(result)', '0 <= result && result <= 4294967295')
for i, m in enumerate(['CurrentRandomSeed', 'LastRandomSeed', 'GetStateRootHash']):
    HEAD += f'iface vmcommon.BlockchainHook.{m}(h)\n  pure\n  ensures str(result) == chainBytes({i})\n'
HEAD += r'''iface vmcommon.BlockchainHook.GetBlockhash(h, n)
  pure
  returns1 chainHashErr($chain, n)
  ensures str(result0) == chainHash($chain, n)

def price(p) = meterOf(p).gasSchedule.ElrondAPICost
def perByte(p) = meterOf(p).gasSchedule.BaseOperationCost
def inputOf(p) = runOf(p).vmInput
pred eeiOk(p) = apiOk(p) && runOf(p).vmInput != nil && runOf(p).vmInput.CallValue != nil && len(runOf(p).vmInput.Arguments) <= 2147483647 && len(outpOf(p).outputState.ReturnData) <= 2147483647 && inputOk(runOf(p).vmInput) && chainOk(H(p).blockchainContext) && H(p).blockchainContext.host == H(p)
pred stopped(p) = $bp == store(old($bp), ref(runOf(p).instance), 1)
pred goesOn(p) = same($bp)
pred inRange(mm, o, n) = n == 0 || 0 <= o && o + n <= len(mm)
pred readable(mm, o, n) = n == 0 || 0 <= o && o <= len(mm) && 0 < n
'''


def fn(name, params, mods, lets, *ens, req='eeiOk(p)', assumes=(), pre='v1_3_', pkg='elrondapi', inv=(), flags='nopanic'):
    s = f"func {pkg}.{pre}{name}(p{''.join(', ' + x for x in params)})\n  {flags}\n  requires {req}\n"
    for l in lets:
        s += f'  let {l}\n'
    for a in assumes:
        s += f'  assumes {a}\n'
    s += f'  modifies {mods}\n'
    for e in ens:
        s += '  ensures' + e + '\n'
    for e in inv:
        s += '  inv ' + e + '\n'
    out.append(s + '\n')


def getter(name, price, value, params=(), lets=()):
    fn(name, list(params), '$points', list(lets), f'[value] result == {value}', f'[paid] paid(p, price(p).{price})')


def stores(name, price, off, data, ok=None, bad=None, params=None, present='true', extra=(), req='eeiOk(p) && apart(p)', mods='', paid=None, lets=(), assumes=()):
    """writes data at offset off; ok/bad are the results reported"""
    e = []
    e.append(f'[written] {present} && inRange(mm, {off}, len(d)) ==> goesOn(p) && (len(d) > 0 ==> str(mem(m))[{off}:{off}+len(d)] == d)' + (f' && result == {ok}' if ok else ''))
    e.append(f'[around] {present} && inRange(mm, {off}, len(d)) && len(d) > 0 ==> str(mem(m))[0:{off}] == mm[0:{off}] && str(mem(m))[{off}+len(d):len(mm)] == mm[{off}+len(d):len(mm)]')
    e.append(f'[refused] {present} && {off} < 0 && len(d) > 0 ==> stopped(p) && str(mem(m))[0:len(mm)] == mm' + (f' && result == {bad}' if bad else ''))
    if ok:
        e.append(f'[result] {present} ==> result == {ok} || result == {bad} && stopped(p) && str(mem(m))[0:len(mm)] == mm')
    e += extra
    e.append(f'[paid] {paid or "paid(p, price(p)." + price + ")"}')
    fn(name, params or [off], f'{mods}$points, {MEM}, {FAULT}', ['m = ctxMem(runOf(p))', 'mm = str(mem(m))'] + list(lets) + [f'd = {data}'], *e, req=req, assumes=[f'len({data}) <= 2147483647'] if assumes == () else assumes)


def raw(t):
    out.append(t.strip('\n') + '\n\n')


getter('getGasLeft', 'GetGasLeft', 'wrapI64(max(meterOf(p).gasForExecution - pointsOf(runOf(p)), 0))')
stores('getSCAddress', 'GetSCAddress', 'resultOffset', 'str(runOf(p).scAddress)')
stores('getCaller', 'GetCaller', 'resultOffset', 'str(inputOf(p).CallerAddr)')
stores('getFunction', 'GetFunction', 'functionOffset', 'runOf(p).callFunction', ok='wrapI32(len(d))', bad='-1')
stores('getOriginalTxHash', 'GetBlockHash', 'dataOffset', 'str(inputOf(p).OriginalTxHash)')
getter('getNumArguments', 'GetNumArguments', 'wrapI32(len(inputOf(p).Arguments))')
getter('getArgumentLength', 'GetArgument', '(0 <= id && id < len(inputOf(p).Arguments) ? wrapI32(len(inputOf(p).Arguments[id])) : -1)', ['id'])
getter('getNumReturnData', 'GetNumReturnData', 'wrapI32(len(outpOf(p).outputState.ReturnData))')
getter('getReturnDataSize', 'GetReturnDataSize', '(0 <= resultID && resultID < len(outpOf(p).outputState.ReturnData) ? wrapI32(len(outpOf(p).outputState.ReturnData[resultID])) : 0)', ['resultID'])
ARG = 'inputOf(p).Arguments'
stores('getArgument', 'GetArgument', 'argOffset', f'0 <= id && id < len({ARG}) ? str({ARG}[id]) : ""', ok='wrapI32(len(d))', bad='-1', params=['id', 'argOffset'], present=f'(0 <= id && id < len({ARG}))', extra=[f'[absent] !(0 <= id && id < len({ARG})) ==> result == -1 && goesOn(p) && str(mem(m)) == mm'])
RD = 'outpOf(p).outputState.ReturnData'
stores('getReturnData', 'GetReturnData', 'dataOffset', f'0 <= resultID && resultID < len({RD}) ? str({RD}[resultID]) : ""', ok='wrapI32(len(d))', bad='0', params=['resultID', 'dataOffset'], present=f'(0 <= resultID && resultID < len({RD}))', extra=[f'[absent] !(0 <= resultID && resultID < len({RD})) ==> result == 0 && goesOn(p) && str(mem(m)) == mm'])
for n, pr, i in [('getBlockTimestamp', 'GetBlockTimeStamp', 0), ('getBlockNonce', 'GetBlockNonce', 1), ('getBlockRound', 'GetBlockRound', 2), ('getBlockEpoch', 'GetBlockEpoch', 3), ('getPrevBlockTimestamp', 'GetBlockTimeStamp', 4), ('getPrevBlockNonce', 'GetBlockNonce', 5), ('getPrevBlockRound', 'GetBlockRound', 6), ('getPrevBlockEpoch', 'GetBlockEpoch', 7)]:
    getter(n, pr, f'wrapI64(chainNum({i}))')
stores('getBlockRandomSeed', 'GetBlockRandomSeed', 'pointer', 'chainBytes(0)')
stores('getPrevBlockRandomSeed', 'GetBlockRandomSeed', 'pointer', 'chainBytes(1)')
stores('getStateRootHash', 'GetStateRootHash', 'pointer', 'chainBytes(2)')
stores('blockHash', 'GetBlockHash', 'resultOffset', 'nonce < 0 || chainHashErr($chain, nonce) != 0 ? "" : chainHash($chain, nonce)', ok='0', bad='1', params=['nonce', 'resultOffset'])

# addresses read from memory
def lookup(name, price, value):
    fn(name, ['addressOffset'], f'$points, {FAULT}', ['mm = str(mem(ctxMem(runOf(p))))', 'a = memRead(mm, addressOffset, 32)'],
       f'[value] readable(mm, addressOffset, 32) ==> goesOn(p) && result == {value}',
       '[refused] !readable(mm, addressOffset, 32) ==> stopped(p) && result == 0',
       f'[paid] paid(p, price(p).{price})')
lookup('getShardOfAddress', 'GetShardOfAddress', 'wrapI32(chainShard(a))')
lookup('isSmartContract', 'IsSmartContract', '(chainIsSC($chain, a) ? 1 : 0)')
OWN = 'str(runOf(p).scAddress)'
OWND = f'noAcc({OWN}) ? "" : accOwner(chainAcc($chain, {OWN}))'
stores('getOwnerAddress', 'GetOwnerAddress', 'resultOffset', 'noAcc(own) ? "" : accOwner(chainAcc($chain, own))', present='chainErr($chain, own) == 0', lets=[f'own = {OWN}'], assumes=[f'len({OWND}) <= 2147483647'], extra=['[absent] chainErr($chain, own) != 0 ==> stopped(p) && str(mem(m)) == mm'])
fn('signalError', ['messageOffset', 'messageLength'], f'$points, {FAULT}', ['mm = str(mem(ctxMem(runOf(p))))'],
   '[code] readable(mm, messageOffset, messageLength) ==> outpOf(p).outputState.ReturnCode == vmcommon.UserError && outpOf(p).outputState.ReturnMessage == memRead(mm, messageOffset, messageLength)',
   '[stopped] readable(mm, messageOffset, messageLength) ==> $bp == store(old($bp), ref(runOf(p).instance), 3)',
   '[refused] !readable(mm, messageOffset, messageLength) ==> stopped(p)', '[paid] paid(p, price(p).SignalError)')
fn('checkNoPayment', [], f'$points, {FAULT}', [],
   '[paying] old(big(inputOf(p).CallValue)) > 0 ==> failedWith(p, arwen.ErrNonPayableFunctionEgld)',
   '[tokens] old(big(inputOf(p).CallValue)) <= 0 && len(inputOf(p).ESDTTransfers) > 0 ==> failedWith(p, arwen.ErrNonPayableFunctionEsdt)',
   '[free] old(big(inputOf(p).CallValue)) <= 0 && len(inputOf(p).ESDTTransfers) == 0 ==> goesOn(p)', '[paid] paid(p, price(p).GetCallValue)')
fn('returnData', ['pointer', 'length'], f'$points, {FAULT}, outpOf(p).outputState.ReturnData, elems(outpOf(p).outputState.ReturnData)', ['mm = str(mem(ctxMem(runOf(p))))', 'o = outpOf(p).outputState', 'n = len(o.ReturnData)'],
   '[appended] readable(mm, pointer, length) ==> goesOn(p) && len(o.ReturnData) == n + 1 && str(o.ReturnData[n]) == memRead(mm, pointer, length) && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))',
   '[refused] !readable(mm, pointer, length) ==> stopped(p) && len(o.ReturnData) == n && forall i int :: 0 <= i && i < n ==> str(o.ReturnData[i]) == old(str(o.ReturnData[i]))',
   '[paid] paid(p, price(p).Finish)', '[paidbytes] length >= 0 ==> paid(p, price(p).Finish + length * perByte(p).PersistPerByte)')

E = 'inputOf(p).ESDTTransfers'
raw('pred esdtOk(v) = len(v.ESDTTransfers) > 0 ==> v.ESDTTransfers[0] != nil && v.ESDTTransfers[0].ESDTValue != nil')
for n, f, w in [('getESDTTokenNonce', 'ESDTTokenNonce', 64), ('getESDTTokenType', 'ESDTTokenType', 32)]:
    fn(n, [], '$points', [], f'[value] result == (len({E}) > 0 ? wrapI{w}({E}[0].{f}) : 0)', '[paid] paid(p, price(p).GetCallValue)', req='eeiOk(p) && esdtOk(inputOf(p))')
stores('getESDTTokenName', 'GetCallValue', 'resultOffset', f'len({E}) > 0 ? str({E}[0].ESDTTokenName) : ""', ok='wrapI32(len(d))', bad='-1', req='eeiOk(p) && apart(p) && esdtOk(inputOf(p))')
def padded(v): return f'(len(bebytes({v})) == 0 ? "" : zeros(max(32 - len(bebytes({v})), 0)) + bebytes({v}))'
CV = 'big(inputOf(p).CallValue)'
stores('callValue', 'GetCallValue', 'resultOffset', padded(CV), ok='wrapI32(len(d))', bad='-1')
stores('getESDTValue', 'GetCallValue', 'resultOffset', f'len({E}) > 0 && big({E}[0].ESDTValue) > 0 ? {padded("big("+E+"[0].ESDTValue)")} : ""', ok='wrapI32(len(d))', bad='-1', req='eeiOk(p) && apart(p) && esdtOk(inputOf(p))')


# ---- storage
raw("""
pred storeApi(p) = eeiOk(p) && storOk(storOf(p)) && storOf(p).host == H(p)
pred kept(o) = forall b string, k string :: stored(o, b, k) == old(stored(o, b, k))
""")
STQ = 'storeApi(p) && apart(p) && base(storOf(p).address) != base(mem(ctxMem(runOf(p))))'
MAPS = 'map(accounts(outpOf(p))), map(accounts(outpOf(p))[str(storOf(p).address)].StorageUpdates), '
KEY = 'memRead(str(mem(ctxMem(runOf(p)))), keyOffset, keyLength)'
SEEN = lambda a, k: f'(reserved(storOf(p), {k}) ? chainStorage($chain, {a}, {k}) : stored(outpOf(p), {a}, {k}))'
KL = ['mm = str(mem(ctxMem(runOf(p))))', 'key = memRead(mm, keyOffset, keyLength)', 'o = outpOf(p)', 'a = str(storOf(p).address)']
fn('storageLoadLength', ['keyOffset', 'keyLength'], MAPS + '$points, ' + FAULT, KL + ['d = ' + SEEN('a', 'key')],
   '[length] readable(mm, keyOffset, keyLength) ==> goesOn(p) && result == wrapI32(len(d))',
   '[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1', '[values] kept(o)', '[paid] paid(p, price(p).StorageLoad)', req=STQ)
D = SEEN('str(storOf(p).address)', KEY)
stores('storageLoad', 'StorageLoad', 'dataOffset', SEEN('a', 'key'), ok='wrapI32(len(d))', bad='-1', params=['keyOffset', 'keyLength', 'dataOffset'], present='readable(mm, keyOffset, keyLength)', lets=KL[1:],
       extra=['[absent] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1 && str(mem(m)) == mm'], req=STQ, mods=MAPS, assumes=[f'len({D}) <= 2147483647'])
fn('storageStore', ['keyOffset', 'keyLength', 'dataOffset', 'dataLength'], MAPS + '$points, outpOf(p).outputState.GasRefund, ' + FAULT,
   KL + ['v = memRead(mm, dataOffset, dataLength)', 'was = stored(o, a, key)', 'ok = readable(mm, keyOffset, keyLength) && readable(mm, dataOffset, dataLength)',
         'ro = runOf(p).readOnly', 'refused = reserved(storOf(p), key) || hasPrefix(key, "ARWEN@") && storOf(p).arwenStorageProtectionEnabled'],
   '[written] ok && !ro && !refused ==> goesOn(p) && stored(o, a, key) == v && result == (was == v ? arwen.StorageUnchanged : len(was) == 0 ? arwen.StorageAdded : len(v) == 0 ? arwen.StorageDeleted : arwen.StorageModified)',
   '[readonly] ok && ro ==> goesOn(p) && kept(o) && result == arwen.StorageUnchanged',
   '[protected] ok && !ro && refused ==> stopped(p) && kept(o) && result == -1',
   '[refused] !ok ==> stopped(p) && kept(o) && result == -1',
   '[others] forall b string, k string :: !(b == a && k == key) ==> stored(o, b, k) == old(stored(o, b, k))',
   '[paid] paid(p, price(p).StorageStore)', req=STQ)
fn('storageLoadFromAddress', ['addressOffset', 'keyOffset', 'keyLength', 'dataOffset'], f'map(accounts(outpOf(p))), map(accounts(outpOf(p))[memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)].StorageUpdates), $points, {MEM}, {FAULT}',
   ['m = ctxMem(runOf(p))'] + KL + ['b = memRead(mm, addressOffset, 32)', 'ok = readable(mm, keyOffset, keyLength) && readable(mm, addressOffset, 32)', 'd = ' + SEEN('b', 'key')],
   '[own] ok && b == a && inRange(mm, dataOffset, len(d)) ==> goesOn(p) && result == wrapI32(len(d)) && (len(d) > 0 ==> str(mem(m))[dataOffset:dataOffset+len(d)] == d)',
   '[foreign] ok && b != a && noAcc(b) ==> goesOn(p) && result == 0 && len(mem(m)) == len(mm)',
   '[read] ok && goesOn(p) && result > 0 && len(d) <= 2147483647 ==> result == len(d) && str(mem(m))[dataOffset:dataOffset+len(d)] == d',
   '[refused] !ok ==> stopped(p) && result == -1 && str(mem(m)) == mm', '[paid] paid(p, price(p).StorageLoad)', req=STQ,
   assumes=[f'len(chainStorage($chain, memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32), {KEY})) <= 2147483647', f'len(stored(outpOf(p), memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32), {KEY})) <= 2147483647'])

# ---- logs
fn('writeLog', ['dataPointer', 'dataLength', 'topicPtr', 'numTopics'], f'$points, {FAULT}, outpOf(p).outputState.Logs, elems(outpOf(p).outputState.Logs)',
   ['mm = str(mem(ctxMem(runOf(p))))', 'o = outpOf(p).outputState', 'n = len(o.Logs)', 'ro = runOf(p).readOnly'],
   '[refused] numTopics < 0 || !readable(mm, dataPointer, dataLength) ==> stopped(p) && o.Logs == old(o.Logs)',
   '[entry] goesOn(p) && $bp[ref(runOf(p).instance)] != 1 && !ro ==> len(o.Logs) == n + 1 && str(o.Logs[n].Address) == str(runOf(p).scAddress) && str(o.Logs[n].Data) == memRead(mm, dataPointer, dataLength) && (numTopics > 0 ==> str(o.Logs[n].Identifier) == memRead(mm, topicPtr, 32))',
   '[kept] len(o.Logs) >= n && forall i int :: 0 <= i && i < n ==> o.Logs[i] == old(o.Logs[i])',
   '[readonly] ro ==> o.Logs == old(o.Logs)',
   '[paid] paid(p, price(p).Log)', '[paidbytes] 0 <= numTopics && 0 <= dataLength ==> paid(p, price(p).Log + (numTopics * 32 + dataLength) * perByte(p).PersistPerByte)',
   inv=['{t [][]byte} len(t) == numTopics', '{t [][]byte} fresh(t)', '{t [][]byte} iter > 0 ==> str(t[0]) == memRead(str(mem(ctxMem(runOf(p)))), topicPtr, 32)', '{i int32} i == iter && 0 <= i && i <= numTopics', '{i int32} apiOk(p) && $points == pre($points) && $bp == pre($bp)'])

# ---- time locks
LOCK = '"ARWEN@TIMELOCK"'
fn('setStorageLock', ['keyOffset', 'keyLength', 'lockTimestamp'], MAPS + '$points, outpOf(p).outputState.GasRefund, storOf(p).arwenStorageProtectionEnabled, ' + FAULT,
   KL + [f'k1 = key + {LOCK}', f'k2 = {LOCK} + key', 'ro = runOf(p).readOnly', 'v = bebytes(lockTimestamp)', 'refused = reserved(storOf(p), k1) || reserved(storOf(p), k2)'],
   '[set] readable(mm, keyOffset, keyLength) && !ro && !refused ==> goesOn(p) && (stored(o, a, k1) == v || stored(o, a, k2) == v) && result >= 0',
   '[others] forall b string, k string :: !(b == a && (k == k1 || k == k2)) ==> stored(o, b, k) == old(stored(o, b, k))',
   '[readonly] ro ==> kept(o)', '[protected] storOf(p).arwenStorageProtectionEnabled || !readable(mm, keyOffset, keyLength)',
   '[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1 && kept(o) && storOf(p).arwenStorageProtectionEnabled == old(storOf(p).arwenStorageProtectionEnabled)',
   '[paid] paid(p, price(p).Int64StorageStore)', req=STQ)
fn('clearStorageLock', ['keyOffset', 'keyLength'], MAPS + '$points, outpOf(p).outputState.GasRefund, storOf(p).arwenStorageProtectionEnabled, ' + FAULT,
   KL + [f'k1 = key + {LOCK}', f'k2 = {LOCK} + key', 'ro = runOf(p).readOnly', 'refused = reserved(storOf(p), k1) || reserved(storOf(p), k2)'],
   '[cleared] readable(mm, keyOffset, keyLength) && !ro && !refused ==> goesOn(p) && (stored(o, a, k1) == bebytes(0) || stored(o, a, k2) == bebytes(0)) && result >= 0',
   '[readonly] ro ==> kept(o)', '[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1 && kept(o)', '[paid] paid(p, price(p).Int64StorageStore)', req=STQ)
LV = lambda k: f'wrapI64(beval(stored(o, a, {k})))'
GL = KL + [f'k1 = key + {LOCK}', f'k2 = {LOCK} + key', 'refused = reserved(storOf(p), k1) || reserved(storOf(p), k2)', f't1 = {LV("k1")}', f't2 = {LV("k2")}']
fn('getStorageLock', ['keyOffset', 'keyLength'], MAPS + '$points, ' + FAULT, GL,
   '[value] readable(mm, keyOffset, keyLength) && !refused ==> goesOn(p) && (result == t1 || result == t2)',
   '[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1', '[values] kept(o)', '[ok] eeiOk(p)', '[paid] paid(p, price(p).StorageLoad)', req=STQ)
def locked(t): return f'({t} < 0 ? -1 : {t} <= wrapI64(chainNum(0)) ? 0 : 1)'
fn('isStorageLocked', ['keyOffset', 'keyLength'], MAPS + '$points, ' + FAULT, GL,
   f'[locked] readable(mm, keyOffset, keyLength) && !refused ==> goesOn(p) && (result == {locked("t1")} || result == {locked("t2")})',
   '[refused] !readable(mm, keyOffset, keyLength) ==> stopped(p) && result == -1', '[values] kept(o)', '[paid] paid(p, price(p).StorageLoad)', req=STQ)
fn('getCurrentESDTNFTNonce', ['addressOffset', 'tokenIDOffset', 'tokenIDLen'], f'map(accounts(outpOf(p))), map(accounts(outpOf(p))[memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)].StorageUpdates), $points',
   ['mm = str(mem(ctxMem(runOf(p))))', 'o = outpOf(p)', 'a = memRead(mm, addressOffset, 32)', 'k = "ELROND" + "nonce" + memRead(mm, tokenIDOffset, tokenIDLen)', 'ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen)'],
   '[refused] !ok ==> result == 0', '[values] kept(o)', '[paid] paid(p, price(p).StorageLoad)', req=STQ)

# ---- balances and tokens kept by the node
stores('getExternalBalance', 'GetExternalBalance', 'resultOffset', 'bebytes(spendable(outpOf(p), memRead(mm, addressOffset, 32)))', params=['addressOffset', 'resultOffset'], present='readable(mm, addressOffset, 32)',
       extra=['[absent] !readable(mm, addressOffset, 32) ==> stopped(p) && str(mem(m)) == mm', '[moved] forall k string :: delta(outpOf(p), k) == old(delta(outpOf(p), k))'], mods='map(accounts(outpOf(p))), accounts(outpOf(p))[memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)].Balance, ',
       assumes=['len(bebytes(spendable(outpOf(p), memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32)))) <= 2147483647'])
raw("""
ghost chainToken(Int, Str, Str, Int) Int
ghost chainTokenErr(Int, Str, Str, Int) Int
def token(a, t, n) = typed(chainToken($chain, a, t, n), "*esdt.ESDigitalToken")
iface vmcommon.BlockchainHook.GetESDTToken(h, a, t, n)
  pure
  returns0 chainToken($chain, str(a), str(t), n)
  returns1 chainTokenErr($chain, str(a), str(t), n)
  ensures result1 == nil ==> result0 != nil && result0.Value != nil
""")
TL = ['mm = str(mem(ctxMem(runOf(p))))', 'a = memRead(mm, addressOffset, 32)', 't = memRead(mm, tokenIDOffset, tokenIDLen)', 'ok = readable(mm, addressOffset, 32) && readable(mm, tokenIDOffset, tokenIDLen) && chainTokenErr($chain, a, t, wrapU64(nonce)) == 0', 'tok = token(a, t, wrapU64(nonce))']
TP = ['addressOffset', 'tokenIDOffset', 'tokenIDLen', 'nonce']
for n, v in [('Name', 'len(tok.TokenMetaData.Name)'), ('Attribute', 'len(tok.TokenMetaData.Attributes)'), ('URI', '(len(tok.TokenMetaData.URIs) == 0 ? 0 : len(tok.TokenMetaData.URIs[0]))')]:
    fn(f'getESDTNFT{n}Length', TP, '$points, ' + FAULT, TL, f'[length] ok ==> goesOn(p) && result == (tok.TokenMetaData == nil ? 0 : wrapI32({v}))',
       '[refused] !ok ==> stopped(p) && result == 0', '[paid] paid(p, price(p).GetExternalBalance)')
TOK = 'token(memRead(str(mem(ctxMem(runOf(p)))), addressOffset, 32), memRead(str(mem(ctxMem(runOf(p)))), tokenIDOffset, tokenIDLen), wrapU64(nonce))'
stores('getESDTBalance', 'GetExternalBalance', 'resultOffset', 'bebytes(big(tok.Value))', ok='wrapI32(len(d))', bad='0', params=TP + ['resultOffset'], present='ok', lets=TL[1:],
       extra=['[absent] !ok ==> stopped(p) && result == 0 && str(mem(m)) == mm'], assumes=[f'len(bebytes(big({TOK}.Value))) <= 2147483647'])

# ---- payment with its token
NAME = f'len({E}) > 0 ? str({E}[0].ESDTTokenName) : ""'
PAYV = f'(len({E}) > 0 && len({E}[0].ESDTTokenName) > 0 ? {padded("big("+E+"[0].ESDTValue)")} : {padded(CV)})'
fn('getCallValueTokenName', ['callValueOffset', 'tokenNameOffset'], f'$points, {MEM}, {FAULT}', ['m = ctxMem(runOf(p))', 'mm = str(mem(m))', f'name = {NAME}', f'd = {PAYV}'],
   '[result] inRange(mm, callValueOffset, len(d)) && inRange(mm, tokenNameOffset, len(name)) ==> goesOn(p) && result == wrapI32(len(name))',
   '[refused] tokenNameOffset < 0 && len(name) > 0 || callValueOffset < 0 && len(d) > 0 ==> stopped(p) && result == -1',
   '[paid] paid(p, price(p).GetCallValue)', req='eeiOk(p) && apart(p) && esdtOk(inputOf(p))', assumes=[f'len({NAME}) <= 2147483647', f'len({PAYV}) <= 2147483647'])

# ---- arguments of nested calls
raw("""
def le32(d, i) = d[i] + 256 * d[i + 1] + 65536 * d[i + 2] + 16777216 * d[i + 3]
func elrondapi.createInt32Array(rawData, numIntegers)
  nopanic
  requires 0 <= numIntegers && numIntegers <= 536870911 && len(rawData) == 4 * numIntegers
  ensures[len] len(result) == numIntegers && fresh(result)
  ensures[values] forall i int :: 0 <= i && i < numIntegers ==> result[i] == wrapI32(le32(rawData, 4 * i))
  inv {cursor int} cursor == 4 * iter && 0 <= iter
  inv {index int} index == iter
  inv {r []int32} fresh(r) && len(r) == numIntegers && forall i int :: 0 <= i && i < iter ==> r[i] == wrapI32(le32(rawData, 4 * i))
func elrondapi.getArgumentsFromMemory(h, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires hostOk(h) && h.runtimeContext.instance != nil
  let mm = str(mem(ctxMem(h.runtimeContext)))
  modifies nothing
  ensures[count] result2 == nil ==> numArguments >= 0 && len(result0) == numArguments
  ensures[refused] numArguments < 0 || numArguments > 536870911 || !readable(mm, argumentsLengthOffset, numArguments * 4) ==> result2 != nil
  ensures[none] result2 != nil ==> result0 == nil && result1 == 0
  ensures[lengths] result2 == nil && numArguments > 0 ==> forall i int :: 0 <= i && i < numArguments ==> len(result0[i]) == wrapI32(le32(memRead(mm, argumentsLengthOffset, numArguments * 4), 4 * i))
""")

raw("""
pred argsReadable(mm, n, lo) = 0 <= n && n <= 536870911 && readable(mm, lo, n * 4)
func elrondapi.extractIndirectContractCallArguments(h, destOffset, valueOffset, hasValueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
  nopanic
  requires hostOk(h) && h.runtimeContext.instance != nil && mOk(h.meteringContext) && h.meteringContext.host == h && 0 <= pointsOf(h.runtimeContext) && pointsOf(h.runtimeContext) <= maxI64
  let mm = str(mem(ctxMem(h.runtimeContext)))
  modifies $points
  ensures[refused] !readable(mm, destOffset, 32) || hasValueOffset && !readable(mm, valueOffset, 32) || !readable(mm, functionOffset, functionLength) || !argsReadable(mm, numArguments, argumentsLengthOffset) ==> result1 != nil
  ensures[none] result1 != nil <==> result0 == nil
  ensures[read] result1 == nil ==> str(result0.dest) == memRead(mm, destOffset, 32) && str(result0.function) == memRead(mm, functionOffset, functionLength) && len(result0.args) == numArguments
  ensures[value] result1 == nil && hasValueOffset ==> result0.value != nil && big(result0.value) == beval(memRead(mm, valueOffset, 32))
  ensures[gas] old(pointsOf(h.runtimeContext)) <= pointsOf(h.runtimeContext) && pointsOf(h.runtimeContext) <= maxI64
""")
fn('writeEventLog', ['numTopics', 'topicLengthsOffset', 'topicOffset', 'dataOffset', 'dataLength'], f'$points, {FAULT}, outpOf(p).outputState.Logs, elems(outpOf(p).outputState.Logs)',
   ['mm = str(mem(ctxMem(runOf(p))))', 'o = outpOf(p).outputState', 'n = len(o.Logs)', 'ro = runOf(p).readOnly'],
   '[refused] !argsReadable(mm, numTopics, topicLengthsOffset) || !readable(mm, dataOffset, dataLength) ==> stopped(p) && o.Logs == old(o.Logs)',
   '[entry] goesOn(p) && $bp[ref(runOf(p).instance)] != 1 && !ro ==> len(o.Logs) == n + 1 && str(o.Logs[n].Address) == str(runOf(p).scAddress) && str(o.Logs[n].Data) == memRead(mm, dataOffset, dataLength)',
   '[kept] len(o.Logs) >= n && forall i int :: 0 <= i && i < n ==> o.Logs[i] == old(o.Logs[i])',
   '[readonly] ro ==> o.Logs == old(o.Logs)',
   '[paid] goesOn(p) && $bp[ref(runOf(p).instance)] != 1 ==> paid(p, price(p).Log)')
fn('getESDTTokenData', TP + ['valueHandle', 'propertiesOffset', 'hashOffset', 'nameOffset', 'attributesOffset', 'creatorOffset', 'royaltiesHandle', 'urisOffset'],
   f'$points, {MEM}, {FAULT}, map(bigsOf(p).values), big(bigsOf(p).values[valueHandle]), big(bigsOf(p).values[royaltiesHandle])', ['m = ctxMem(runOf(p))'] + TL,
   '[refused] !ok ==> stopped(p) && result == 0 && str(mem(m)) == mm', '[paid] paid(p, price(p).GetExternalBalance)', req='eeiOk(p) && apart(p) && bigsOk(bigsOf(p))')

# ---- moving value out of a contract
raw("""
// the parser of call data (assumed: a function of the data)
ghost callName(Str) Str
ghost callErr(Str) Int
trusted parsers.NewCallArgsParser()
  pure
  ensures result != nil
trusted parsers.(*callArgsParser).ParseData(c, d)
  pure
  returns0 callName(d)
  returns2 callErr(d)
""")
fn('transferValue', ['destOffset', 'valueOffset', 'dataOffset', 'length'], f'$points, {FAULT}, map(m), m[s].Balance, m[s].BalanceDelta, m[d].BalanceDelta, m[d].OutputTransfers, elem(m[d].OutputTransfers, ntransfers(c, d))',
   ['mm = str(mem(ctxMem(runOf(p))))', 'c = outpOf(p)', 'm = accounts(c)', 's = str(runOf(p).scAddress)', 'd = memRead(mm, destOffset, 32)', 'v = beval(memRead(mm, valueOffset, 32))', 'data = memRead(mm, dataOffset, length)',
    'ok = readable(mm, destOffset, 32) && readable(mm, valueOffset, 32) && readable(mm, dataOffset, length)', 'bc = ref(H(p).builtInFuncContainer)', 'builtin = builtinErr(bc, callName(data)) == 0 && builtinOn(builtinFunc(bc, callName(data)))', 'possible = !refusable(c, s, d, v, false)'],
   '[refused] !ok || !builtin && !possible ==> stopped(p) && result == 1',
   '[builtin] ok && builtin ==> goesOn(p) && result == 1',
   '[nothing] !ok || builtin || !possible ==> forall k string :: delta(c, k) == old(delta(c, k)) && ntransfers(c, k) == old(ntransfers(c, k))',
   '[moved] ok && !builtin && possible ==> goesOn(p) && result == 0 && forall k string :: delta(c, k) == old(delta(c, k)) - (k == s ? v : 0) + (k == d ? v : 0) && ntransfers(c, k) == old(ntransfers(c, k)) + (k == d ? 1 : 0)',
   '[transfer] ok && !builtin && possible ==> big(m[d].OutputTransfers[old(ntransfers(c, d))].Value) == v && str(m[d].OutputTransfers[old(ntransfers(c, d))].Data) == data && m[d].OutputTransfers[old(ntransfers(c, d))].GasLimit == 0 && str(m[d].OutputTransfers[old(ntransfers(c, d))].SenderAddress) == s',
   '[paid] paid(p, price(p).TransferValue)', '[paidbytes] ok && length > 0 ==> paid(p, price(p).TransferValue + length * perByte(p).PersistPerByte)', req='eeiOk(p) && canTransfer(outpOf(p)) && H(p).builtInFuncContainer != nil')

# ---- nested calls: what cannot be read stops the caller before anything happens
def bad(name, params, cond, res, paid=None):
    out.append(f"case elrondapi.v1_3_{name}@badargs(p{''.join(', ' + x for x in params)})\n  nopanic\n  requires eeiOk(p) && ({cond.replace('mm', 'str(mem(ctxMem(runOf(p))))')})\n  modifies $points, {FAULT}\n  ensures[refused] stopped(p){' && result == ' + res if res else ''}\n" + (f'  ensures[paid] paid(p, price(p).{paid})\n' if paid else '') + '\n')
FN = ['functionOffset', 'functionLength', 'numArguments', 'argumentsLengthOffset', 'dataOffset']
DST = '!readable(mm, addressOffset, 32)'
FA = '!readable(mm, functionOffset, functionLength) || !argsReadable(mm, numArguments, argumentsLengthOffset)'
VAL = '!readable(mm, valueOffset, 32)'
for n in ['executeOnSameContext', 'executeOnDestContext', 'executeOnDestContextByCaller']:
    bad(n, ['gasLimit', 'addressOffset', 'valueOffset'] + FN, f'{DST} || {VAL} || {FA}', '1')
for n in ['delegateExecution', 'executeReadOnly']:
    bad(n, ['gasLimit', 'addressOffset'] + FN, f'{DST} || {FA}', '1')
bad('transferValueExecute', ['addressOffset', 'valueOffset', 'gasLimit'] + FN, f'{DST} || {VAL} || {FA}', '1', 'TransferValue')
bad('transferESDTNFTExecute', ['addressOffset', 'tokenIDOffset', 'tokenIDLen', 'valueOffset', 'nonce', 'gasLimit'] + FN, f'{DST} || {VAL} || {FA} || !readable(mm, tokenIDOffset, tokenIDLen)', '1')
bad('asyncCall', ['destOffset', 'valueOffset', 'dataOffset', 'length'], '!readable(mm, destOffset, 32) || !readable(mm, valueOffset, 32) || !readable(mm, dataOffset, length)', None, 'AsyncCallStep')
bad('createAsyncCall', ['id', 'idLength', 'destOffset', 'valueOffset', 'dataOffset', 'length', 'successOffset', 'successLength', 'errorOffset', 'errorLength', 'gas'],
    '!readable(mm, id, idLength) || !readable(mm, destOffset, 32) || !readable(mm, valueOffset, 32) || !readable(mm, dataOffset, length) || !readable(mm, successOffset, successLength) || !readable(mm, errorOffset, errorLength)', None)
bad('setAsyncContextCallback', ['id', 'idLength', 'callback', 'callbackLength'], 'runOf(p).asyncContextInfo != nil && (!readable(mm, id, idLength) || !readable(mm, callback, callbackLength))', '-1')
open('/verif/contracts/elrondei.spec', 'w').write(HEAD + '\n' + ''.join(out))
