property P18

// ---- the primitives (assumed): a hash object absorbs bytes and yields their digest, a verification is a fixed relation
ghostvar $hash (Array Int Int)
ghost hashInit(Int) Int
ghost hashAdd(Int, Str) Int
ghost digest(Int) Str
def hashOf(kind, d) = digest(hashAdd(hashInit(kind), d))
trusted sha256.New()
  modifies $hash
  ensures result != nil && fresh(result) && $hash == store(old($hash), ref(result), hashInit(1))
trusted sha3.NewLegacyKeccak256()
  modifies $hash
  ensures result != nil && fresh(result) && $hash == store(old($hash), ref(result), hashInit(2))
trusted ripemd160.New()
  modifies $hash
  ensures result != nil && fresh(result) && $hash == store(old($hash), ref(result), hashInit(3))
iface hash.Hash.Write(h, p)
  modifies $hash
  ensures result1 == nil && result0 == len(p) && $hash == store(old($hash), ref(h), hashAdd(old($hash)[ref(h)], str(p)))
iface hash.Hash.Sum(h, b)
  pure
  requires b == nil
  ensures str(result) == digest($hash[ref(h)])

func hashing.(*hasher).Sha256(h, data)
  nopanic
  modifies $hash
  ensures[digest] result1 == nil && str(result0) == hashOf(1, str(data))
func hashing.(*hasher).Keccak256(h, data)
  nopanic
  modifies $hash
  ensures[digest] result1 == nil && str(result0) == hashOf(2, str(data))
func hashing.(*hasher).Ripemd160(h, data)
  nopanic
  modifies $hash
  ensures[digest] result1 == nil && str(result0) == hashOf(3, str(data))

ghost edSig(Str, Str, Str) Bool
trusted ed25519.Verify(key, msg, sig)
  pure
  requires len(key) == 32
  returns edSig(str(key), str(msg), str(sig))
func ed25519.(*ed25519).VerifyEd25519(e, key, msg, sig)
  nopanic pure
  ensures[accept] result == nil <==> len(key) == 32 && edSig(str(key), str(msg), str(sig))

// ---- the functions offered to contracts
ghost hashErr(Int, Str) Int
ghost blsErr(Str, Str, Str) Int
ghost edErr(Str, Str, Str) Int
ghost secErr(Str, Str, Str) Int
iface crypto.VMCrypto.Keccak256(h, data)
  pure
  returns1 hashErr(2, str(data))
  ensures result1 == nil ==> str(result0) == hashOf(2, str(data))
iface crypto.VMCrypto.Ripemd160(h, data)
  pure
  returns1 hashErr(3, str(data))
  ensures result1 == nil ==> str(result0) == hashOf(3, str(data))
iface crypto.VMCrypto.VerifyBLS(h, key, msg, sig)
  pure
  returns blsErr(str(key), str(msg), str(sig))
iface crypto.VMCrypto.VerifyEd25519(h, key, msg, sig)
  pure
  returns edErr(str(key), str(msg), str(sig))
iface crypto.VMCrypto.VerifySecp256k1(h, key, msg, sig)
  pure
  returns secErr(str(key), str(msg), str(sig))
pred inside(mm, o, n) = n == 0 || 0 <= o && o <= len(mm) && 0 < n
def cryptoCosts(p) = meterOf(p).gasSchedule.CryptoAPICost

func cryptoapi.v1_3_sha256(p, dataOffset, length, resultOffset)
  also P14
  nopanic
  requires apiOk(p) && apart(p) && H(p).cryptoHook != nil
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let data = memRead(mm, dataOffset, length)
  let d = hashOf(1, data)
  assumes len(hashOf(1, memRead(str(mem(ctxMem(runOf(p)))), dataOffset, length))) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[status] result == 0 || result == 1
  ensures[success] result == 0 ==> inside(mm, dataOffset, length) && hashErr(1, data) == 0 && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d)
  ensures[complete] inside(mm, dataOffset, length) && hashErr(1, data) == 0 && 0 <= resultOffset && resultOffset + len(d) <= len(mm) ==> result == 0 && $bp == old($bp)
  ensures[failed] !inside(mm, dataOffset, length) || hashErr(1, data) != 0 ==> result == 1 && str(mem(m)) == mm
  ensures[stopped] !inside(mm, dataOffset, length) ==> $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, cryptoCosts(p).SHA256)
  ensures[paidbytes] length >= 0 ==> paid(p, cryptoCosts(p).SHA256 + length * meterOf(p).gasSchedule.BaseOperationCost.DataCopyPerByte)

func cryptoapi.v1_3_keccak256(p, dataOffset, length, resultOffset)
  also P14
  nopanic
  requires apiOk(p) && apart(p) && H(p).cryptoHook != nil
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let data = memRead(mm, dataOffset, length)
  let d = hashOf(2, data)
  assumes len(hashOf(2, memRead(str(mem(ctxMem(runOf(p)))), dataOffset, length))) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[status] result == 0 || result == 1
  ensures[success] result == 0 ==> inside(mm, dataOffset, length) && hashErr(2, data) == 0 && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d)
  ensures[complete] inside(mm, dataOffset, length) && hashErr(2, data) == 0 && 0 <= resultOffset && resultOffset + len(d) <= len(mm) ==> result == 0 && $bp == old($bp)
  ensures[failed] !inside(mm, dataOffset, length) || hashErr(2, data) != 0 ==> result == 1 && str(mem(m)) == mm
  ensures[stopped] !inside(mm, dataOffset, length) ==> $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, cryptoCosts(p).Keccak256)
  ensures[paidbytes] length >= 0 ==> paid(p, cryptoCosts(p).Keccak256 + length * meterOf(p).gasSchedule.BaseOperationCost.DataCopyPerByte)

func cryptoapi.v1_3_ripemd160(p, dataOffset, length, resultOffset)
  also P14
  nopanic
  requires apiOk(p) && apart(p) && H(p).cryptoHook != nil
  let m = ctxMem(runOf(p))
  let mm = str(mem(m))
  let data = memRead(mm, dataOffset, length)
  let d = hashOf(3, data)
  assumes len(hashOf(3, memRead(str(mem(ctxMem(runOf(p)))), dataOffset, length))) <= 2147483647
  modifies $points, $memLen, $memBase, elems(mem(ctxMem(runOf(p)))), $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[status] result == 0 || result == 1
  ensures[success] result == 0 ==> inside(mm, dataOffset, length) && hashErr(3, data) == 0 && (len(d) > 0 ==> str(mem(m))[resultOffset:resultOffset+len(d)] == d)
  ensures[complete] inside(mm, dataOffset, length) && hashErr(3, data) == 0 && 0 <= resultOffset && resultOffset + len(d) <= len(mm) ==> result == 0 && $bp == old($bp)
  ensures[failed] !inside(mm, dataOffset, length) || hashErr(3, data) != 0 ==> result == 1 && str(mem(m)) == mm
  ensures[stopped] !inside(mm, dataOffset, length) ==> $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[paid] paid(p, cryptoCosts(p).Ripemd160)
  ensures[paidbytes] length >= 0 ==> paid(p, cryptoCosts(p).Ripemd160 + length * meterOf(p).gasSchedule.BaseOperationCost.DataCopyPerByte)

func cryptoapi.v1_3_verifyBLS(p, keyOffset, messageOffset, messageLength, sigOffset)
  also P14
  nopanic
  requires apiOk(p) && H(p).cryptoHook != nil
  let mm = str(mem(ctxMem(runOf(p))))
  let readable = inside(mm, keyOffset, 96) && inside(mm, messageOffset, messageLength) && inside(mm, sigOffset, 48)
  let e = blsErr(memRead(mm, keyOffset, 96), memRead(mm, messageOffset, messageLength), memRead(mm, sigOffset, 48))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[accept] result == 0 <==> readable && e == 0
  ensures[reject] result == -1 <==> readable && e != 0
  ensures[unreadable] !readable ==> result == 1 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[goeson] readable ==> $bp == old($bp)
  ensures[paid] paid(p, cryptoCosts(p).VerifyBLS)

func cryptoapi.v1_3_verifyEd25519(p, keyOffset, messageOffset, messageLength, sigOffset)
  also P14
  nopanic
  requires apiOk(p) && H(p).cryptoHook != nil
  let mm = str(mem(ctxMem(runOf(p))))
  let readable = inside(mm, keyOffset, 32) && inside(mm, messageOffset, messageLength) && inside(mm, sigOffset, 64)
  let e = edErr(memRead(mm, keyOffset, 32), memRead(mm, messageOffset, messageLength), memRead(mm, sigOffset, 64))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[accept] result == 0 <==> readable && e == 0
  ensures[reject] result == -1 <==> readable && e != 0
  ensures[unreadable] !readable ==> result == 1 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[goeson] readable ==> $bp == old($bp)
  ensures[paid] paid(p, cryptoCosts(p).VerifyEd25519)

func cryptoapi.v1_3_verifySecp256k1(p, keyOffset, keyLength, messageOffset, messageLength, sigOffset)
  also P14
  nopanic
  requires apiOk(p) && H(p).cryptoHook != nil
  let mm = str(mem(ctxMem(runOf(p))))
  let head = memRead(mm, sigOffset, 2)
  let readable = (keyLength == 33 || keyLength == 65) && inside(mm, keyOffset, keyLength) && inside(mm, messageOffset, messageLength) && inside(mm, sigOffset, 2)
  let e = secErr(memRead(mm, keyOffset, keyLength), memRead(mm, messageOffset, messageLength), memRead(mm, sigOffset, head[1] + 2))
  modifies $points, $bp, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[accept] result == 0 <==> readable && e == 0
  ensures[reject] result == -1 <==> readable && e != 0
  ensures[unreadable] !readable ==> result == 1 && $bp == store(old($bp), ref(runOf(p).instance), 1)
  ensures[goeson] readable ==> $bp == old($bp)
  ensures[paid] paid(p, cryptoCosts(p).VerifySecp256k1)

// ---- the signature schemes over their (assumed) parsers and curves
ghost secKeyErr(Str) Int
ghost secSigErr(Str) Int
ghost pubBytes(Int) Str
ghost sigBytes(Int) Str
ghost doubleHash(Str) Str
ghost secSig(Str, Str, Str) Bool
trusted btcec.S256()
  pure
trusted btcec.ParsePubKey(key, curve)
  pure
  returns1 secKeyErr(str(key))
  ensures result1 == nil ==> result0 != nil && pubBytes(ref(result0)) == str(key)
trusted btcec.ParseSignature(sig, curve)
  pure
  returns1 secSigErr(str(sig))
  ensures result1 == nil ==> result0 != nil && sigBytes(ref(result0)) == str(sig)
trusted chainhash.DoubleHashB(d)
  pure
  ensures str(result) == doubleHash(str(d))
trusted btcec.(*Signature).Verify(s, hash, key)
  pure
  requires s != nil && key != nil
  returns secSig(pubBytes(ref(key)), str(hash), sigBytes(ref(s)))
func secp256k1.(*secp256k1).VerifySecp256k1(s, key, msg, sig)
  nopanic pure
  ensures[accept] result == nil <==> secKeyErr(str(key)) == 0 && secSigErr(str(sig)) == 0 && secSig(str(key), doubleHash(str(msg)), str(sig))

ghost blsKeyErr(Int, Str) Int
ghost blsKey(Int) Str
ghost blsSigErr(Int, Str, Str, Str) Int
iface crypto.KeyGenerator.PublicKeyFromByteArray(g, key)
  pure
  returns1 blsKeyErr(ref(g), str(key))
  ensures result1 == nil ==> result0 != nil && blsKey(ref(result0)) == str(key)
iface crypto.SingleSigner.Verify(g, key, msg, sig)
  pure
  returns blsSigErr(ref(g), blsKey(ref(key)), str(msg), str(sig))
func bls.(*bls).VerifyBLS(b, key, msg, sig)
  nopanic pure
  requires b != nil && b.keyGenerator != nil && b.signer != nil
  ensures[accept] result == nil <==> blsKeyErr(ref(b.keyGenerator), str(key)) == 0 && blsSigErr(ref(b.signer), str(key), str(msg), str(sig)) == 0
