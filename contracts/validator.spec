property P10

// built-in protocol functions (node): names and whether each is active
ghost builtinHas(Int, Str) Bool
ghost builtinFunc(Int, Str) Int
ghost builtinErr(Int, Str) Int
ghost builtinOn(Int) Bool
iface vmcommon.BuiltInFunctionContainer.Keys(b)
  freshresult
  modifies nothing
  ensures fresh(result) && forall n string :: has(result, n) <==> builtinHas(ref(b), n)
iface vmcommon.BuiltInFunctionContainer.Get(b, name)
  pure
  returns0 builtinFunc(ref(b), name)
  returns1 builtinErr(ref(b), name)
  ensures result1 == nil ==> result0 != nil
iface vmcommon.BuiltinFunction.IsActive(f)
  pure
  returns builtinOn(ref(f))
def sha256(d) = hashOf(1, d)
iface crypto.VMCrypto.Sha256(h, data)
  pure
  returns1 hashErr(1, str(data))
  ensures result1 == nil ==> str(result0) == sha256(str(data))

pred isBuiltin(b, n) = builtinHas(ref(b), n) && builtinErr(ref(b), n) == 0 && builtinOn(builtinFunc(ref(b), n))

func contexts.NewReservedFunctions(names, builtin)
  nopanic
  requires builtin != nil
  ensures[fresh] result != nil && fresh(result) && result.functionNames != nil
  ensures[names] forall n string :: has(result.functionNames, n) <==> has(names, n) || isBuiltin(builtin, n) || n == "upgradeContract"
  inv {r *contexts.reservedFunctions} r.functionNames != nil && forall n string :: has(r.functionNames, n) <==> visited(n) && isBuiltin(builtin, n)
  inv {r *contexts.reservedFunctions} r.functionNames != nil && forall n string :: has(r.functionNames, n) <==> visited(n) || isBuiltin(builtin, n)

func contexts.(*reservedFunctions).IsReserved(r, n)
  nopanic
  requires r != nil
  returns has(r.functionNames, n)

pred ascii(s) = forall i int :: 0 <= i && i < len(s) ==> s[i] <= 127
pred goodName(v, n) = 0 < len(n) && len(n) < 256 && ascii(n) && !has(v.reserved.functionNames, n)
pred isVoid(i, n) = has(i.Signatures, n) && i.Signatures[n].InputArity == 0 && i.Signatures[n].OutputArity == 0
func contexts.(*wasmValidator).verifyValidFunctionName(v, n)
  helper nopanic
  requires v != nil && v.reserved != nil
  ensures[name] result == nil <==> goodName(v, n)
  inv {i int} 0 <= i && forall j int :: 0 <= j && j < i ==> n[j] <= 127

func contexts.isASCIIString(s)
  helper nopanic
  ensures[ascii] result <==> ascii(s)
  inv {i int} 0 <= i && forall j int :: 0 <= j && j < i ==> s[j] <= 127

func contexts.(*wasmValidator).verifyFunctions(v, i)
  helper nopanic
  requires v != nil && v.reserved != nil && i != nil && sigsOk(i.(*wasmer.Instance))
  let w = i.(*wasmer.Instance)
  ensures[all] result == nil <==> forall n string :: has(w.Exports, n) ==> goodName(v, n) && isVoid(w, n)
  inv forall n string :: visited(n) ==> goodName(v, n) && isVoid(w, n)

pred esdtImport(i) = instImports(ref(i), "transferESDTExecute") || instImports(ref(i), "transferESDTNFTExecute") || instImports(ref(i), "transferValueExecute")
| || instImports(ref(i), "getESDTBalance") || instImports(ref(i), "getESDTTokenData") || instImports(ref(i), "getESDTTokenType") || instImports(ref(i), "getESDTTokenNonce")
| || instImports(ref(i), "getCurrentESDTNFTNonce") || instImports(ref(i), "getESDTNFTNameLength") || instImports(ref(i), "getESDTNFTAttributeLength")
| || instImports(ref(i), "getESDTNFTURILength") || instImports(ref(i), "bigIntGetESDTExternalBalance")
pred validCode(c, i) = i.(*wasmer.Instance).Memory != nil && (c.host.flagESDTFunctions.value == 1 || !esdtImport(i))
| && forall n string :: has(i.(*wasmer.Instance).Exports, n) ==> goodName(c.validator, n) && isVoid(i.(*wasmer.Instance), n)

func contexts.(*runtimeContext).VerifyContractCode(c)
  nopanic
  requires c != nil && c.host != nil && instOk(c.instance) && c.validator != nil && c.validator.reserved != nil
  modifies c.verifyCode
  ensures[done] !c.verifyCode
  ensures[skip] !old(c.verifyCode) ==> result == nil
  ensures[verdict] old(c.verifyCode) ==> (result == nil <==> validCode(c, c.instance))

func contexts.(*runtimeContext).GetFunctionToCall(c)
  also P11
  nopanic
  requires c != nil && instOk(c.instance)
  let e = c.instance.(*wasmer.Instance).Exports
  ensures[found] result1 == nil <==> has(e, c.callFunction)
  ensures[function] result1 == nil ==> result0 == e[c.callFunction]
  ensures[missing] result1 != nil ==> result1 == (c.callFunction == arwen.CallbackFunctionName ? arwen.ErrNilCallbackFunction : arwen.ErrFuncNotFound)

func contexts.(*runtimeContext).GetInitFunction(c)
  also P11
  nopanic
  requires c != nil && instOk(c.instance)
  let e = c.instance.(*wasmer.Instance).Exports
  ensures[init] has(e, "init") ==> result == e["init"]
  ensures[none] !has(e, "init") ==> result == nil

// starting an instance: new code is compiled from exactly the given bytes and verified
def warm(c) = c.useWarmInstance && c.warmInstanceAddress != nil && c.scAddress != nil && str(c.scAddress) == str(c.warmInstanceAddress)
func contexts.(*runtimeContext).StartWasmerInstance(c, contract, gasLimit, newCode)
  nopanic
  requires c != nil && c.host != nil && c.validator != nil && c.validator.reserved != nil && hostOk(c.host) && c.host.runtimeContext == c && mOk(c.host.meteringContext) && c.host.blockchainContext.blockChainHook != nil && c.instanceBuilder != nil && c.host.cryptoHook != nil
  requires c.warmInstanceAddress != nil ==> instOk(c.warmInstance)
  let full = len(c.instanceStack) + (c.instance == nil ? 0 : 1) >= c.maxWasmerInstances
  modifies c.instance, c.warmInstance, c.warmInstanceAddress, c.verifyCode, $points, $gaslimit, $bp
  ensures[valid] result == nil && newCode && old(c.verifyCode) ==> validCode(c, c.instance)
  ensures[code] result == nil && newCode ==> instCode(ref(c.instance)) == str(contract)
  ensures[failed] result != nil ==> c.instance == nil
  ensures[started] result == nil ==> c.instance != nil && $gaslimit[ref(c.instance)] == gasLimit && $points[ref(c.instance)] == 0
  ensures[inst] result == nil ==> instOk(c.instance)
  ensures[warm] newCode && old(warm(c)) && result == nil ==> !warm(c)

// the names reserved for the interface are exactly those of the functions imported by contracts
pred imported(i, n) = exists s string :: has(i.imports, s) && has(i.imports[s], n)
func wasmer.(*Imports).Names(i)
  nopanic
  requires i != nil
  ensures[names] fresh(result) && forall n string :: has(result, n) <==> imported(i, n)
  inv {m vmcommon.FunctionNames} m != nil && forall n string :: has(m, n) <==> exists s string :: visited(s) && has(i.imports[s], n)
  inv {m vmcommon.FunctionNames} forall n string :: has(m, n) <==> pre(has(m, n)) || visited(n)

func contexts.NewRuntimeContext(host, vmType, warm, builtin)
  nopanic
  requires host != nil && builtin != nil && host.scAPIMethods != nil
  ensures[made] result1 == nil && result0 != nil && result0.host == host && result0.validator != nil && result0.validator.reserved != nil
  ensures[reserved] forall n string :: has(result0.validator.reserved.functionNames, n) <==> imported(host.scAPIMethods, n) || isBuiltin(builtin, n) || n == "upgradeContract"
  ensures[initial] !result0.verifyCode && !result0.readOnly && result0.instance == nil && result0.warmInstance == nil && result0.warmInstanceAddress == nil
