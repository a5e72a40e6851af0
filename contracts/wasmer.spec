// The native engine (outside the repository): assumed contracts.
ghostvar $points (Array Int Int)
ghostvar $bp (Array Int Int)
ghostvar $gaslimit (Array Int Int)
ghostvar $memBase (Array Int Int)
ghostvar $memLen (Array Int Int)
ghost memOf(Int) Int
// the bytes of a guest memory
def mem(m) = bytesAt($memBase[ref(m)], 0, $memLen[ref(m)])
// guest memories stay below 2 GiB (assumption)
def memOk(m) = 0 <= $memLen[ref(m)] && $memLen[ref(m)] <= 2147418112 && $memBase[ref(m)] != 0

impl wasmer.InstanceHandler = *wasmer.Instance
iface wasmer.InstanceHandler.GetPointsUsed(p)
  pure
  returns $points[ref(p)]
  ensures inU64(result)
iface wasmer.InstanceHandler.SetPointsUsed(p, v)
  modifies $points
  ensures $points == store(old($points), ref(p), v)
iface wasmer.InstanceHandler.SetGasLimit(p, v)
  modifies $gaslimit
  ensures $gaslimit == store(old($gaslimit), ref(p), v)
iface wasmer.InstanceHandler.GetBreakpointValue(p)
  pure
  returns $bp[ref(p)]
  ensures inU64(result)
iface wasmer.InstanceHandler.SetBreakpointValue(p, v)
  modifies $bp
  ensures $bp == store(old($bp), ref(p), v)
iface wasmer.InstanceHandler.GetInstanceCtxMemory(p)
  pure
  returns memOf(ref(p))
  ensures result != nil
iface wasmer.InstanceHandler.Clean(p)
  pure
iface wasmer.InstanceHandler.SetContextData(p, d)
  pure
ghost instImports(Int, Str) Bool
iface wasmer.InstanceHandler.IsFunctionImported(p, name)
  pure
  returns instImports(ref(p), name)
iface wasmer.InstanceHandler.Cache(p)
  pure
iface wasmer.MemoryHandler.Length(m)
  pure
  returns $memLen[ref(m)]
  ensures memOk(m)
iface wasmer.MemoryHandler.Data(m)
  pure
  returns mem(m)
  ensures memOk(m)
iface wasmer.MemoryHandler.Grow(m, n)
  modifies $memLen, $memBase
  ensures $memLen == store(old($memLen), ref(m), $memLen[ref(m)])
  ensures $memBase == store(old($memBase), ref(m), $memBase[ref(m)])
  ensures result != nil ==> same($memLen[ref(m)], $memBase[ref(m)])
  ensures old($memLen[ref(m)]) <= $memLen[ref(m)] && $memLen[ref(m)] <= old($memLen[ref(m)]) + n * 65536 && memOk(m)
  ensures $memBase[ref(m)] == old($memBase[ref(m)]) || fresh(mem(m))
  ensures mem(m)[0:old($memLen[ref(m)])] == old(str(mem(m)))

// atomic flags of the vm-common library
trusted atomic.(*Flag).IsSet(f)
  pure
  ensures result <==> f.value == 1
trusted atomic.(*Flag).Toggle(f, b)
  modifies f.value
  ensures f.value == (b ? 1 : 0)

pred sigsOk(i) = (forall n string :: has(i.Signatures, n) ==> i.Signatures[n] != nil) && forall n string :: has(i.Exports, n) ==> i.Exports[n] != nil
pred instOk(i) = i != nil && i.(*wasmer.Instance) != nil && sigsOk(i.(*wasmer.Instance))
// compiling and instantiating code (native)
ghost instCode(Int) Str
impl arwen.InstanceBuilder = *contexts.wasmerInstanceBuilder
trusted wasmer.NewInstanceWithOptions(code, options)
  freshresult
  modifies $points, $gaslimit, $bp
  ensures result1 == nil ==> fresh(result0) && sigsOk(result0) && instCode(ref(iface(result0))) == str(code)
  ensures result1 == nil ==> $gaslimit == store(old($gaslimit), ref(iface(result0)), options.GasLimit) && $points == store(old($points), ref(iface(result0)), 0) && $bp == store(old($bp), ref(iface(result0)), 0)
  ensures result1 != nil ==> same($points, $gaslimit, $bp)
trusted wasmer.NewInstanceFromCompiledCodeWithOptions(code, options)
  freshresult
  modifies $points, $gaslimit, $bp
  ensures result1 == nil ==> fresh(result0) && sigsOk(result0)
  ensures result1 == nil ==> $gaslimit == store(old($gaslimit), ref(iface(result0)), options.GasLimit) && $points == store(old($points), ref(iface(result0)), 0) && $bp == store(old($bp), ref(iface(result0)), 0)
  ensures result1 != nil ==> same($points, $gaslimit, $bp)
