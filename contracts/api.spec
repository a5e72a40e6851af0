property P14

// The host behind the context pointer that the native engine hands to each API function (assumed).
ghost vmAt(Int) Int
trusted arwen.GetVMHost(p)
  pure
  returns vmAt(ref(p))
  ensures is(result, *host.vmHost) && result.(*host.vmHost) != nil

def H(p) = typed(vmAt(ref(p)), "arwen.VMHost")
def bigsOf(p) = H(p).bigIntContext
def meterOf(p) = H(p).meteringContext
def runOf(p) = H(p).runtimeContext
def outpOf(p) = H(p).outputContext
def storOf(p) = H(p).storageContext
def bigCosts(p) = meterOf(p).gasSchedule.BigIntAPICost
pred bigsOk(b) = b != nil && b.values != nil && (forall h int32 :: has(b.values, h) ==> b.values[h] != nil) && forall h int32, k int32 :: has(b.values, h) && has(b.values, k) && h != k ==> b.values[h] != b.values[k]
pred apiOk(p) = hostOk(H(p)) && mOk(meterOf(p)) && meterOf(p).host == H(p) && runOf(p).host == H(p) && runOf(p).instance != nil && outputOk(outpOf(p)) && outpOf(p).host == H(p) && 0 <= pointsOf(runOf(p)) && pointsOf(runOf(p)) <= maxI64
// the number behind a handle; a handle that was never set stands for zero
def val(b, h) = has(b.values, h) ? big(b.values[h]) : 0

// the guest's memory lies outside the host's own data (assumed: the native engine allocates it)
pred apart(p) = forall k string :: has(accounts(outpOf(p)), k) ==> base(accounts(outpOf(p))[k].Address) != base(mem(ctxMem(runOf(p))))

pred gasGone(p) = $points == store(old($points), ref(runOf(p).instance), min(old(pointsOf(runOf(p))) + max(meterOf(p).gasForExecution - old(pointsOf(runOf(p))), 0), maxI64))
pred failedWith(p, err) = outpOf(p).outputState.ReturnCode == vmcommon.ExecutionFailed && outpOf(p).outputState.ReturnMessage == errmsg(ref(err)) && $bp == store(old($bp), ref(runOf(p).instance), 1)

func contexts.(*runtimeContext).FailExecution(c, err)
  nopanic
  requires c != nil && hostOk(c.host) && outputOk(c.host.outputContext) && c.instance != nil
  let o = c.host.outputContext
  modifies $bp, o.outputState.ReturnCode, o.outputState.ReturnMessage, c.errors
  ensures[stop] $bp == store(old($bp), ref(c.instance), 1)
  ensures[code] o.outputState.ReturnCode == vmcommon.ExecutionFailed
  ensures[message] o.outputState.ReturnMessage == (err == nil ? "execution failed" : errmsg(ref(err)))

func arwen.WithFaultAndHost(h, err, failExecution)
  nopanic
  requires hostOk(h) && mOk(h.meteringContext) && h.meteringContext.host == h && h.runtimeContext.host == h && h.runtimeContext.instance != nil && outputOk(h.outputContext)
  modifies $bp, $points, h.outputContext.outputState.ReturnCode, h.outputContext.outputState.ReturnMessage, h.runtimeContext.errors
  ensures[fault] result <==> err != nil
  ensures[stop] err != nil && failExecution ==> $bp == store(old($bp), ref(h.runtimeContext.instance), 1)
  ensures[code] err != nil && failExecution ==> h.outputContext.outputState.ReturnCode == vmcommon.ExecutionFailed && h.outputContext.outputState.ReturnMessage == errmsg(ref(err))
  ensures[gas] err != nil && failExecution ==> $points == store(old($points), ref(h.runtimeContext.instance), min(old(pointsOf(h.runtimeContext)) + max(h.meteringContext.gasForExecution - old(pointsOf(h.runtimeContext)), 0), maxI64))
  ensures[none] err == nil || !failExecution ==> same($points, $bp) && h.outputContext.outputState.ReturnCode == old(h.outputContext.outputState.ReturnCode) && h.outputContext.outputState.ReturnMessage == old(h.outputContext.outputState.ReturnMessage)

func arwen.WithFault(err, p, failExecution)
  nopanic
  requires apiOk(p)
  modifies $bp, $points, outpOf(p).outputState.ReturnCode, outpOf(p).outputState.ReturnMessage, runOf(p).errors
  ensures[fault] result <==> err != nil
  ensures[failed] err != nil && failExecution ==> failedWith(p, err) && gasGone(p)
  ensures[none] err == nil || !failExecution ==> same($points, $bp) && outpOf(p).outputState.ReturnCode == old(outpOf(p).outputState.ReturnCode) && outpOf(p).outputState.ReturnMessage == old(outpOf(p).outputState.ReturnMessage)

pred paid(p, price) = pointsOf(runOf(p)) >= min(old(pointsOf(runOf(p))) + price, maxI64)
