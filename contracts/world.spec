// Closed world: in production each context interface has one implementation.
impl arwen.VMHost = *host.vmHost
impl arwen.RuntimeContext = *contexts.runtimeContext
impl arwen.OutputContext = *contexts.outputContext
impl arwen.MeteringContext = *contexts.meteringContext
impl arwen.StorageContext = *contexts.storageContext
impl arwen.BlockchainContext = *contexts.blockchainContext
impl arwen.BigIntContext = *contexts.bigIntContext

def maxU64 = 18446744073709551615
def maxI64 = 9223372036854775807
def rtOf(c) = c.host.runtimeContext
def outOf(c) = c.host.outputContext
def pointsOf(r) = r.instance == nil ? 0 : $points[ref(r.instance)]
def v2(h) = h.flagArwenV2.value == 1
