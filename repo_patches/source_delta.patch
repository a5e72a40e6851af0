From c050b5454a5227ba684fabae5ce57fb5dcbde1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 01/19] fix: saturate checked additions and subtractions in the
 direction of the overflow

---
 math/overflow.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/math/overflow.go b/math/overflow.go
index 6c989a4..b32602f 100644
--- a/math/overflow.go
+++ b/math/overflow.go
@@ -37,6 +37,10 @@ func AddInt64(a, b int64) int64 {
 	}
 
 	log.Error("AddInt64 overflow", "a", a, "b", b)
+	if a < 0 {
+		return builtinMath.MinInt64
+	}
+
 	return builtinMath.MaxInt64
 }
 
@@ -75,6 +79,10 @@ func AddInt32(a, b int32) int32 {
 	res, err := AddInt32WithError(a, b)
 	if err != nil {
 		log.Error("AddInt32 overflow", "a", a, "b", b)
+		if a < 0 {
+			return builtinMath.MinInt32
+		}
+
 		return builtinMath.MaxInt32
 	}
 
@@ -99,5 +107,9 @@ func SubInt(a, b int) int {
 	}
 
 	log.Error("SubInt underflow", "a", a, "b", b)
+	if a >= 0 {
+		return builtinMath.MaxInt64
+	}
+
 	return builtinMath.MinInt64
 }
-- 
2.43.0


From 29c8462c44fe892ec2a4275160173b1767a6e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 02/19] fix: always read node-protected keys from the node

---
 arwen/contexts/storage.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 72238af..9018693 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -133,17 +133,7 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 		}
 	}
 
-	// If the requested key is protected by the Elrond node, the stored value
-	// could have been changed by a built-in function in the meantime, even if
-	// contracts themselves cannot change protected values. Values stored under
-	// protected keys must always be retrieved from the node, not from the cached
-	// StorageUpdates.
-	var value []byte
-	if context.isElrondReservedKey(key) {
-		value, _ = context.blockChainHook.GetStorageData(address, key)
-	} else {
-		value = context.getStorageFromAddressUnmetered(address, key)
-	}
+	value := context.getStorageFromAddressUnmetered(address, key)
 
 	costPerByte := metering.GasSchedule().BaseOperationCost.DataCopyPerByte
 	gasToUse := math.MulUint64(costPerByte, uint64(len(value)))
@@ -156,6 +146,16 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 func (context *storageContext) getStorageFromAddressUnmetered(address []byte, key []byte) []byte {
 	var value []byte
 
+	// If the requested key is protected by the Elrond node, the stored value
+	// could have been changed by a built-in function in the meantime, even if
+	// contracts themselves cannot change protected values. Values stored under
+	// protected keys must always be retrieved from the node, not from the cached
+	// StorageUpdates.
+	if context.isElrondReservedKey(key) {
+		value, _ = context.blockChainHook.GetStorageData(address, key)
+		return value
+	}
+
 	storageUpdates := context.GetStorageUpdates(address)
 	if storageUpdate, ok := storageUpdates[string(key)]; ok {
 		value = storageUpdate.Data
-- 
2.43.0


From 75974afc2270c9d8a90c197ba4e3583685b909f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 03/19] fix: keep the previous transaction hash when copying
 the call input

---
 arwen/contexts/runtime.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..c030285 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -474,6 +474,11 @@ func (context *runtimeContext) SetVMInput(vmInput *vmcommon.VMInput) {
 		copy(context.vmInput.CurrentTxHash, vmInput.CurrentTxHash)
 	}
 
+	if len(vmInput.PrevTxHash) > 0 {
+		context.vmInput.PrevTxHash = make([]byte, len(vmInput.PrevTxHash))
+		copy(context.vmInput.PrevTxHash, vmInput.PrevTxHash)
+	}
+
 	if len(vmInput.Arguments) > 0 {
 		context.vmInput.Arguments = make([][]byte, len(vmInput.Arguments))
 		for i, arg := range vmInput.Arguments {
-- 
2.43.0


From 5e9b83a487e3ea78c1268761dda8e76b9ac3e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 04/19] fix: restore the caller's code size together with its
 runtime state

---
 arwen/contexts/runtime.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index c030285..ede1f25 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -324,6 +324,7 @@ func (context *runtimeContext) PushState() {
 	newState := &runtimeContext{
 		scAddress:        context.scAddress,
 		callFunction:     context.callFunction,
+		codeSize:         context.codeSize,
 		readOnly:         context.readOnly,
 		asyncCallInfo:    context.asyncCallInfo,
 		asyncContextInfo: context.asyncContextInfo,
@@ -353,6 +354,7 @@ func (context *runtimeContext) PopSetActiveState() {
 	context.SetVMInput(prevState.vmInput)
 	context.scAddress = prevState.scAddress
 	context.callFunction = prevState.callFunction
+	context.codeSize = prevState.codeSize
 	context.readOnly = prevState.readOnly
 	context.asyncCallInfo = prevState.asyncCallInfo
 	context.asyncContextInfo = prevState.asyncContextInfo
-- 
2.43.0


From b651c202d52007d97dad82b3bdacf4eb6c2d17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 05/19] fix: keep the accumulated gas refund when merging an
 output that has none

---
 arwen/contexts/output.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 4c06e4a..9da1309 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -542,7 +542,9 @@ func mergeVMOutputs(leftOutput *vmcommon.VMOutput, rightOutput *vmcommon.VMOutpu
 	leftOutput.Logs = append(leftOutput.Logs, rightOutput.Logs...)
 	leftOutput.ReturnData = append(leftOutput.ReturnData, rightOutput.ReturnData...)
 	leftOutput.GasRemaining = rightOutput.GasRemaining
-	leftOutput.GasRefund = rightOutput.GasRefund
+	if rightOutput.GasRefund != nil {
+		leftOutput.GasRefund = rightOutput.GasRefund
+	}
 	if leftOutput.GasRefund == nil {
 		leftOutput.GasRefund = big.NewInt(0)
 	}
-- 
2.43.0


From f13277d931b1d607f1d8268874f2e6fb7be934e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 06/19] fix: add the callee's gas refund to the caller's after
 a nested call

---
 arwen/contexts/output.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 9da1309..5bf2383 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -97,7 +97,10 @@ func (context *outputContext) PopMergeActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 
+	// the refund of the current state was accumulated from zero, see CensorVMOutput()
+	gasRefund := big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
 	mergeVMOutputs(prevState, context.outputState)
+	prevState.GasRefund = gasRefund
 	context.outputState = newVMOutput()
 	mergeVMOutputs(context.outputState, prevState)
 }
-- 
2.43.0


From ab5dc89d86106635b714d8f25f1054f634a88bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 07/19] fix: end unwrapping of wrapped errors instead of
 dereferencing nil

---
 arwen/errorWrapping.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/errorWrapping.go b/arwen/errorWrapping.go
index 5594454..446a168 100644
--- a/arwen/errorWrapping.go
+++ b/arwen/errorWrapping.go
@@ -136,6 +136,9 @@ func (werr *wrappableError) Error() string {
 // Unwrap - standard error function implementation for wrappable errors
 func (werr *wrappableError) Unwrap() error {
 	wrappingErr := werr.unwrapWrapping()
+	if wrappingErr == nil || len(wrappingErr.errsWithLocation) == 0 {
+		return nil
+	}
 	if len(wrappingErr.errsWithLocation) == 1 {
 		return wrappingErr.errsWithLocation[0].err
 	} else {
-- 
2.43.0


From b065c8b331c1c1405ca50530c50f2420e0f0883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:15 +0000
Subject: [PATCH 08/19] fix: refuse negative argument indices in big integer
 argument getters

bigIntGetUnsignedArgument and bigIntGetSignedArgument only checked the upper
bound, so a negative index chosen by a contract panicked in the host.
---
 arwen/elrondapi/bigIntOps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..a33880c 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -274,7 +274,7 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
@@ -293,7 +293,7 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
-- 
2.43.0


From 7a7f953bb896cfcac563fdb402d4e087e4be2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 09/19] fix: never reuse a warm instance for new code

---
 arwen/contexts/runtime.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index ede1f25..3774ef9 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -118,6 +118,27 @@ func (context *runtimeContext) setWarmInstanceWhenNeeded(gasLimit uint64) bool {
 	return false
 }
 
+// discardOutdatedWarmInstance forgets the warm instance of the current contract,
+// whose code is about to be replaced. The instance is also cleaned, unless a
+// suspended execution will resume on it.
+func (context *runtimeContext) discardOutdatedWarmInstance() {
+	if context.warmInstance == nil || !bytes.Equal(context.scAddress, context.warmInstanceAddress) {
+		return
+	}
+
+	warmInstance := context.warmInstance
+	context.warmInstanceAddress = nil
+	context.warmInstance = nil
+
+	for _, instance := range context.instanceStack {
+		if instance == warmInstance {
+			return
+		}
+	}
+
+	warmInstance.Clean()
+}
+
 // StartWasmerInstance creates a new wasmer instance if the maxWasmerInstances has not been reached.
 func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uint64, newCode bool) error {
 	if context.RunningInstancesCount() >= context.maxWasmerInstances {
@@ -126,6 +147,10 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 		return arwen.ErrMaxInstancesReached
 	}
 
+	if newCode {
+		context.discardOutdatedWarmInstance()
+	}
+
 	warmInstanceUsed := context.setWarmInstanceWhenNeeded(gasLimit)
 	if warmInstanceUsed {
 		return nil
@@ -222,7 +247,7 @@ func (context *runtimeContext) makeInstanceFromContractByteCode(contract []byte,
 		}
 	}
 
-	if context.useWarmInstance {
+	if context.useWarmInstance && !newCode {
 		context.warmInstanceAddress = context.GetSCAddress()
 		context.warmInstance = context.instance
 		logRuntime.Trace("updated warm instance")
-- 
2.43.0


From 05285a308f0a181f9a8101907ee959603643526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 10/19] fix: a negative result ID given to getReturnData or
 getReturnDataSize no longer indexes out of range

---
 arwen/elrondapi/elrondei.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..ac109ad 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2895,7 +2895,7 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
@@ -2912,7 +2912,7 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
-- 
2.43.0


From 01a507a85db6db7f1745d64a54558c6008754c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 11/19] fix: writeLog charges for all topics even when their
 total length exceeds 32 bits

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index ac109ad..8825903 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1995,7 +1995,7 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 	metering := arwen.GetMeteringContext(context)
 
 	gasToUse := metering.GasSchedule().ElrondAPICost.Log
-	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, uint64(numTopics*arwen.HashLen+dataLength))
+	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, math.AddUint64(math.MulUint64(uint64(numTopics), arwen.HashLen), uint64(dataLength)))
 	gasToUse = math.AddUint64(gasToUse, gas)
 	metering.UseGas(gasToUse)
 
-- 
2.43.0


From 4a4f2970092bf3a54cf38d222169a0644190bc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 12/19] fix: an indirect call whose arguments cannot be read
 from memory fails instead of going ahead without them

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 8825903..9345a61 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -919,6 +919,9 @@ func extractIndirectContractCallArguments(
 		argumentsLengthOffset,
 		dataOffset,
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(actualLen))
 	metering.UseGas(gasToUse)
-- 
2.43.0


From bf8b7c9f262e57fc70abe66a626550b014e81518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 13/19] fix: getCallValueTokenName returns the token name
 instead of nothing

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 9345a61..4d6110a 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1971,7 +1971,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0


From e8315c5deeab9a30a131d7495037218cd6bc1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 14/19] fix: an argument count whose lengths exceed 32 bits is
 refused instead of allocating for it

---
 arwen/elrondapi/elrondei.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 4d6110a..b511daa 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2984,6 +2984,10 @@ func getArgumentsFromMemory(
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
 
+	if numArguments > (1<<31-1)/4 {
+		return nil, 0, fmt.Errorf("numArguments too large (%d)", numArguments)
+	}
+
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From 55830310fd36fbc3ce90c3ea92f2eaba59558d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 15/19] fix: big integer operations charge their own scheduled
 price instead of the subtraction's

---
 arwen/elrondapi/bigIntOps.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index a33880c..3ad3327 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -579,7 +579,7 @@ func v1_3_bigIntSetInt64(context unsafe.Pointer, destination int32, value int64)
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSetInt64
 	metering.UseGas(gasToUse)
 
 	dest := bigInt.GetOne(destination)
@@ -591,7 +591,7 @@ func v1_3_bigIntAdd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAdd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -648,7 +648,7 @@ func v1_3_bigIntTMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntTMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -666,7 +666,7 @@ func v1_3_bigIntEDiv(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEDiv
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -684,7 +684,7 @@ func v1_3_bigIntEMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -702,7 +702,7 @@ func v1_3_bigIntAbs(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAbs
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -715,7 +715,7 @@ func v1_3_bigIntNeg(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNeg
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -754,7 +754,7 @@ func v1_3_bigIntNot(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNot
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -772,7 +772,7 @@ func v1_3_bigIntAnd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAnd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -790,7 +790,7 @@ func v1_3_bigIntOr(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntOr
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -808,7 +808,7 @@ func v1_3_bigIntXor(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntXor
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -826,7 +826,7 @@ func v1_3_bigIntShr(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShr
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -845,7 +845,7 @@ func v1_3_bigIntShl(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShl
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
-- 
2.43.0


From 839e54574ec95501ae9733c1dcd3754f5a5b94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 16/19] fix: recognise the hook calls added after the diagnose
 messages as hook calls

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..b0bb1f9 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -286,7 +286,8 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	return (kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse) ||
+		(kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse)
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From f15a638ea340557a5c9d62a2770b4832147af3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 17/19] fix: yield the text of a message's error unchanged

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index b0bb1f9..415181e 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 74a31eb35138b11721650d23834c27a51ac2d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 18/19] fix: create gas schedule change messages of their own
 type

---
 ipc/common/messagesFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..be585f2 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -27,6 +27,8 @@ func init() {
 	messageCreators[ContractDeployRequest] = createMessageContractDeployRequest
 	messageCreators[ContractCallRequest] = createMessageContractCallRequest
 	messageCreators[ContractResponse] = createMessageContractResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
+	messageCreators[GasScheduleChangeResponse] = createMessageGasScheduleChangeResponse
 	messageCreators[DiagnoseWaitRequest] = createMessageDiagnoseWaitRequest
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
@@ -113,6 +115,14 @@ func createMessageContractResponse() MessageHandler {
 	return &MessageContractResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
+func createMessageGasScheduleChangeResponse() MessageHandler {
+	return &Message{}
+}
+
 func createMessageDiagnoseWaitRequest() MessageHandler {
 	return &MessageDiagnoseWaitRequest{}
 }
-- 
2.43.0


From 8d8286a022fd1d120f8cae18a2ed7b0777c26c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 19/19] fix: report the node's failure to revert to a snapshot

---
 ipc/arwenpart/blockchainGateway.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..703f7f8 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,5 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	return rawResponse.GetError()
 }
-- 
2.43.0

