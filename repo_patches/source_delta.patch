From 5b7162225837aa7b7c5666909d515827f6ff024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 01/61] fix: negative argument and result indexes do not panic
 the VM

bigIntGetUnsignedArgument, bigIntGetSignedArgument, getReturnData and getReturnDataSize indexed a slice with a
negative index given by the contract.
---
 arwen/elrondapi/bigIntOps.go | 6 ++++++
 arwen/elrondapi/elrondei.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..f253139 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -277,6 +277,9 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	if int32(len(args)) <= id {
 		return
 	}
+	if id < 0 {
+		return
+	}
 
 	value := bigInt.GetOne(destination)
 
@@ -296,6 +299,9 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	if int32(len(args)) <= id {
 		return
 	}
+	if id < 0 {
+		return
+	}
 
 	value := bigInt.GetOne(destination)
 
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..e7ada77 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2898,6 +2898,9 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	if resultID >= int32(len(returnData)) {
 		return 0
 	}
+	if resultID < 0 {
+		return 0
+	}
 
 	return int32(len(returnData[resultID]))
 }
@@ -2915,6 +2918,9 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	if resultID >= int32(len(returnData)) {
 		return 0
 	}
+	if resultID < 0 {
+		return 0
+	}
 
 	err := runtime.MemStore(dataOffset, returnData[resultID])
 	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
-- 
2.43.0


From 6f023931279f3e3d8fe5ab5edcbd11129fc25ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 02/61] fix: reject numbers of arguments whose table size
 overflows

numArguments*4 wraps for 0x40000000 and more, after which tens of gigabytes were allocated for the arguments.
---
 arwen/elrondapi/elrondei.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index e7ada77..7dca1c3 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -101,6 +101,9 @@ import (
 
 var logEEI = logger.GetOrCreate("arwen/eei")
 
+// maxNumArguments is the greatest number of arguments whose table of lengths (4 bytes each) has a size that fits an int32
+const maxNumArguments = (1<<31 - 1) / 4
+
 func getFirstESDTTransferIfExist(vmInput *vmcommon.VMInput) *vmcommon.ESDTTransfer {
 	esdtTransfers := vmInput.ESDTTransfers
 	if len(esdtTransfers) > 0 {
@@ -2986,6 +2989,9 @@ func getArgumentsFromMemory(
 	if numArguments < 0 {
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
+	if numArguments > maxNumArguments {
+		return nil, 0, fmt.Errorf("numArguments too large (%d)", numArguments)
+	}
 
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
-- 
2.43.0


From 5c98b9ff6f3e4144c52b5cfb4c65156258330ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:34 +0000
Subject: [PATCH 03/61] fix: writeLog checks the range of its topics before
 allocating

A huge number of topics made the allocation kill the process, at no gas when 32*numTopics wraps.
---
 arwen/elrondapi/elrondei.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 7dca1c3..2cbdb3d 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2007,6 +2007,19 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 		return
 	}
 
+	if numTopics > 0 {
+		// refuse a range of topics outside the memory before allocating anything for it
+		lastTopicOffset := int64(topicPtr) + int64(numTopics-1)*arwen.HashLen
+		if topicPtr < 0 || lastTopicOffset != int64(int32(lastTopicOffset)) {
+			err = arwen.ErrBadBounds
+		} else {
+			_, err = runtime.MemLoad(int32(lastTopicOffset), arwen.HashLen)
+		}
+		if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
+			return
+		}
+	}
+
 	topics, err := arwen.GuardedMakeByteSlice2D(numTopics)
 	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return
-- 
2.43.0


From dc0189b6f653df0106b97abd2782ccbce1eeef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 04/61] fix: read-only execution cannot move value, run
 built-in functions or upgrade contracts

---
 arwen/contexts/output.go    | 10 ++++++++++
 arwen/elrondapi/elrondei.go |  5 +++--
 arwen/host/execution.go     | 14 ++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 4c06e4a..18567a1 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -248,6 +248,11 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 		return arwen.ErrTransferNegativeValue
 	}
 
+	if value.Cmp(arwen.Zero) > 0 && context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer value", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	if !context.hasSufficientBalance(sender, value) {
 		logOutput.Trace("transfer value", "error", arwen.ErrTransferInsufficientFunds)
 		return arwen.ErrTransferInsufficientFunds
@@ -280,6 +285,11 @@ func (context *outputContext) TransferValueOnly(destination []byte, sender []byt
 // the necessary steps to create accounts and reverses the state in case of an
 // execution error or failed value transfer.
 func (context *outputContext) Transfer(destination []byte, sender []byte, gasLimit uint64, gasLocked uint64, value *big.Int, input []byte, callType vmcommon.CallType) error {
+	if context.host.Runtime().ReadOnly() {
+		logOutput.Trace("transfer value", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	checkPayableIfNotCallback := gasLimit > 0 && callType != vmcommon.AsynchronousCallBack
 	err := context.TransferValueOnly(destination, sender, value, checkPayableIfNotCallback)
 	if err != nil {
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 2cbdb3d..e7b9ed4 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2678,7 +2678,7 @@ func ExecuteReadOnlyWithTypedArguments(
 	metering.UseGas(gasToUse)
 
 	sender := runtime.GetSCAddress()
-	value := runtime.GetVMInput().CallValue
+	value := big.NewInt(0)
 	contractCallInput, err := prepareIndirectContractCallInput(
 		host,
 		sender,
@@ -2698,9 +2698,10 @@ func ExecuteReadOnlyWithTypedArguments(
 		return 1
 	}
 
+	wasReadOnly := runtime.ReadOnly()
 	runtime.SetReadOnly(true)
 	_, err = host.ExecuteOnSameContext(contractCallInput)
-	runtime.SetReadOnly(false)
+	runtime.SetReadOnly(wasReadOnly)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 88aa8c5..96dee99 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -534,6 +534,10 @@ func (host *vmHost) checkUpgradePermission(vmInput *vmcommon.ContractCallInput)
 func (host *vmHost) executeUpgrade(input *vmcommon.ContractCallInput) error {
 	_, _, metering, output, runtime, _ := host.GetContexts()
 
+	if runtime.ReadOnly() {
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	err := host.checkUpgradePermission(input)
 	if err != nil {
 		return err
@@ -684,6 +688,11 @@ func (host *vmHost) ExecuteESDTTransfer(destination []byte, sender []byte, token
 		esdtTransferInput.Arguments = append(esdtTransferInput.Arguments, tokenIdentifier, value.Bytes())
 	}
 
+	if runtime.ReadOnly() {
+		log.Trace("ESDT transfer", "error", arwen.ErrInvalidCallOnReadOnlyMode)
+		return nil, esdtTransferInput.GasProvided, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	vmOutput, err := host.Blockchain().ProcessBuiltInFunction(esdtTransferInput)
 	log.Trace("ESDT transfer", "sender", sender, "dest", destination)
 	log.Trace("ESDT transfer", "token", tokenIdentifier, "value", value)
@@ -716,6 +725,11 @@ func (host *vmHost) ExecuteESDTTransfer(destination []byte, sender []byte, token
 func (host *vmHost) callBuiltinFunction(input *vmcommon.ContractCallInput) (*vmcommon.ContractCallInput, *vmcommon.VMOutput, error) {
 	metering := host.Metering()
 
+	if host.Runtime().ReadOnly() {
+		metering.UseGas(input.GasProvided)
+		return nil, nil, arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	vmOutput, err := host.Blockchain().ProcessBuiltInFunction(input)
 	if err != nil {
 		metering.UseGas(input.GasProvided)
-- 
2.43.0


From 8a9d05edfb173bed3f2106ec6b6ac6d814dd29f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:14 +0000
Subject: [PATCH 05/61] fix: the balance of an account created during the
 transaction includes what it received

---
 arwen/contexts/blockchain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 4f18f9f..8940f7a 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -74,7 +74,8 @@ func (context *blockchainContext) GetBalanceBigInt(address []byte) *big.Int {
 		if outputAccount.Balance == nil {
 			account, err := context.blockChainHook.GetUserAccount(address)
 			if err != nil || arwen.IfNil(account) {
-				return big.NewInt(0)
+				// the account does not exist yet, it only has what it received during this transaction
+				return big.NewInt(0).Set(outputAccount.BalanceDelta)
 			}
 
 			outputAccount.Balance = account.GetBalance()
-- 
2.43.0


From b87bd77304ffafd4cde97d01f5ddda9ad7092a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 06/61] fix: a failed call undoes the built-in function or ESDT
 transfer which started it

---
 arwen/elrondapi/elrondei.go |  8 ++++++++
 arwen/host/execution.go     | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index e7b9ed4..88f9708 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1244,8 +1244,12 @@ func TransferESDTNFTExecuteWithTypedArgs(
 	}
 
 	snapshotBeforeTransfer := host.Blockchain().GetSnapshot()
+	output.PushState()
 
 	gasLimitForExec, executeErr := output.TransferESDT(dest, sender, esdtTokenName, uint64(nonce), esdtValue, contractCallInput)
+	if executeErr != nil {
+		output.PopDiscard()
+	}
 	if arwen.WithFaultAndHost(host, executeErr, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
@@ -1257,12 +1261,16 @@ func TransferESDTNFTExecuteWithTypedArgs(
 		if executeErr != nil {
 			logEEI.Trace("ESDT post-transfer execution failed", "error", executeErr)
 			host.Blockchain().RevertToSnapshot(snapshotBeforeTransfer)
+			// The transfer itself was undone: it must not remain in the output.
+			output.PopSetActiveState()
 			return 1
 		}
 
+		output.PopDiscard()
 		return 0
 	}
 
+	output.PopDiscard()
 	return 0
 }
 
diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 96dee99..33f8f2d 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -225,12 +225,16 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 	blockchain := host.Blockchain()
 	blockchain.PushState()
 
+	output := host.Output()
+	output.PushState()
+
 	if host.IsBuiltinFunctionName(input.Function) {
 		scExecutionInput, vmOutput, err = host.handleBuiltinFunctionCall(input)
 		if err != nil {
 			blockchain.PopSetActiveState()
+			output.PopDiscard()
 			host.Runtime().AddError(err, input.Function)
-			vmOutput = host.Output().CreateVMOutputInCaseOfError(err)
+			vmOutput = output.CreateVMOutputInCaseOfError(err)
 			return
 		}
 	}
@@ -241,8 +245,12 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 
 	if err != nil {
 		blockchain.PopSetActiveState()
+		// What the built-in function did before the failed execution was undone
+		// as well: its effects must not remain in the output.
+		output.PopSetActiveState()
 	} else {
 		blockchain.PopDiscard()
+		output.PopDiscard()
 	}
 
 	return
-- 
2.43.0


From ff89484b4dcfa0f220faeaf2a206b68ea75d3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:02 +0000
Subject: [PATCH 07/61] fix: a failed indirect deployment leaves the output as
 it was

---
 arwen/contexts/output.go | 25 +++++++++++++++++++++++++
 arwen/host/execution.go  |  8 +++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 18567a1..86e6dd1 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -19,6 +19,8 @@ type outputContext struct {
 	outputState *vmcommon.VMOutput
 	stateStack  []*vmcommon.VMOutput
 	codeUpdates map[string]struct{}
+
+	codeUpdatesStack []map[string]struct{}
 }
 
 // NewOutputContext creates a new outputContext
@@ -69,6 +71,24 @@ func (context *outputContext) PushState() {
 	newState := newVMOutput()
 	mergeVMOutputs(newState, context.outputState)
 	context.stateStack = append(context.stateStack, newState)
+
+	codeUpdates := make(map[string]struct{}, len(context.codeUpdates))
+	for address := range context.codeUpdates {
+		codeUpdates[address] = struct{}{}
+	}
+	context.codeUpdatesStack = append(context.codeUpdatesStack, codeUpdates)
+}
+
+// popCodeUpdates removes the latest entry from the stack of code updates and returns it
+func (context *outputContext) popCodeUpdates() map[string]struct{} {
+	stackLen := len(context.codeUpdatesStack)
+	if stackLen == 0 {
+		return context.codeUpdates
+	}
+
+	codeUpdates := context.codeUpdatesStack[stackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stackLen-1]
+	return codeUpdates
 }
 
 // PopSetActiveState removes the latest entry from the state stack and sets it as the current vm output
@@ -81,6 +101,7 @@ func (context *outputContext) PopSetActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 	context.outputState = prevState
+	context.codeUpdates = context.popCodeUpdates()
 }
 
 // PopMergeActiveState merges the current state into the head of the stateStack,
@@ -97,6 +118,8 @@ func (context *outputContext) PopMergeActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 
+	context.popCodeUpdates()
+
 	mergeVMOutputs(prevState, context.outputState)
 	context.outputState = newVMOutput()
 	mergeVMOutputs(context.outputState, prevState)
@@ -111,11 +134,13 @@ func (context *outputContext) PopDiscard() {
 	}
 
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.popCodeUpdates()
 }
 
 // ClearStateStack reinitializes the state stack.
 func (context *outputContext) ClearStateStack() {
 	context.stateStack = make([]*vmcommon.VMOutput, 0)
+	context.codeUpdatesStack = nil
 }
 
 // CensorVMOutput will cause the next executed SC to appear isolated, as if
diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 33f8f2d..787fa5e 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -489,11 +489,17 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 	}
 
 	codeDeployInput.ContractAddress = newContractAddress
+
+	// A failed deployment must leave the output as it was, including what the
+	// new address has received before.
+	output.PushState()
 	output.DeployCode(codeDeployInput)
 
 	defer func() {
 		if err != nil {
-			output.DeleteOutputAccount(newContractAddress)
+			output.PopSetActiveState()
+		} else {
+			output.PopDiscard()
 		}
 	}()
 
-- 
2.43.0


From d94c7ef647bc667b19b5a80ca42704f174fbfb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 08/61] fix: two deployments of one transaction cannot share an
 address

---
 arwen/host/execution.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 787fa5e..383329f 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -483,7 +483,11 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 		return
 	}
 
-	if blockchain.AccountExists(newContractAddress) {
+	// The account may also have been deployed by this transaction: the nonce of
+	// the creator is only increased after the deployment.
+	existingAccount, isTouched := output.GetOutputAccounts()[string(newContractAddress)]
+	isAlreadyDeployed := isTouched && len(existingAccount.Code) > 0
+	if isAlreadyDeployed || blockchain.AccountExists(newContractAddress) {
 		err = arwen.ErrDeploymentOverExistingAccount
 		return
 	}
-- 
2.43.0


From 5ea75ac9785fa2ab51c08e0d30be0f8e40637249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:06 +0000
Subject: [PATCH 09/61] fix: transferValueExecute pays for the gas it sends
 along with a transfer

---
 arwen/elrondapi/elrondei.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 88f9708..47ffd77 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1051,6 +1051,15 @@ func TransferValueExecuteWithTypedArgs(
 	}
 
 	data := makeCrossShardCallFromInput(contractCallInput)
+	if uint64(gasLimit) > metering.GasLeft() {
+		err = arwen.ErrNotEnoughGas
+	}
+	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
+		return 1
+	}
+
+	// The gas sent along with the transfer is paid for by the sender.
+	metering.UseGas(uint64(gasLimit))
 	err = output.Transfer(dest, sender, uint64(gasLimit), 0, value, []byte(data), vmcommon.DirectCall)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
-- 
2.43.0


From 89e1a6521065b811903a53c7252e3d8b2063f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 10/61] fix: gas sent with earlier transfers is not taken for
 gas of later calls

---
 arwen/contexts/metering.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/metering.go b/arwen/contexts/metering.go
index 2e6863d..1e384c9 100644
--- a/arwen/contexts/metering.go
+++ b/arwen/contexts/metering.go
@@ -21,6 +21,10 @@ type meteringContext struct {
 	initialCost        uint64
 	gasForExecution    uint64
 	gasUsedByAccounts  map[string]uint64
+
+	// gasTransferredBefore is the gas which was sent along with transfers
+	// before the current execution started, and which is not part of its gas.
+	gasTransferredBefore uint64
 }
 
 // NewMeteringContext creates a new meteringContext
@@ -55,6 +59,7 @@ func (context *meteringContext) InitState() {
 	context.initialCost = 0
 	context.gasForExecution = 0
 	context.gasUsedByAccounts = make(map[string]uint64)
+	context.gasTransferredBefore = 0
 }
 
 // InitStateFromContractCallInput initializes the internal state of the
@@ -64,6 +69,7 @@ func (context *meteringContext) InitStateFromContractCallInput(input *vmcommon.V
 	context.unlockGasIfAsyncCallback(input)
 	context.initialGasProvided = input.GasProvided
 	context.gasForExecution = input.GasProvided
+	context.gasTransferredBefore = context.getTotalGasTransferred()
 }
 
 // PushState pushes the current state of the MeteringContext on its internal state stack
@@ -73,6 +79,8 @@ func (context *meteringContext) PushState() {
 		initialCost:        context.initialCost,
 		gasForExecution:    context.gasForExecution,
 		gasUsedByAccounts:  context.cloneGasUsedByAccounts(),
+
+		gasTransferredBefore: context.gasTransferredBefore,
 	}
 
 	context.stateStack = append(context.stateStack, newState)
@@ -92,6 +100,7 @@ func (context *meteringContext) PopSetActiveState() {
 	context.initialGasProvided = prevState.initialGasProvided
 	context.initialCost = prevState.initialCost
 	context.gasForExecution = prevState.gasForExecution
+	context.gasTransferredBefore = prevState.gasTransferredBefore
 	context.gasUsedByAccounts = prevState.gasUsedByAccounts
 }
 
@@ -119,6 +128,7 @@ func (context *meteringContext) PopMergeActiveState() {
 	context.initialGasProvided = prevState.initialGasProvided
 	context.initialCost = prevState.initialCost
 	context.gasForExecution = prevState.gasForExecution
+	context.gasTransferredBefore = prevState.gasTransferredBefore
 
 	context.addToGasUsedByAccounts(prevState.gasUsedByAccounts)
 }
@@ -176,6 +186,7 @@ func (context *meteringContext) updateSCGasUsed() {
 	gasUsedByOthers := context.getGasUsedByAllOtherAccounts(outputAccounts)
 
 	gasUsed := context.GasSpentByContract()
+	gasUsed = math.AddUint64(gasUsed, context.gasTransferredBefore)
 	gasUsed = math.SubUint64(gasUsed, gasTransferredByCurrentAccount)
 	gasUsed = math.SubUint64(gasUsed, gasUsedByOthers)
 
@@ -230,7 +241,21 @@ func (context *meteringContext) getCurrentTotalUsedGas() uint64 {
 		gasUsed = math.AddUint64(gasUsed, gasTransferred)
 	}
 
-	return gasUsed
+	return math.SubUint64(gasUsed, context.gasTransferredBefore)
+}
+
+func (context *meteringContext) getTotalGasTransferred() uint64 {
+	output := context.host.Output()
+	if output == nil {
+		return 0
+	}
+
+	gasTransferred := uint64(0)
+	for _, outputAccount := range output.GetOutputAccounts() {
+		gasTransferred = math.AddUint64(gasTransferred, context.getGasTransferredByAccount(outputAccount))
+	}
+
+	return gasTransferred
 }
 
 func (context *meteringContext) getGasUsedByAllOtherAccounts(outputAccounts map[string]*vmcommon.OutputAccount) uint64 {
-- 
2.43.0


From 20cb3ba5bb55316fec03e00884e8c895439dd08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 11/61] fix: the value given to a callback comes from the
 called contract

The callback of an asynchronous call was given the value of the last
transfer to its contract even when that transfer had been made before
the asynchronous call. Only transfers made by the call count now.
---
 arwen/host/asyncCall.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b0586ed..65195c2 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -60,10 +60,12 @@ func (host *vmHost) handleAsyncCallBreakpoint() error {
 		return nil
 	}
 
+	numPreviousTransfers := host.numOutputTransfersToCurrentContract()
+
 	// Start calling the destination SC, synchronously.
 	destinationVMOutput, destinationErr := host.executeSyncDestinationCall(asyncCallInfo)
 
-	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr)
+	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr, numPreviousTransfers)
 
 	err = host.processCallbackVMOutput(callbackVMOutput, callBackErr)
 	if err != nil {
@@ -163,6 +165,7 @@ func (host *vmHost) executeSyncCallbackCall(
 	asyncCallInfo arwen.AsyncCallInfoHandler,
 	destinationVMOutput *vmcommon.VMOutput,
 	destinationErr error,
+	numPreviousTransfers int,
 ) (*vmcommon.VMOutput, error) {
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		asyncCallInfo,
@@ -170,6 +173,7 @@ func (host *vmHost) executeSyncCallbackCall(
 		asyncCallInfo.GetDestination(),
 		arwen.CallbackFunctionName,
 		destinationErr,
+		numPreviousTransfers,
 	)
 	if err != nil {
 		log.Trace("async call: sync callback failed", "error", err)
@@ -318,7 +322,17 @@ func (host *vmHost) createDestinationContractCallInput(asyncCallInfo arwen.Async
 	return contractCallInput, nil
 }
 
-func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *vmcommon.VMOutput) *big.Int {
+// numOutputTransfersToCurrentContract returns how many transfers to the current contract the output already contains
+func (host *vmHost) numOutputTransfersToCurrentContract() int {
+	outAcc, ok := host.Output().GetOutputAccounts()[string(host.Runtime().GetSCAddress())]
+	if !ok {
+		return 0
+	}
+
+	return len(outAcc.OutputTransfers)
+}
+
+func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *vmcommon.VMOutput, numPreviousTransfers int) *big.Int {
 	if !host.IsArwenV3Enabled() {
 		return big.NewInt(0)
 	}
@@ -333,7 +347,8 @@ func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *
 		return returnTransfer
 	}
 
-	if len(outAcc.OutputTransfers) == 0 {
+	// The output contains the transfers made before the destination was called as well
+	if len(outAcc.OutputTransfers) <= numPreviousTransfers {
 		return returnTransfer
 	}
 
@@ -351,6 +366,7 @@ func (host *vmHost) createCallbackContractCallInput(
 	callbackInitiator []byte,
 	callbackFunction string,
 	destinationErr error,
+	numPreviousTransfers int,
 ) (*vmcommon.ContractCallInput, error) {
 	metering := host.Metering()
 	gasSchedule := metering.GasSchedule()
@@ -392,7 +408,7 @@ func (host *vmHost) createCallbackContractCallInput(
 		VMInput: vmcommon.VMInput{
 			CallerAddr:           callbackInitiator,
 			Arguments:            arguments,
-			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput),
+			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput, numPreviousTransfers),
 			CallType:             vmcommon.AsynchronousCallBack,
 			GasPrice:             runtime.GetVMInput().GasPrice,
 			GasProvided:          gasLimit,
@@ -522,12 +538,14 @@ func (host *vmHost) processAsyncInfo(asyncInfo *arwen.AsyncContextInfo) (*arwen.
  * processAsyncCall executes an async call and processes the callback if no extra calls are pending
  */
 func (host *vmHost) processAsyncCall(asyncCall *arwen.AsyncGeneratedCall) error {
+	numPreviousTransfers := host.numOutputTransfersToCurrentContract()
+
 	input, _ := host.createDestinationContractCallInput(asyncCall)
 	output, asyncMap, executionError := host.ExecuteOnDestContext(input)
 
 	pendingMap := host.getPendingAsyncCalls(asyncMap)
 	if len(pendingMap.AsyncContextMap) == 0 {
-		return host.callbackAsync(asyncCall, output, executionError)
+		return host.callbackAsync(asyncCall, output, executionError, numPreviousTransfers)
 	}
 
 	return executionError
@@ -536,7 +554,7 @@ func (host *vmHost) processAsyncCall(asyncCall *arwen.AsyncGeneratedCall) error
 /**
  * callbackAsync will execute a callback from an async call that was ran on this host and set it's status to resolved or rejected
  */
-func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput *vmcommon.VMOutput, executionError error) error {
+func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput *vmcommon.VMOutput, executionError error, numPreviousTransfers int) error {
 	asyncCall.Status = arwen.AsyncCallResolved
 	callbackFunction := asyncCall.SuccessCallback
 	if vmOutput.ReturnCode != vmcommon.Ok {
@@ -550,6 +568,7 @@ func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput
 		asyncCall.Destination,
 		callbackFunction,
 		executionError,
+		numPreviousTransfers,
 	)
 	if err != nil {
 		return err
@@ -739,6 +758,7 @@ func (host *vmHost) processCallbackStack() error {
 		asyncInfo.CallerAddr,
 		arwen.CallbackFunctionName,
 		nil,
+		0,
 	)
 	if err != nil {
 		return err
-- 
2.43.0


From 0961937defdfa1aaaec8c4f69328cd1ad9b93db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 12/61] fix: a contract reads its own protected keys from the
 node, not from a stale cache

---
 arwen/contexts/storage.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 72238af..9018693 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -133,17 +133,7 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 		}
 	}
 
-	// If the requested key is protected by the Elrond node, the stored value
-	// could have been changed by a built-in function in the meantime, even if
-	// contracts themselves cannot change protected values. Values stored under
-	// protected keys must always be retrieved from the node, not from the cached
-	// StorageUpdates.
-	var value []byte
-	if context.isElrondReservedKey(key) {
-		value, _ = context.blockChainHook.GetStorageData(address, key)
-	} else {
-		value = context.getStorageFromAddressUnmetered(address, key)
-	}
+	value := context.getStorageFromAddressUnmetered(address, key)
 
 	costPerByte := metering.GasSchedule().BaseOperationCost.DataCopyPerByte
 	gasToUse := math.MulUint64(costPerByte, uint64(len(value)))
@@ -156,6 +146,16 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 func (context *storageContext) getStorageFromAddressUnmetered(address []byte, key []byte) []byte {
 	var value []byte
 
+	// If the requested key is protected by the Elrond node, the stored value
+	// could have been changed by a built-in function in the meantime, even if
+	// contracts themselves cannot change protected values. Values stored under
+	// protected keys must always be retrieved from the node, not from the cached
+	// StorageUpdates.
+	if context.isElrondReservedKey(key) {
+		value, _ = context.blockChainHook.GetStorageData(address, key)
+		return value
+	}
+
 	storageUpdates := context.GetStorageUpdates(address)
 	if storageUpdate, ok := storageUpdates[string(key)]; ok {
 		value = storageUpdate.Data
-- 
2.43.0


From 2f1e456cd7ab131e0075b4c8ade1e09ea57a8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 13/61] fix: contracts cannot call the callback of another
 contract directly

---
 arwen/host/execution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 383329f..68970bb 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -620,6 +620,9 @@ func (host *vmHost) execute(input *vmcommon.ContractCallInput) error {
 	if host.isInitFunctionBeingCalled() && !input.AllowInitFunction {
 		return arwen.ErrInitFuncCalledInRun
 	}
+	if runtime.Function() == arwen.CallbackFunctionName && runtime.GetVMInput().CallType != vmcommon.AsynchronousCallBack {
+		return arwen.ErrCallBackFuncCalledInRun
+	}
 
 	// Use all gas initially, on the Wasmer instance of the caller. In case of
 	// successful execution, the unused gas will be restored.
-- 
2.43.0


From 0fd7acb4f2f6af2530e309016812e674184a1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 14/61] fix: getCallValueTokenName writes the name of the token

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 47ffd77..d8e29fc 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1988,7 +1988,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0


From 6c0104b69c35b2d4755403ff3c1ad8c4d89f1d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 15/61] fix: BLS keys and signatures outside the prime-order
 subgroups are refused

---
 crypto/signing/mcl/suiteBLS12_381.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/signing/mcl/suiteBLS12_381.go b/crypto/signing/mcl/suiteBLS12_381.go
index 89c60e6..c559223 100644
--- a/crypto/signing/mcl/suiteBLS12_381.go
+++ b/crypto/signing/mcl/suiteBLS12_381.go
@@ -40,6 +40,10 @@ func blsInit() {
 		panic(fmt.Sprintf("could not initialize BLS12-381 curve %v", err))
 	}
 
+	// without these, IsValidOrder() accepts points outside the prime-order subgroups
+	bls.VerifySignatureOrder(true)
+	bls.VerifyPublicKeyOrder(true)
+
 	pubKey := &bls.PublicKey{}
 	bls.BlsGetGeneratorOfPublicKey(pubKey)
 	generatorG2 := bls.CastFromPublicKey(pubKey)
-- 
2.43.0


From 41b97aae0916be46a6e48803db4d77b224140f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 16/61] fix: the blockchain gateway reports a failed
 RevertToSnapshot

---
 ipc/arwenpart/blockchainGateway.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..b10bfee 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,6 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	response := rawResponse.(*common.MessageBlockchainRevertToSnapshotResponse)
+	return response.GetError()
 }
-- 
2.43.0


From c51d19b5385e148bfd39a8bbaf7e18a0fa73cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 17/61] fix: gas schedule changes are received as such over
 pipes

---
 ipc/common/messagesFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..70af6b5 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -31,6 +31,8 @@ func init() {
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
 	messageCreators[VersionResponse] = createMessageVersionResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
+	messageCreators[GasScheduleChangeResponse] = createMessageGasScheduleChangeResponse
 
 	messageCreators[BlockchainNewAddressRequest] = createMessageBlockchainNewAddressRequest
 	messageCreators[BlockchainNewAddressResponse] = createMessageBlockchainNewAddressResponse
@@ -129,6 +131,14 @@ func createMessageVersionResponse() MessageHandler {
 	return &MessageVersionResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
+func createMessageGasScheduleChangeResponse() MessageHandler {
+	return NewGasScheduleChangeResponse()
+}
+
 func createUndefinedMessage() MessageHandler {
 	return NewUndefinedMessage()
 }
-- 
2.43.0


From 8ff88b7dd93636d94b0a3c02ceeb493d62e484b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 18/61] fix: texts of errors pass through pipes unchanged

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..30f8c6a 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 450974a03b18f966e3d1d4d63add2925b22130b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 19/61] fix: the node serves all hook calls which arrive over
 pipes

---
 ipc/common/messages.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 30f8c6a..1dc3431 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -287,7 +287,11 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	if kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse {
+		return true
+	}
+
+	return kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From 7d087323f39889dba081f8349ea602040e43dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 20/61] fix: the node notices at once when the Arwen process
 ends

The node kept its own copies of the child's pipe ends open, so a dead Arwen
was noticed only by timeout, and a request larger than the pipe's buffer
sent to it blocked forever, with the driver's mutex held.
---
 ipc/nodepart/arwenDriver.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ipc/nodepart/arwenDriver.go b/ipc/nodepart/arwenDriver.go
index 32615d6..4039bb4 100644
--- a/ipc/nodepart/arwenDriver.go
+++ b/ipc/nodepart/arwenDriver.go
@@ -116,6 +116,8 @@ func (driver *ArwenDriver) startArwen() error {
 		return err
 	}
 
+	driver.closeChildPipeEnds()
+
 	err = common.SendArwenArguments(driver.arwenInitWrite, driver.arwenArguments)
 	if err != nil {
 		return err
@@ -181,6 +183,18 @@ func (driver *ArwenDriver) resetPipeStreams() error {
 	return nil
 }
 
+// closeChildPipeEnds closes the node's copies of the pipe ends used by the Arwen process,
+// so that reads and writes fail as soon as that process ends, instead of blocking.
+func (driver *ArwenDriver) closeChildPipeEnds() {
+	closeFile(driver.arwenInitRead)
+	closeFile(driver.arwenInputRead)
+	closeFile(driver.arwenOutputWrite)
+
+	driver.arwenInitRead = nil
+	driver.arwenInputRead = nil
+	driver.arwenOutputWrite = nil
+}
+
 func closeFile(file *os.File) {
 	if file != nil {
 		err := file.Close()
-- 
2.43.0


From c2c54359ffef391ae17e827f3c51861d0d82300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 21/61] fix: sending to an Arwen process which stopped reading
 is limited in time

Only receiving was limited by MaxLoopTime; a request larger than the pipe's
buffer blocked the driver forever. Having no time left is a timeout too,
where it used to remove the limit.
---
 ipc/common/messenger.go | 10 ++++++++++
 ipc/common/sender.go    |  6 ++++++
 ipc/nodepart/part.go    | 10 ++++++++--
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/ipc/common/messenger.go b/ipc/common/messenger.go
index af65fd8..b1842f8 100644
--- a/ipc/common/messenger.go
+++ b/ipc/common/messenger.go
@@ -3,6 +3,7 @@ package common
 import (
 	"fmt"
 	"os"
+	"time"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 	logger "github.com/ElrondNetwork/elrond-go-logger"
@@ -45,6 +46,15 @@ func (messenger *Messenger) Send(message MessageHandler) error {
 	return err
 }
 
+// SetSendTimeout sets the time (in milliseconds) left for sending messages; zero means no limit
+func (messenger *Messenger) SetSendTimeout(timeout int) error {
+	if timeout <= 0 {
+		return messenger.sender.SetSendDeadline(time.Time{})
+	}
+
+	return messenger.sender.SetSendDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+}
+
 // Receive receives a message, reads it from the pipe
 func (messenger *Messenger) Receive(timeout int) (MessageHandler, error) {
 	log.Trace(fmt.Sprintf("[%s]: Receive message...", messenger.Name))
diff --git a/ipc/common/sender.go b/ipc/common/sender.go
index c1133ef..df021be 100644
--- a/ipc/common/sender.go
+++ b/ipc/common/sender.go
@@ -3,6 +3,7 @@ package common
 import (
 	"encoding/binary"
 	"os"
+	"time"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
 )
@@ -50,6 +51,11 @@ func (sender *Sender) sendMessageLengthAndKind(length int, kind MessageKind) err
 	return err
 }
 
+// SetSendDeadline sets the moment after which sending fails instead of blocking; the zero value means never
+func (sender *Sender) SetSendDeadline(deadline time.Time) error {
+	return sender.writer.SetWriteDeadline(deadline)
+}
+
 // Shutdown closes the pipe
 func (sender *Sender) Shutdown() error {
 	err := sender.writer.Close()
diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 4d087fb..0a4c0a4 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -77,7 +77,13 @@ func (part *NodePart) noopReplier(_ common.MessageHandler) common.MessageHandler
 func (part *NodePart) StartLoop(request common.MessageHandler) (common.MessageHandler, error) {
 	defer part.timeTrack(time.Now(), "[NODE] end of loop")
 
-	err := part.Messenger.SendContractRequest(request)
+	// Arwen might have stopped reading, thus sending is limited in time as well
+	err := part.Messenger.SetSendTimeout(part.config.MaxLoopTime)
+	if err != nil {
+		return nil, err
+	}
+
+	err = part.Messenger.SendContractRequest(request)
 	if err != nil {
 		return nil, err
 	}
@@ -104,7 +110,7 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 		}
 
 		remainingMilliseconds -= duration
-		if remainingMilliseconds < 0 {
+		if remainingMilliseconds <= 0 {
 			return nil, common.ErrArwenTimeExpired
 		}
 
-- 
2.43.0


From c3ecd8f090536a12a802c4fefb4ddfb710ada954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 22/61] fix: use the code deployed by the transaction, not the
 cached code of the hash before it

---
 arwen/contexts/blockchain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 8940f7a..1131938 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -130,6 +130,14 @@ func (context *blockchainContext) GetESDTToken(address []byte, tokenID []byte, n
 
 // GetCodeHash returns the code hash that is set tho the given account
 func (context *blockchainContext) GetCodeHash(address []byte) []byte {
+	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
+	isCodeChanged := !isNew && len(outputAccount.Code) > 0
+	if isCodeChanged {
+		// The code was deployed or upgraded by this transaction: the hash known
+		// by the blockchain, if any, is of other code.
+		return nil
+	}
+
 	account, err := context.blockChainHook.GetUserAccount(address)
 	if err != nil {
 		return nil
-- 
2.43.0


From 59a35ffe3b4d24c804894496152998f25f09ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 23/61] fix: a deployment verifies the code even when a
 compiled form of it is cached

---
 arwen/host/execution.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 68970bb..6f2ab8d 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -646,7 +646,8 @@ func (host *vmHost) execute(input *vmcommon.ContractCallInput) error {
 	// Replace the current Wasmer instance of the Runtime with a new one; this
 	// assumes that the instance was preserved on the Runtime instance stack
 	// before calling executeSmartContractCall().
-	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), false)
+	isDeployment := input.AllowInitFunction
+	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), isDeployment)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 82404fb68a46af0d24ff77d3dee8e231709e5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 24/61] fix: release the instances of calls which were
 interrupted by a panic

---
 arwen/contexts/runtime.go | 7 ++++++-
 arwen/host/arwen.go       | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..1428a9e 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -370,9 +370,14 @@ func (context *runtimeContext) PopDiscard() {
 	context.popInstance()
 }
 
-// ClearStateStack reinitializes the state stack.
+// ClearStateStack reinitializes the state stack. The Wasmer instances which an
+// interrupted execution (e.g. by a panic) left on the instance stack are
+// cleaned, except for the one at the bottom, which becomes the current one.
 func (context *runtimeContext) ClearStateStack() {
 	context.stateStack = make([]*runtimeContext, 0)
+	for len(context.instanceStack) > 0 {
+		context.popInstance()
+	}
 }
 
 // pushInstance appends the current wasmer instance to the instance stack.
diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 782c41d..df57580 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -287,8 +287,10 @@ func (host *vmHost) ClearContextStateStack() {
 	host.storageContext.ClearStateStack()
 }
 
-// Clean closes the currently running Wasmer instance
+// Clean closes the currently running Wasmer instance, and those of its callers
+// if the execution was interrupted
 func (host *vmHost) Clean() {
+	host.runtimeContext.ClearStateStack()
 	if host.runtimeContext.IsWarmInstance() {
 		return
 	}
-- 
2.43.0


From ef0a4c8f9e0fc8527f16dba15f18017ae627778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 25/61] fix: charge big integer operations their own price
 instead of the one of bigIntSub

---
 arwen/elrondapi/bigIntOps.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index f253139..dc3c940 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -585,7 +585,7 @@ func v1_3_bigIntSetInt64(context unsafe.Pointer, destination int32, value int64)
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSetInt64
 	metering.UseGas(gasToUse)
 
 	dest := bigInt.GetOne(destination)
@@ -597,7 +597,7 @@ func v1_3_bigIntAdd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAdd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -654,7 +654,7 @@ func v1_3_bigIntTMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntTMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -672,7 +672,7 @@ func v1_3_bigIntEDiv(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEDiv
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -690,7 +690,7 @@ func v1_3_bigIntEMod(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntEMod
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -708,7 +708,7 @@ func v1_3_bigIntAbs(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAbs
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -721,7 +721,7 @@ func v1_3_bigIntNeg(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNeg
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -760,7 +760,7 @@ func v1_3_bigIntNot(context unsafe.Pointer, destination, op int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntNot
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -778,7 +778,7 @@ func v1_3_bigIntAnd(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntAnd
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -796,7 +796,7 @@ func v1_3_bigIntOr(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntOr
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -814,7 +814,7 @@ func v1_3_bigIntXor(context unsafe.Pointer, destination, op1, op2 int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntXor
 	metering.UseGas(gasToUse)
 
 	dest, a, b := bigInt.GetThree(destination, op1, op2)
@@ -832,7 +832,7 @@ func v1_3_bigIntShr(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShr
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
@@ -851,7 +851,7 @@ func v1_3_bigIntShl(context unsafe.Pointer, destination, op, bits int32) {
 	bigInt := arwen.GetBigIntContext(context)
 	metering := arwen.GetMeteringContext(context)
 
-	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntSub
+	gasToUse := metering.GasSchedule().BigIntAPICost.BigIntShl
 	metering.UseGas(gasToUse)
 
 	dest, a := bigInt.GetTwo(destination, op)
-- 
2.43.0


From 4c3c171926af9e176183963299d014bf0dd984f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 26/61] fix: unlock the gas of a callback transaction before
 the runtime copies the input

---
 arwen/host/execution.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 6f2ab8d..fdb4205 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -153,8 +153,10 @@ func (host *vmHost) doRunSmartContractCall(input *vmcommon.ContractCallInput) (v
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// The gas locked for a callback is unlocked by the metering context, before
+	// the runtime context copies the input.
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
-- 
2.43.0


From 72fdc71aa98004fe4dd1ca40968736392878d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 27/61] fix: a gas schedule which is not applied is not
 reported as the current one

---
 arwen/host/arwen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index df57580..b40cef6 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -307,13 +307,13 @@ func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
 	host.mutExecution.Lock()
 	defer host.mutExecution.Unlock()
 
-	host.gasSchedule = newGasSchedule
 	gasCostConfig, err := config.CreateGasConfig(newGasSchedule)
 	if err != nil {
 		log.Error("cannot apply new gas config remained with old one")
 		return
 	}
 
+	host.gasSchedule = newGasSchedule
 	opcodeCosts := gasCostConfig.WASMOpcodeCost.ToOpcodeCostsArray()
 	wasmer.SetOpcodeCosts(&opcodeCosts)
 
-- 
2.43.0


From 3e692f83515bdc3bbf902e450d2efa8546359717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 28/61] fix: refuse opcode costs which do not fit into 32 bits
 instead of truncating them

---
 config/gasSchedule.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/config/gasSchedule.go b/config/gasSchedule.go
index 85a434b..1751111 100644
--- a/config/gasSchedule.go
+++ b/config/gasSchedule.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/mitchellh/mapstructure"
@@ -70,6 +71,11 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 		return nil, err
 	}
 
+	err = checkForUint32Overflow(gasMap["WASMOpcodeCost"])
+	if err != nil {
+		return nil, err
+	}
+
 	opcodeCosts := &WASMOpcodeCost{}
 	err = mapstructure.Decode(gasMap["WASMOpcodeCost"], opcodeCosts)
 	if err != nil {
@@ -93,6 +99,17 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 	return gasCost, nil
 }
 
+// checkForUint32Overflow makes sure that no cost is truncated when it is decoded into a field of 32 bits
+func checkForUint32Overflow(costs map[string]uint64) error {
+	for name, cost := range costs {
+		if cost > math.MaxUint32 {
+			return fmt.Errorf("Gas cost for operation %s is too large.", name)
+		}
+	}
+
+	return nil
+}
+
 func checkForZeroUint64Fields(arg interface{}) error {
 	v := reflect.ValueOf(arg)
 	for i := 0; i < v.NumField(); i++ {
-- 
2.43.0


From 160c6de7b1e2b96603525bb5a14bddc065bd716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 29/61] fix: the gas locked for a callback is computed from the
 size of the running code, not of the last loaded one

---
 arwen/contexts/runtime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1428a9e..688ba61 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -126,6 +126,8 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 		return arwen.ErrMaxInstancesReached
 	}
 
+	context.codeSize = uint64(len(contract))
+
 	warmInstanceUsed := context.setWarmInstanceWhenNeeded(gasLimit)
 	if warmInstanceUsed {
 		return nil
@@ -327,6 +329,7 @@ func (context *runtimeContext) PushState() {
 		readOnly:         context.readOnly,
 		asyncCallInfo:    context.asyncCallInfo,
 		asyncContextInfo: context.asyncContextInfo,
+		codeSize:         context.codeSize,
 	}
 	newState.SetVMInput(context.vmInput)
 
@@ -356,6 +359,7 @@ func (context *runtimeContext) PopSetActiveState() {
 	context.readOnly = prevState.readOnly
 	context.asyncCallInfo = prevState.asyncCallInfo
 	context.asyncContextInfo = prevState.asyncContextInfo
+	context.codeSize = prevState.codeSize
 	context.popInstance()
 }
 
-- 
2.43.0


From 3ea74f936b3df42efca8fa912b77cecf8fd57b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 30/61] fix: an upgrade for which the gas is not enough fails
 the caller instead of being skipped silently

---
 arwen/elrondapi/elrondei.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index d8e29fc..6a0af85 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1557,6 +1557,11 @@ func upgradeContract(
 		value,
 	)
 	logEEI.Trace("upgradeContract", "error", err)
+	if errors.Is(err, arwen.ErrNotEnoughGas) {
+		runtime.SetRuntimeBreakpointValue(arwen.BreakpointOutOfGas)
+		return
+	}
+	arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution())
 }
 
 //export v1_3_asyncCall
-- 
2.43.0


From bc48dab05781741b36a70b5a03e7af7686cfe412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 31/61] fix: shard of a contract address is reconstructed so
 that it can be read again

---
 mandos-go/expression/reconstructor/reconstructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index eaa52f1..4baca19 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -95,7 +95,7 @@ func addressPretty(value []byte) string {
 			addrStr := string(value[ei.SCAddressNumLeadingZeros:31])
 			addrStr = strings.TrimRight(addrStr, "_")
 			shard_id := value[31]
-			return fmt.Sprintf("sc:%s#%x", addrStr, shard_id)
+			return fmt.Sprintf("sc:%s#%02x", addrStr, shard_id)
 		}
 	}
 
-- 
2.43.0


From f44192182d62f678b9b5442e74faec59a06efde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 32/61] fix: a number without digits is an error, not a panic

---
 mandos-go/expression/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 4cc5a55..0cbe3f4 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -182,6 +182,10 @@ func (ei *ExprInterpreter) InterpretString(strRaw string) ([]byte, error) {
 
 // targetWidth = 0 means minimum length that can contain the result
 func (ei *ExprInterpreter) interpretNumber(strRaw string, targetWidth int) ([]byte, error) {
+	if len(strRaw) == 0 {
+		return []byte{}, errors.New("number expected, but nothing found")
+	}
+
 	// signed numbers
 	if strRaw[0] == '-' || strRaw[0] == '+' {
 		numberBytes, err := ei.interpretUnsignedNumber(strRaw[1:])
-- 
2.43.0


From 0d921e16003a223120bbdf2638da5f3e1b536b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:55 +0000
Subject: [PATCH 33/61] fix: negative binary numbers are refused

---
 mandos-go/expression/interpreter/interpreter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 0cbe3f4..6a1ef96 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -229,7 +229,7 @@ func (ei *ExprInterpreter) interpretUnsignedNumber(strRaw string) ([]byte, error
 		result := new(big.Int)
 		var parseOk bool
 		result, parseOk = result.SetString(str[2:], 2)
-		if !parseOk {
+		if !parseOk || result.Sign() < 0 {
 			return []byte{}, fmt.Errorf("could not parse binary value: %s", strRaw)
 		}
 
-- 
2.43.0


From ba406e7e6a8247abe7448f6c85f3799f8a090de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 34/61] fix: the end of a JSON string after escaped backslashes

---
 mandos-go/orderedjson/ojParse.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index d1d3f49..863c8fc 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -15,6 +15,7 @@ type jsonParserStateAnyObjPlaceholder struct {
 type jsonParserStateSingleValue struct {
 	buffer       bytes.Buffer
 	stringEscape bool
+	escaped      bool // the previous character is a backslash that is not itself escaped
 }
 
 type jsonParserStateMap struct {
@@ -23,7 +24,8 @@ type jsonParserStateMap struct {
 
 type jsonStateMapKeyValue struct {
 	keyBuffer bytes.Buffer
-	state     int // 0=key, 1=':', 2=value
+	escaped   bool // the previous character is a backslash that is not itself escaped
+	state     int  // 0=key, 1=':', 2=value
 	currentKV OJsonKeyValuePair
 }
 
@@ -41,7 +43,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 	stateStack.push(&jsonParserStateAnyObjPlaceholder{})
 	var pendingResult OJsonObject
 
-	for i, c := range input {
+	for _, c := range input {
 		done := false
 		for !done {
 			done = true
@@ -80,10 +82,11 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 					specificState.stringEscape = (c == '"')
 					specificState.buffer.WriteByte(c)
 				} else {
-					prevChar := input[i-1]
 					if specificState.stringEscape {
 						specificState.buffer.WriteByte(c)
-						if c == '"' && prevChar != '\\' {
+						closesString := c == '"' && !specificState.escaped
+						specificState.escaped = c == '\\' && !specificState.escaped
+						if closesString {
 							stateStack.pop()
 							var err error
 							pendingResult, err = specificState.finalize()
@@ -152,8 +155,9 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						}
 					} else {
 						specificState.keyBuffer.WriteByte(c)
-						prevChar := input[i-1]
-						if c == '"' && prevChar != '\\' {
+						closesString := c == '"' && !specificState.escaped
+						specificState.escaped = c == '\\' && !specificState.escaped
+						if closesString {
 							specificState.state = 1
 						}
 					}
-- 
2.43.0


From 20ccc922e6cf9e2364f97309ac82a6ed1b9b91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 35/61] fix: garbage between the elements of a JSON list is
 refused

---
 mandos-go/orderedjson/ojParse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 863c8fc..3aa126b 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -125,6 +125,8 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						done = false
 					} else if c == ',' {
 						stateStack.push(&jsonParserStateAnyObjPlaceholder{})
+					} else {
+						return nil, errors.New("invalid character in list, comma expected")
 					}
 				}
 			case *jsonParserStateMap:
-- 
2.43.0


From e76344664bebf58390e874e786d57f741148c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 36/61] fix: a JSON object does not begin with a comma

---
 mandos-go/orderedjson/ojParse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 3aa126b..dd2a028 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -135,7 +135,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 				} else if c == '}' {
 					pendingResult = specificState.currentMap
 					stateStack.pop()
-				} else if c == ',' {
+				} else if c == ',' && specificState.currentMap.Size() > 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
 				} else if specificState.currentMap.Size() == 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
-- 
2.43.0


From 69ea2703a77e2afe9cecf9841bd2687db5f189f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 37/61] fix: the uri condition is written, not the creator

---
 mandos-go/json/write/writeESDTCheck.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 6ce84de..a4b29bd 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -74,7 +74,7 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
 	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
-		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Creator))
+		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
 	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
-- 
2.43.0


From 779b1ed7534b740f255311379e9062e69befd0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 38/61] fix: conditions on tokens are written completely

---
 mandos-go/json/write/writeESDTCheck.go | 41 +++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index a4b29bd..41e57c6 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -26,7 +26,8 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendCheckESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
@@ -58,29 +59,34 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 }
 
 func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *oj.OJsonMap) {
-	if len(esdtInstance.Nonce.Original) > 0 {
+	if !esdtInstance.Nonce.IsUnspecified() {
 		targetOj.Put("nonce", checkUint64ToOJ(esdtInstance.Nonce))
 	}
-	if len(esdtInstance.Balance.Original) > 0 {
+	if !esdtInstance.Balance.IsUnspecified() {
 		targetOj.Put("balance", checkBigIntToOJ(esdtInstance.Balance))
 	}
-	if !esdtInstance.Creator.Unspecified && len(esdtInstance.Creator.Value) > 0 {
+	if isCheckBytesSpecified(esdtInstance.Creator) {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
-	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
+	if !esdtInstance.Royalties.IsUnspecified() {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
-	if !esdtInstance.Hash.Unspecified && len(esdtInstance.Hash.Value) > 0 {
+	if isCheckBytesSpecified(esdtInstance.Hash) {
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
-	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
+	if isCheckBytesSpecified(esdtInstance.Uri) {
 		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
-	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
+	if isCheckBytesSpecified(esdtInstance.Attributes) {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
 	}
 }
 
+// isCheckBytesSpecified tells if the condition was given explicitly, be it that the value should be empty or arbitrary.
+func isCheckBytesSpecified(checkBytes mj.JSONCheckBytes) bool {
+	return !checkBytes.IsUnspecified() && checkBytes.Original != nil
+}
+
 func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	if len(esdtItem.Instances) != 1 {
 		return false
@@ -88,6 +94,12 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
 		return false
 	}
+	if !isCheckOfNoESDTMetadata(esdtItem.Instances[0]) {
+		return false
+	}
+	if len(esdtItem.LastNonce.Original) > 0 {
+		return false
+	}
 	if len(esdtItem.Roles) > 0 {
 		return false
 	}
@@ -96,3 +108,16 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	}
 	return true
 }
+
+// isCheckOfNoESDTMetadata tells if all metadata is expected to be empty, as it is in the compact format.
+func isCheckOfNoESDTMetadata(esdtInstance *mj.CheckESDTInstance) bool {
+	return isCheckOfEmptyBytes(esdtInstance.Creator) &&
+		esdtInstance.Royalties == (mj.JSONCheckUint64{}) &&
+		isCheckOfEmptyBytes(esdtInstance.Hash) &&
+		isCheckOfEmptyBytes(esdtInstance.Uri) &&
+		isCheckOfEmptyBytes(esdtInstance.Attributes)
+}
+
+func isCheckOfEmptyBytes(checkBytes mj.JSONCheckBytes) bool {
+	return !checkBytes.IsUnspecified() && checkBytes.Original == nil
+}
-- 
2.43.0


From af8340363645434db1420f52055d7e01de3df997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 39/61] fix: token data is written completely

---
 mandos-go/json/write/writeESDT.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeESDT.go b/mandos-go/json/write/writeESDT.go
index 76c609b..2e3e1f5 100644
--- a/mandos-go/json/write/writeESDT.go
+++ b/mandos-go/json/write/writeESDT.go
@@ -37,7 +37,8 @@ func esdtItemToOJ(esdtItem *mj.ESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
@@ -99,6 +100,12 @@ func isCompactESDT(esdtItem *mj.ESDTData) bool {
 	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
 		return false
 	}
+	if hasESDTMetadata(esdtItem.Instances[0]) {
+		return false
+	}
+	if len(esdtItem.LastNonce.Original) > 0 {
+		return false
+	}
 	if len(esdtItem.Roles) > 0 {
 		return false
 	}
@@ -107,3 +114,11 @@ func isCompactESDT(esdtItem *mj.ESDTData) bool {
 	}
 	return true
 }
+
+func hasESDTMetadata(esdtInstance *mj.ESDTInstance) bool {
+	return len(esdtInstance.Creator.Original) > 0 ||
+		len(esdtInstance.Royalties.Original) > 0 ||
+		len(esdtInstance.Hash.Original) > 0 ||
+		len(esdtInstance.Uri.Value) > 0 ||
+		len(esdtInstance.Attributes.Original) > 0
+}
-- 
2.43.0


From 8757d9fa57126d9b6cda99939e31fca578c24de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 40/61] fix: the shard of an account is written

---
 mandos-go/json/write/writeAccount.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 3360263..1afa6a4 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -13,6 +13,9 @@ func AccountsToOJ(accounts []*mj.Account) oj.OJsonObject {
 		if len(account.Comment) > 0 {
 			acctOJ.Put("comment", stringToOJ(account.Comment))
 		}
+		if len(account.Shard.Original) > 0 {
+			acctOJ.Put("shard", uint64ToOJ(account.Shard))
+		}
 		acctOJ.Put("nonce", uint64ToOJ(account.Nonce))
 		acctOJ.Put("balance", bigIntToOJ(account.Balance))
 		if len(account.ESDTData) > 0 {
-- 
2.43.0


From b939d97f8288da70e22a2f8395194cf3b8dbb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 41/61] fix: that more tokens are allowed is written without
 other tokens

---
 mandos-go/json/write/writeAccount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 1afa6a4..1c1a91a 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -59,7 +59,7 @@ func checkAccountsToOJ(checkAccounts *mj.CheckAccounts) oj.OJsonObject {
 		if checkAccount.IgnoreESDT {
 			acctOJ.Put("esdt", stringToOJ("*"))
 		} else {
-			if len(checkAccount.CheckESDTData) > 0 {
+			if len(checkAccount.CheckESDTData) > 0 || checkAccount.MoreESDTTokensAllowed {
 				acctOJ.Put("esdt", checkESDTDataToOJ(
 					checkAccount.CheckESDTData, checkAccount.MoreESDTTokensAllowed))
 			}
-- 
2.43.0


From 3058ee2092c3e40c16baa133ec54e89397dd222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 42/61] fix: the nonce of a transaction is written

---
 mandos-go/json/write/writeScenario.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandos-go/json/write/writeScenario.go b/mandos-go/json/write/writeScenario.go
index da11b2d..a3bdd32 100644
--- a/mandos-go/json/write/writeScenario.go
+++ b/mandos-go/json/write/writeScenario.go
@@ -93,6 +93,9 @@ func ScenarioToOrderedJSON(scenario *mj.Scenario) oj.OJsonObject {
 
 func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ := oj.NewMap()
+	if len(tx.Nonce.Original) > 0 {
+		transactionOJ.Put("nonce", uint64ToOJ(tx.Nonce))
+	}
 	if tx.Type.HasSender() {
 		transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
 	}
-- 
2.43.0


From fab36ad71fd5ab1b84613dc051aea53e9653212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 43/61] fix: log conditions with missing fields can be written

---
 mandos-go/json/parse/parseLogs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandos-go/json/parse/parseLogs.go b/mandos-go/json/parse/parseLogs.go
index 24dd80b..6a311d2 100644
--- a/mandos-go/json/parse/parseLogs.go
+++ b/mandos-go/json/parse/parseLogs.go
@@ -20,7 +20,11 @@ func (p *Parser) processLogList(logsRaw oj.OJsonObject) ([]*mj.LogEntry, error)
 		if !isMap {
 			return nil, errors.New("unmarshalled log entry is not a map")
 		}
-		logEntry := mj.LogEntry{}
+		logEntry := mj.LogEntry{
+			Address:    mj.JSONCheckBytesUnspecified(),
+			Identifier: mj.JSONCheckBytesUnspecified(),
+			Data:       mj.JSONCheckBytesUnspecified(),
+		}
 		for _, kvp := range logMap.OrderedKV {
 			switch kvp.Key {
 			case "address":
-- 
2.43.0


From d155a140f73cb5f2f6cda5ae09436235bef0b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 44/61] fix: scenario steps without their main part are refused

---
 mandos-go/json/parse/parseScenario.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 36a5901..8d76d60 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -207,6 +207,9 @@ func (p *Parser) processScenarioStep(stepObj oj.OJsonObject) (mj.Step, error) {
 				return nil, fmt.Errorf("invalid check state field: %s", kvp.Key)
 			}
 		}
+		if step.CheckAccounts == nil {
+			return nil, errors.New("check state step without accounts")
+		}
 		return step, nil
 	case mj.StepNameDumpState:
 		step := &mj.DumpStateStep{}
@@ -260,8 +263,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 				return nil, fmt.Errorf("cannot parse tx step transaction: %w", err)
 			}
 		case "expect":
-			if !step.Tx.Type.IsSmartContractTx() {
-				return nil, fmt.Errorf("no expected result allowed for step of type %s", step.StepTypeName())
+			if !txType.IsSmartContractTx() {
+				return nil, errors.New("no expected result allowed for this type of step")
 			}
 			step.ExpectedResult, err = p.processTxExpectedResult(kvp.Value)
 			if err != nil {
@@ -271,5 +274,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 			return nil, fmt.Errorf("invalid tx step field: %s", kvp.Key)
 		}
 	}
+	if step.Tx == nil {
+		return nil, errors.New("tx step without a transaction")
+	}
 	return step, nil
 }
-- 
2.43.0


From b32b063d50ab0f1540870f9fae88752c652a898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 45/61] fix: checkState checks the owner

---
 arwenmandos/stepCheckAccounts.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index b637ecd..c20c2b4 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -82,6 +82,16 @@ func (ae *ArwenTestExecutor) checkAccounts(checkAccounts *mj.CheckAccounts) erro
 					er.CodeHint))
 		}
 
+		// currently ignoring the owner that is unspecified in the json
+		if !expectedAcct.Owner.IsUnspecified() && !expectedAcct.Owner.Check(matchingAcct.OwnerAddress) {
+			return fmt.Errorf("bad account owner. Account: %s. Want: %s. Have: \"%s\"",
+				expectedAcct.Address.Original,
+				oj.JSONString(expectedAcct.Owner.Original),
+				ae.exprReconstructor.Reconstruct(
+					matchingAcct.OwnerAddress,
+					er.AddressHint))
+		}
+
 		// currently ignoring asyncCallData that is unspecified in the json
 		if !expectedAcct.AsyncCallData.IsUnspecified() &&
 			!expectedAcct.AsyncCallData.Check([]byte(matchingAcct.AsyncCallData)) {
-- 
2.43.0


From 533084d5f048a7f25b599153cf3f62e8e389a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 46/61] fix: checkState accepts more tokens where it is told to

---
 arwenmandos/stepCheckAccounts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index c20c2b4..d45b05f 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -191,6 +191,10 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 		expectedToken := expectedTokens[tokenName]
 		accountToken := accountTokens[tokenName]
 		if expectedToken == nil {
+			if expectedAcct.MoreESDTTokensAllowed {
+				// if `"+": ""` was written in the test, any unspecified tokens are allowed
+				continue
+			}
 			expectedToken = &mj.CheckESDTData{
 				TokenIdentifier: mj.JSONBytesFromString{
 					Value:    []byte(tokenName),
-- 
2.43.0


From 7147d8a3833680f5b73ae3a5bf0f490a0281fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 47/61] fix: checkState checks the frozen flag of tokens

---
 arwenmandos/stepCheckAccounts.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index d45b05f..5c5768e 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -11,6 +11,7 @@ import (
 	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
 	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
 	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
 )
 
@@ -253,6 +254,7 @@ func (ae *ArwenTestExecutor) checkTokenState(
 	}
 
 	errors = append(errors, checkTokenRoles(accountAddress, tokenName, expectedToken, accountToken)...)
+	errors = append(errors, checkTokenFrozen(accountAddress, tokenName, expectedToken, accountToken)...)
 
 	return errors
 }
@@ -414,6 +416,34 @@ func checkTokenRoles(
 	return errors
 }
 
+// currently ignoring a frozen flag that is unspecified in the json
+func checkTokenFrozen(
+	accountAddress string,
+	tokenName string,
+	expectedToken *mj.CheckESDTData,
+	accountToken *worldmock.MockESDTData) []error {
+
+	var errors []error
+
+	if len(expectedToken.Frozen.Original) == 0 {
+		return errors
+	}
+
+	for _, accountInstance := range accountToken.Instances {
+		isFrozen := builtInFunctions.ESDTUserMetadataFromBytes(accountInstance.Properties).Frozen
+		if !expectedToken.Frozen.CheckBool(isFrozen) {
+			errors = append(errors, fmt.Errorf("bad ESDT frozen flag. Account: %s. Token: %s. Nonce: %d. Want: \"%s\". Have: %t",
+				accountAddress,
+				tokenName,
+				accountInstance.TokenMetaData.Nonce,
+				expectedToken.Frozen.Original,
+				isFrozen))
+		}
+	}
+
+	return errors
+}
+
 func makeErrorString(errors []error) string {
 	errorString := ""
 	for _, err := range errors {
-- 
2.43.0


From 00b156c105ee0ab1b32e1ef8a326e74b5a6cc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 48/61] fix: mismatches of token metadata are reported, not a
 panic

---
 arwenmandos/stepCheckAccounts.go | 8 ++++----
 arwenmandos/stepCheckTxResult.go | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 5c5768e..99e3c1e 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -314,7 +314,7 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 				"for token: %s, nonce: %d: Bad creator. Want: %s. Have: \"%s\"",
 				tokenName,
 				nonce,
-				oj.JSONString(expectedInstance.Creator.Original),
+				checkBytesPretty(expectedInstance.Creator),
 				ae.exprReconstructor.Reconstruct(
 					accountInstance.TokenMetaData.Creator,
 					er.AddressHint)))
@@ -335,7 +335,7 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 				"for token: %s, nonce: %d: Bad hash. Want: %s. Have: %s",
 				tokenName,
 				nonce,
-				oj.JSONString(expectedInstance.Hash.Original),
+				checkBytesPretty(expectedInstance.Hash),
 				ae.exprReconstructor.Reconstruct(
 					accountInstance.TokenMetaData.Hash,
 					er.NoHint)))
@@ -356,7 +356,7 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 				"for token: %s, nonce: %d: Bad URI. Want: %s. Have: \"%s\"",
 				tokenName,
 				nonce,
-				oj.JSONString(expectedInstance.Uri.Original),
+				checkBytesPretty(expectedInstance.Uri),
 				ae.exprReconstructor.Reconstruct(
 					actualUri,
 					er.StrHint)))
@@ -367,7 +367,7 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 				"for token: %s, nonce: %d: Bad attributes. Want: %s. Have: \"%s\"",
 				tokenName,
 				nonce,
-				oj.JSONString(expectedInstance.Attributes.Original),
+				checkBytesPretty(expectedInstance.Attributes),
 				ae.exprReconstructor.Reconstruct(
 					accountInstance.TokenMetaData.Attributes,
 					er.StrHint)))
diff --git a/arwenmandos/stepCheckTxResult.go b/arwenmandos/stepCheckTxResult.go
index c61b498..c152a50 100644
--- a/arwenmandos/stepCheckTxResult.go
+++ b/arwenmandos/stepCheckTxResult.go
@@ -123,3 +123,11 @@ func checkBytesListPretty(jcbs []mj.JSONCheckBytes) string {
 	}
 	return str + "]"
 }
+
+// checkBytesPretty formats a JSONCheckBytes for printing to console, also if it does not originate from a JSON field.
+func checkBytesPretty(jcb mj.JSONCheckBytes) string {
+	if jcb.Original == nil {
+		return "\"\""
+	}
+	return oj.JSONString(jcb.Original)
+}
-- 
2.43.0


From 6784b08212b51c8e91371513c138400361a745a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 49/61] fix: setState keeps the last nonce of tokens without
 instances

---
 arwenmandos/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index f024805..fb97585 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -70,12 +70,12 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			if err != nil {
 				return nil, err
 			}
-			err = account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
-			if err != nil {
-				return nil, err
-			}
 		}
-		err := account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
+		err := account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
+		if err != nil {
+			return nil, err
+		}
+		err = account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 116566293f0c6dd726c9bc50188001f168b8809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 50/61] fix: what builtin functions changed besides storage is
 reverted

---
 mock/world/worldAccount.go    | 6 ++++++
 mock/world/worldAccountMap.go | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mock/world/worldAccount.go b/mock/world/worldAccount.go
index 07841db..61d98fb 100644
--- a/mock/world/worldAccount.go
+++ b/mock/world/worldAccount.go
@@ -202,6 +202,9 @@ func (a *Account) ChangeOwnerAddress(sender []byte, newAddress []byte) error {
 	}
 
 	a.OwnerAddress = newAddress
+	if a.MockWorld != nil {
+		a.MockWorld.CreateStateBackup()
+	}
 
 	return nil
 }
@@ -215,6 +218,9 @@ func (a *Account) SetOwnerAddress(address []byte) {
 func (a *Account) SetUserName(userName []byte) {
 	a.Username = make([]byte, len(userName))
 	copy(a.Username, userName)
+	if a.MockWorld != nil {
+		a.MockWorld.CreateStateBackup()
+	}
 }
 
 // IncreaseNonce -
diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index ce386d3..80f5c74 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -83,8 +83,9 @@ func (am AccountMap) Clone() AccountMap {
 	return clone
 }
 
-// LoadAccountStorageFrom reassigns the storage of the accounts to the storage
-// of the accounts found in otherAM; it only does a reference change, not a deep copy.
+// LoadAccountStorageFrom reassigns the storage of the accounts, and what else
+// builtin functions may change, to those of the accounts found in otherAM;
+// it only does a reference change, not a deep copy.
 func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 	for address, account := range am {
 		otherAccount, otherExists := otherAM[address]
@@ -94,6 +95,9 @@ func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 				hex.EncodeToString([]byte(address)))
 		}
 		account.Storage = otherAccount.Storage
+		account.OwnerAddress = otherAccount.OwnerAddress
+		account.Username = otherAccount.Username
+		account.DeveloperReward = otherAccount.DeveloperReward
 	}
 
 	return nil
-- 
2.43.0


From b978408732f02559ffbeda2e66a810b4ce376da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 51/61] fix: a snapshot of the mock world remains after it was
 reverted to

---
 mock/world/worldAccountsAdapter.go | 5 +++--
 mock/world/worldUpdate.go          | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mock/world/worldAccountsAdapter.go b/mock/world/worldAccountsAdapter.go
index 28a4920..d51852e 100644
--- a/mock/world/worldAccountsAdapter.go
+++ b/mock/world/worldAccountsAdapter.go
@@ -90,8 +90,9 @@ func (m *MockAccountsAdapter) RevertToSnapshot(snapshotIndex int) error {
 			len(m.Snapshots)-1)
 	}
 
-	snapshot := m.Snapshots[snapshotIndex]
-	m.Snapshots = m.Snapshots[:snapshotIndex]
+	// the snapshot remains: it is the current state now
+	snapshot := m.Snapshots[snapshotIndex].Clone()
+	m.Snapshots = m.Snapshots[:snapshotIndex+1]
 
 	// TODO should probably set BalanceDelta of all accounts to 0 as well?
 	return m.World.AcctMap.LoadAccountStorageFrom(snapshot)
diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index 7493a76..4760b64 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -111,5 +111,10 @@ func (b *MockWorld) CommitChanges() error {
 
 // RollbackChanges should be called after the VM test has run, if the tx has failed
 func (b *MockWorld) RollbackChanges() error {
-	return b.AccountsAdapter.RevertToSnapshot(0)
+	err := b.AccountsAdapter.RevertToSnapshot(0)
+	if err != nil {
+		return err
+	}
+
+	return b.CommitChanges()
 }
-- 
2.43.0


From 78d09538b8d9494b033faecfe0d8743826eed697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 52/61] fix: tokens sent to an account which does not exist
 fail, not panic

---
 mock/world/builtinFunctionsWrapper.go | 17 ++++++++++++-----
 mock/world/worldDef.go                |  6 ++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/mock/world/builtinFunctionsWrapper.go b/mock/world/builtinFunctionsWrapper.go
index 0d87502..dcef113 100644
--- a/mock/world/builtinFunctionsWrapper.go
+++ b/mock/world/builtinFunctionsWrapper.go
@@ -64,8 +64,14 @@ func NewBuiltinFunctionsWrapper(
 // ProcessBuiltInFunction delegates the execution of a real builtin function to
 // the inner BuiltInFunctionContainer.
 func (bf *BuiltinFunctionsWrapper) ProcessBuiltInFunction(input *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
-	caller := bf.getAccountSharded(input.CallerAddr)
-	recipient := bf.getAccountSharded(input.RecipientAddr)
+	caller, err := bf.getAccountSharded(input.CallerAddr)
+	if err != nil {
+		return nil, err
+	}
+	recipient, err := bf.getAccountSharded(input.RecipientAddr)
+	if err != nil {
+		return nil, err
+	}
 
 	function, err := bf.Container.Get(input.Function)
 	if err != nil {
@@ -81,10 +87,11 @@ func (bf *BuiltinFunctionsWrapper) GetBuiltinFunctionNames() vmcommon.FunctionNa
 }
 
 // TODO change AccountMap to support this instead
-func (bf *BuiltinFunctionsWrapper) getAccountSharded(address []byte) vmcommon.UserAccountHandler {
+func (bf *BuiltinFunctionsWrapper) getAccountSharded(address []byte) (vmcommon.UserAccountHandler, error) {
 	accountShard := bf.World.ComputeId(address)
 	if accountShard != bf.World.SelfId() {
-		return nil
+		return nil, nil
 	}
-	return bf.World.AcctMap.GetAccount(address)
+
+	return bf.World.GetUserAccount(address)
 }
diff --git a/mock/world/worldDef.go b/mock/world/worldDef.go
index dd0ecc5..c45809c 100644
--- a/mock/world/worldDef.go
+++ b/mock/world/worldDef.go
@@ -103,7 +103,7 @@ func (b *MockWorld) NumberOfShards() uint32 {
 
 // ComputeId -
 func (b *MockWorld) ComputeId(address []byte) uint32 {
-	return b.AcctMap.GetAccount(address).ShardID
+	return b.GetShardOfAddress(address)
 }
 
 // SelfId -
@@ -113,9 +113,7 @@ func (b *MockWorld) SelfId() uint32 {
 
 // SameShard -
 func (b *MockWorld) SameShard(firstAddress []byte, secondAddress []byte) bool {
-	firstAccount := b.AcctMap.GetAccount(firstAddress)
-	secondAccount := b.AcctMap.GetAccount(secondAddress)
-	return firstAccount.ShardID == secondAccount.ShardID
+	return b.GetShardOfAddress(firstAddress) == b.GetShardOfAddress(secondAddress)
 }
 
 // CommunicationIdentifier -
-- 
2.43.0


From fd5596ae2cfef106c8451a7a79797f205f2f1155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 53/61] fix: external steps do not change whether gas is
 checked

---
 arwenmandos/execScenario.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index ef118d9..62eab1f 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -63,6 +63,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	fileResolverBackup := ae.fileResolver
+	checkGasBackup := ae.checkGas
 	clonedFileResolver := ae.fileResolver.Clone()
 	externalStepsRunner := mc.NewScenarioRunner(ae, clonedFileResolver)
 
@@ -73,6 +74,7 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	ae.fileResolver = fileResolverBackup
+	ae.checkGas = checkGasBackup
 
 	return nil
 }
-- 
2.43.0


From 6025e166013a3fcb8ae33f0fe60e08792169efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 54/61] fix: each scenario of a directory runs with its own gas
 schedule

---
 arwenmandos/execScenario.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index 62eab1f..1b4c640 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -7,10 +7,11 @@ import (
 	vmi "github.com/ElrondNetwork/elrond-vm-common"
 )
 
-// Reset clears state/world.
+// Reset clears state/world, so that the next scenario starts as if it were the first.
 // Is called in RunAllJSONScenariosInDirectory, but not in RunSingleJSONScenario.
 func (ae *ArwenTestExecutor) Reset() {
 	ae.World.Clear()
+	ae.mandosGasScheduleLoaded = false
 }
 
 // ExecuteScenario executes an individual test.
-- 
2.43.0


From d6a60d805a7902dab11424031c77028767325e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 55/61] fix: scenarios of a directory which does not exist do
 not pass

---
 mandos-go/controller/scenarioDir.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandos-go/controller/scenarioDir.go b/mandos-go/controller/scenarioDir.go
index 4ee50b3..ae1f648 100644
--- a/mandos-go/controller/scenarioDir.go
+++ b/mandos-go/controller/scenarioDir.go
@@ -21,6 +21,9 @@ func (r *ScenarioRunner) RunAllJSONScenariosInDirectory(
 	var nrPassed, nrFailed, nrSkipped int
 
 	err := filepath.Walk(mainDirPath, func(testFilePath string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if strings.HasSuffix(testFilePath, allowedSuffix) {
 			fmt.Printf("Scenario: %s ... ", shortenTestPath(testFilePath, generalTestPath))
 			if isExcluded(excludedFilePatterns, testFilePath, generalTestPath) {
-- 
2.43.0


From 6ac21c061586e183e4c6f4ec9ca7f149092c4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:18 +0000
Subject: [PATCH 56/61] fix: refunds of the caller are kept when it executes
 another contract or a builtin function

---
 arwen/contexts/output.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 86e6dd1..d21c2fa 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -120,6 +120,9 @@ func (context *outputContext) PopMergeActiveState() {
 
 	context.popCodeUpdates()
 
+	// the refund of the caller is kept
+	context.outputState.GasRefund = big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
+
 	mergeVMOutputs(prevState, context.outputState)
 	context.outputState = newVMOutput()
 	mergeVMOutputs(context.outputState, prevState)
@@ -539,9 +542,10 @@ func (context *outputContext) resolveReturnCodeFromError(err error) vmcommon.Ret
 
 // AddToActiveState merges the given vmOutput with the outputState.
 func (context *outputContext) AddToActiveState(rightOutput *vmcommon.VMOutput) {
-	if rightOutput.GasRefund != nil {
-		rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
+	if rightOutput.GasRefund == nil {
+		rightOutput.GasRefund = big.NewInt(0)
 	}
+	rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
 
 	for _, rightAccount := range rightOutput.OutputAccounts {
 		leftAccount, ok := context.outputState.OutputAccounts[string(rightAccount.Address)]
-- 
2.43.0


From d5985115c1cd6fd8e8e9dba2b8a6fb71f10dc6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 57/61] fix: kept compiled code is used for code which the
 transaction did not change

---
 arwen/contexts/blockchain.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 1131938..0098f4d 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -1,6 +1,7 @@
 package contexts
 
 import (
+	"bytes"
 	"math/big"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
@@ -130,14 +131,6 @@ func (context *blockchainContext) GetESDTToken(address []byte, tokenID []byte, n
 
 // GetCodeHash returns the code hash that is set tho the given account
 func (context *blockchainContext) GetCodeHash(address []byte) []byte {
-	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
-	isCodeChanged := !isNew && len(outputAccount.Code) > 0
-	if isCodeChanged {
-		// The code was deployed or upgraded by this transaction: the hash known
-		// by the blockchain, if any, is of other code.
-		return nil
-	}
-
 	account, err := context.blockChainHook.GetUserAccount(address)
 	if err != nil {
 		return nil
@@ -146,6 +139,14 @@ func (context *blockchainContext) GetCodeHash(address []byte) []byte {
 		return nil
 	}
 
+	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
+	hasCode := !isNew && len(outputAccount.Code) > 0
+	if hasCode && !bytes.Equal(outputAccount.Code, context.blockChainHook.GetCode(account)) {
+		// The code was deployed or upgraded by this transaction: the hash known
+		// by the blockchain, if any, is of other code.
+		return nil
+	}
+
 	codeHash := account.GetCodeHash()
 	return codeHash
 }
-- 
2.43.0


From 00701130efc2d5b06579008eb8e1aefa1fc32408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:39 +0000
Subject: [PATCH 58/61] fix: an NFT sent by a contract to another shard leaves
 it once

---
 arwen/host/execution.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index fdb4205..f47ea9f 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -787,9 +787,6 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 	if output.ReturnCode != vmcommon.Ok {
 		return
 	}
-	if !host.AreInSameShard(input.RecipientAddr, input.CallerAddr) {
-		return
-	}
 	isESDTTransfer := input.Function == vmcommon.BuiltInFunctionESDTTransfer || input.Function == vmcommon.BuiltInFunctionESDTNFTTransfer
 	if !isESDTTransfer {
 		return
@@ -802,6 +799,10 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 		}
 		recipientAddr = input.Arguments[3]
 	}
+	// An NFT is sent by calling the sender itself: the receiver is an argument
+	if !host.AreInSameShard(recipientAddr, input.CallerAddr) {
+		return
+	}
 	addOutputTransferToVMOutput(input.Function, input.Arguments, input.CallerAddr, recipientAddr, input.CallType, output)
 }
 
-- 
2.43.0


From b2d807113cd9d188c589d88f8810733bfd71aead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:39 +0000
Subject: [PATCH 59/61] fix: an NFT can be sent asynchronously to another shard

---
 arwen/host/asyncCall.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index 65195c2..fab6e3f 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -114,7 +114,14 @@ func (host *vmHost) determineAsyncCallExecutionMode(asyncCallInfo *arwen.AsyncCa
 		return arwen.AsyncUnknown, err
 	}
 
-	sameShard := host.AreInSameShard(runtime.GetSCAddress(), asyncCallInfo.Destination)
+	// An NFT is sent by calling the sender itself: the receiver is an argument
+	receiver := asyncCallInfo.Destination
+	isNFTTransfer := functionName == vmcommon.BuiltInFunctionESDTNFTTransfer && bytes.Equal(receiver, runtime.GetSCAddress())
+	if isNFTTransfer && len(args) >= vmcommon.MinLenArgumentsESDTNFTTransfer {
+		receiver = args[vmcommon.MinLenArgumentsESDTNFTTransfer-1]
+	}
+
+	sameShard := host.AreInSameShard(runtime.GetSCAddress(), receiver)
 	if host.IsBuiltinFunctionName(functionName) {
 		if sameShard {
 			isESDTTransfer, _, _ := isESDTTransferOnReturnDataFromFunctionAndArgs(functionName, args)
-- 
2.43.0


From 7c65aa4d7efcec7fb31ae56822362266cebc956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:39 +0000
Subject: [PATCH 60/61] fix: a token with a nonce of 2^63 or more is no
 fungible token for its receiver

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 6a0af85..92c5aff 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1240,7 +1240,7 @@ func TransferESDTNFTExecuteWithTypedArgs(
 		}
 
 		esdtTokenType := vmcommon.Fungible
-		if nonce > 0 {
+		if nonce != 0 {
 			esdtTokenType = vmcommon.NonFungible
 		}
 		contractCallInput.ESDTTransfers = make([]*vmcommon.ESDTTransfer, 1)
-- 
2.43.0


From b9d55acafe9299927e042be6d3b72c2fc27cfccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 61/61] fix: addresses and storage keys which are no text
 survive in the debugger's database

---
 arwendebug/world.go | 59 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/arwendebug/world.go b/arwendebug/world.go
index bdb314d..2c68459 100644
--- a/arwendebug/world.go
+++ b/arwendebug/world.go
@@ -2,6 +2,7 @@ package arwendebug
 
 import (
 	"math/big"
+	"strings"
 
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
 	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
@@ -11,6 +12,8 @@ import (
 	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 )
 
+const dataModelKeyPrefix = "0x"
+
 type worldDataModel struct {
 	ID       string
 	Accounts worldmock.AccountMap
@@ -32,7 +35,11 @@ func newWorldDataModel(worldID string) *worldDataModel {
 // newWorld creates a new debugging world
 func newWorld(dataModel *worldDataModel) (*world, error) {
 	blockchainHook := worldmock.NewMockWorld()
-	blockchainHook.AcctMap = dataModel.Accounts
+	accounts, err := accountsFromDataModel(dataModel.Accounts)
+	if err != nil {
+		return nil, err
+	}
+	blockchainHook.AcctMap = accounts
 
 	vm, err := host.NewArwenVM(
 		blockchainHook,
@@ -136,9 +143,15 @@ func (w *world) createAccount(request CreateAccountRequest) *CreateAccountRespon
 }
 
 func (w *world) toDataModel() *worldDataModel {
-	accounts := w.blockchainHook.AcctMap.Clone()
-	for _, account := range accounts {
+	accounts := worldmock.NewAccountMap()
+	for address, account := range w.blockchainHook.AcctMap.Clone() {
 		account.MockWorld = nil
+		storage := make(map[string][]byte, len(account.Storage))
+		for key, value := range account.Storage {
+			storage[keyToDataModel(key)] = value
+		}
+		account.Storage = storage
+		accounts[keyToDataModel(address)] = account
 	}
 
 	return &worldDataModel{
@@ -146,3 +159,43 @@ func (w *world) toDataModel() *worldDataModel {
 		Accounts: accounts,
 	}
 }
+
+func accountsFromDataModel(dataModel worldmock.AccountMap) (worldmock.AccountMap, error) {
+	accounts := worldmock.NewAccountMap()
+	for address, account := range dataModel {
+		storage := make(map[string][]byte, len(account.Storage))
+		for dataModelKey, value := range account.Storage {
+			key, err := keyFromDataModel(dataModelKey)
+			if err != nil {
+				return nil, err
+			}
+			storage[key] = value
+		}
+		account.Storage = storage
+
+		key, err := keyFromDataModel(address)
+		if err != nil {
+			return nil, err
+		}
+		accounts[key] = account
+	}
+
+	return accounts, nil
+}
+
+// keyToDataModel encodes an address or a storage key, which are any bytes, as
+// text: the data model is stored as JSON, which holds only valid text.
+func keyToDataModel(key string) string {
+	return dataModelKeyPrefix + toHex([]byte(key))
+}
+
+// keyFromDataModel decodes an address or a storage key; those without prefix,
+// written before the encoding was introduced, are taken as they are.
+func keyFromDataModel(key string) (string, error) {
+	if !strings.HasPrefix(key, dataModelKeyPrefix) {
+		return key, nil
+	}
+
+	decoded, err := fromHex(strings.TrimPrefix(key, dataModelKeyPrefix))
+	return string(decoded), err
+}
-- 
2.43.0

