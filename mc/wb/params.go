package wb

// Params lists the parameter names of the environment interface.
var Params = map[string][]string{
	"asyncCall":                    {"destOffset", "valueOffset", "dataOffset", "length"},
	"bigIntAbs":                    {"destination", "op"},
	"bigIntAdd":                    {"destination", "op1", "op2"},
	"bigIntAnd":                    {"destination", "op1", "op2"},
	"bigIntCmp":                    {"op1", "op2"},
	"bigIntEDiv":                   {"destination", "op1", "op2"},
	"bigIntEMod":                   {"destination", "op1", "op2"},
	"bigIntFinishSigned":           {"reference"},
	"bigIntFinishUnsigned":         {"reference"},
	"bigIntGetCallValue":           {"destination"},
	"bigIntGetESDTCallValue":       {"destination"},
	"bigIntGetESDTExternalBalance": {"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce", "result"},
	"bigIntGetExternalBalance":     {"addressOffset", "result"},
	"bigIntGetInt64":               {"handle"},
	"bigIntGetSignedArgument":      {"id", "destination"},
	"bigIntGetSignedBytes":         {"reference", "byteOffset"},
	"bigIntGetUnsignedArgument":    {"id", "destination"},
	"bigIntGetUnsignedBytes":       {"reference", "byteOffset"},
	"bigIntIsInt64":                {"handle"},
	"bigIntMul":                    {"destination", "op1", "op2"},
	"bigIntNeg":                    {"destination", "op"},
	"bigIntNew":                    {"smallValue"},
	"bigIntNot":                    {"destination", "op"},
	"bigIntOr":                     {"destination", "op1", "op2"},
	"bigIntSetInt64":               {"destination", "value"},
	"bigIntSetSignedBytes":         {"destination", "byteOffset", "byteLength"},
	"bigIntSetUnsignedBytes":       {"destination", "byteOffset", "byteLength"},
	"bigIntShl":                    {"destination", "op", "bits"},
	"bigIntShr":                    {"destination", "op", "bits"},
	"bigIntSign":                   {"op"},
	"bigIntSignedByteLength":       {"reference"},
	"bigIntStorageLoadUnsigned":    {"keyOffset", "keyLength", "destination"},
	"bigIntStorageStoreUnsigned":   {"keyOffset", "keyLength", "source"},
	"bigIntSub":                    {"destination", "op1", "op2"},
	"bigIntTDiv":                   {"destination", "op1", "op2"},
	"bigIntTMod":                   {"destination", "op1", "op2"},
	"bigIntUnsignedByteLength":     {"reference"},
	"bigIntXor":                    {"destination", "op1", "op2"},
	"checkNoPayment":               {},
	"clearStorageLock":             {"keyOffset", "keyLength"},
	"createContract":               {"gasLimit", "valueOffset", "codeOffset", "codeMetadataOffset", "length", "resultOffset", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"delegateExecution":            {"gasLimit", "addressOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"deployFromSourceContract":     {"gasLimit", "valueOffset", "sourceContractAddressOffset", "codeMetadataOffset", "resultAddressOffset", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"executeOnDestContext":         {"gasLimit", "addressOffset", "valueOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"executeOnDestContextByCaller": {"gasLimit", "addressOffset", "valueOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"executeOnSameContext":         {"gasLimit", "addressOffset", "valueOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"executeReadOnly":              {"gasLimit", "addressOffset", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"finish":                       {"pointer", "length"},
	"getArgument":                  {"id", "argOffset"},
	"getArgumentLength":            {"id"},
	"getBlockEpoch":                {},
	"getBlockHash":                 {"nonce", "resultOffset"},
	"getBlockNonce":                {},
	"getBlockRandomSeed":           {"pointer"},
	"getBlockRound":                {},
	"getBlockTimestamp":            {},
	"getCallValue":                 {"resultOffset"},
	"getCallValueTokenName":        {"callValueOffset", "tokenNameOffset"},
	"getCaller":                    {"resultOffset"},
	"getCurrentESDTNFTNonce":       {"addressOffset", "tokenIDOffset", "tokenIDLen"},
	"getESDTBalance":               {"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce", "resultOffset"},
	"getESDTNFTAttributeLength":    {"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce"},
	"getESDTNFTNameLength":         {"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce"},
	"getESDTNFTURILength":          {"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce"},
	"getESDTTokenData":             {"addressOffset", "tokenIDOffset", "tokenIDLen", "nonce", "valueHandle", "propertiesOffset", "hashOffset", "nameOffset", "attributesOffset", "creatorOffset", "royaltiesHandle", "urisOffset"},
	"getESDTTokenName":             {"resultOffset"},
	"getESDTTokenNonce":            {},
	"getESDTTokenType":             {},
	"getESDTValue":                 {"resultOffset"},
	"getExternalBalance":           {"addressOffset", "resultOffset"},
	"getFunction":                  {"functionOffset"},
	"getGasLeft":                   {},
	"getNumArguments":              {},
	"getNumReturnData":             {},
	"getOriginalTxHash":            {"dataOffset"},
	"getOwnerAddress":              {"resultOffset"},
	"getPrevBlockEpoch":            {},
	"getPrevBlockNonce":            {},
	"getPrevBlockRandomSeed":       {"pointer"},
	"getPrevBlockRound":            {},
	"getPrevBlockTimestamp":        {},
	"getReturnData":                {"resultID", "dataOffset"},
	"getReturnDataSize":            {"resultID"},
	"getSCAddress":                 {"resultOffset"},
	"getShardOfAddress":            {"addressOffset"},
	"getStateRootHash":             {"pointer"},
	"getStorageLock":               {"keyOffset", "keyLength"},
	"int64finish":                  {"value"},
	"int64getArgument":             {"id"},
	"int64storageLoad":             {"keyOffset", "keyLength"},
	"int64storageStore":            {"keyOffset", "keyLength", "value"},
	"isSmartContract":              {"addressOffset"},
	"isStorageLocked":              {"keyOffset", "keyLength"},
	"keccak256":                    {"dataOffset", "length", "resultOffset"},
	"ripemd160":                    {"dataOffset", "length", "resultOffset"},
	"setStorageLock":               {"keyOffset", "keyLength", "lockTimestamp"},
	"sha256":                       {"dataOffset", "length", "resultOffset"},
	"signalError":                  {"messageOffset", "messageLength"},
	"smallIntFinishSigned":         {"value"},
	"smallIntFinishUnsigned":       {"value"},
	"smallIntGetSignedArgument":    {"id"},
	"smallIntGetUnsignedArgument":  {"id"},
	"smallIntStorageLoadSigned":    {"keyOffset", "keyLength"},
	"smallIntStorageLoadUnsigned":  {"keyOffset", "keyLength"},
	"smallIntStorageStoreSigned":   {"keyOffset", "keyLength", "value"},
	"smallIntStorageStoreUnsigned": {"keyOffset", "keyLength", "value"},
	"storageLoad":                  {"keyOffset", "keyLength", "dataOffset"},
	"storageLoadFromAddress":       {"addressOffset", "keyOffset", "keyLength", "dataOffset"},
	"storageLoadLength":            {"keyOffset", "keyLength"},
	"storageStore":                 {"keyOffset", "keyLength", "dataOffset", "dataLength"},
	"transferESDT":                 {"destOffset", "tokenIDOffset", "tokenIDLen", "valueOffset", "gasLimit", "dataOffset", "length"},
	"transferESDTExecute":          {"destOffset", "tokenIDOffset", "tokenIDLen", "valueOffset", "gasLimit", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"transferESDTNFTExecute":       {"destOffset", "tokenIDOffset", "tokenIDLen", "valueOffset", "nonce", "gasLimit", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"transferValue":                {"destOffset", "valueOffset", "dataOffset", "length"},
	"transferValueExecute":         {"destOffset", "valueOffset", "gasLimit", "functionOffset", "functionLength", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"upgradeContract":              {"destOffset", "gasLimit", "valueOffset", "codeOffset", "codeMetadataOffset", "length", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"upgradeFromSourceContract":    {"destOffset", "gasLimit", "valueOffset", "sourceContractAddressOffset", "codeMetadataOffset", "numArguments", "argumentsLengthOffset", "dataOffset"},
	"verifyBLS":                    {"keyOffset", "messageOffset", "messageLength", "sigOffset"},
	"verifyEd25519":                {"keyOffset", "messageOffset", "messageLength", "sigOffset"},
	"verifySecp256k1":              {"keyOffset", "keyLength", "messageOffset", "messageLength", "sigOffset"},
	"writeEventLog":                {"numTopics", "topicLengthsOffset", "topicOffset", "dataOffset", "dataLength"},
	"writeLog":                     {"dataPointer", "dataLength", "topicPtr", "numTopics"},
}
