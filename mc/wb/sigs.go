package wb

// Sigs lists the environment interface available to contracts: parameter types and result type
// (i = i32, l = i64).
var Sigs = map[string][2]string{
	"getSCAddress":                 {"i", ""},
	"getOwnerAddress":              {"i", ""},
	"getShardOfAddress":            {"i", "i"},
	"isSmartContract":              {"i", "i"},
	"getExternalBalance":           {"ii", ""},
	"getBlockHash":                 {"li", "i"},
	"transferValue":                {"iiii", "i"},
	"transferESDTExecute":          {"iiiiliiiii", "i"},
	"transferESDTNFTExecute":       {"iiiilliiiii", "i"},
	"transferESDT":                 {"iiiilii", "i"},
	"transferValueExecute":         {"iiliiiii", "i"},
	"asyncCall":                    {"iiii", ""},
	"getArgumentLength":            {"i", "i"},
	"getArgument":                  {"ii", "i"},
	"getFunction":                  {"i", "i"},
	"getNumArguments":              {"", "i"},
	"storageStore":                 {"iiii", "i"},
	"storageLoadLength":            {"ii", "i"},
	"storageLoad":                  {"iii", "i"},
	"storageLoadFromAddress":       {"iiii", "i"},
	"getStorageLock":               {"ii", "l"},
	"setStorageLock":               {"iil", "i"},
	"isStorageLocked":              {"ii", "i"},
	"clearStorageLock":             {"ii", "i"},
	"getCaller":                    {"i", ""},
	"checkNoPayment":               {"", ""},
	"getCallValue":                 {"i", "i"},
	"getESDTValue":                 {"i", "i"},
	"getESDTTokenName":             {"i", "i"},
	"getESDTTokenType":             {"", "i"},
	"getESDTTokenNonce":            {"", "l"},
	"getCurrentESDTNFTNonce":       {"iii", "l"},
	"getCallValueTokenName":        {"ii", "i"},
	"writeLog":                     {"iiii", ""},
	"writeEventLog":                {"iiiii", ""},
	"finish":                       {"ii", ""},
	"signalError":                  {"ii", ""},
	"getBlockTimestamp":            {"", "l"},
	"getBlockNonce":                {"", "l"},
	"getBlockRound":                {"", "l"},
	"getBlockEpoch":                {"", "l"},
	"getBlockRandomSeed":           {"i", ""},
	"getStateRootHash":             {"i", ""},
	"getPrevBlockTimestamp":        {"", "l"},
	"getPrevBlockNonce":            {"", "l"},
	"getPrevBlockRound":            {"", "l"},
	"getPrevBlockEpoch":            {"", "l"},
	"getPrevBlockRandomSeed":       {"i", ""},
	"getOriginalTxHash":            {"i", ""},
	"getGasLeft":                   {"", "l"},
	"executeOnDestContext":         {"liiiiiii", "i"},
	"executeOnDestContextByCaller": {"liiiiiii", "i"},
	"executeOnSameContext":         {"liiiiiii", "i"},
	"delegateExecution":            {"liiiiii", "i"},
	"createContract":               {"liiiiiiii", "i"},
	"deployFromSourceContract":     {"liiiiiii", "i"},
	"upgradeContract":              {"iliiiiiii", ""},
	"upgradeFromSourceContract":    {"iliiiiii", ""},
	"executeReadOnly":              {"liiiiii", "i"},
	"getNumReturnData":             {"", "i"},
	"getReturnDataSize":            {"i", "i"},
	"getReturnData":                {"ii", "i"},
	"getESDTBalance":               {"iiili", "i"},
	"getESDTTokenData":             {"iiiliiiiiiii", "i"},
	"getESDTNFTNameLength":         {"iiil", "i"},
	"getESDTNFTAttributeLength":    {"iiil", "i"},
	"getESDTNFTURILength":          {"iiil", "i"},
	"bigIntNew":                    {"l", "i"},
	"bigIntUnsignedByteLength":     {"i", "i"},
	"bigIntSignedByteLength":       {"i", "i"},
	"bigIntGetUnsignedBytes":       {"ii", "i"},
	"bigIntGetSignedBytes":         {"ii", "i"},
	"bigIntSetUnsignedBytes":       {"iii", ""},
	"bigIntSetSignedBytes":         {"iii", ""},
	"bigIntIsInt64":                {"i", "i"},
	"bigIntGetInt64":               {"i", "l"},
	"bigIntSetInt64":               {"il", ""},
	"bigIntAdd":                    {"iii", ""},
	"bigIntSub":                    {"iii", ""},
	"bigIntMul":                    {"iii", ""},
	"bigIntTDiv":                   {"iii", ""},
	"bigIntTMod":                   {"iii", ""},
	"bigIntEDiv":                   {"iii", ""},
	"bigIntEMod":                   {"iii", ""},
	"bigIntAbs":                    {"ii", ""},
	"bigIntNeg":                    {"ii", ""},
	"bigIntSign":                   {"i", "i"},
	"bigIntCmp":                    {"ii", "i"},
	"bigIntNot":                    {"ii", ""},
	"bigIntAnd":                    {"iii", ""},
	"bigIntOr":                     {"iii", ""},
	"bigIntXor":                    {"iii", ""},
	"bigIntShr":                    {"iii", ""},
	"bigIntShl":                    {"iii", ""},
	"bigIntFinishUnsigned":         {"i", ""},
	"bigIntFinishSigned":           {"i", ""},
	"bigIntStorageStoreUnsigned":   {"iii", "i"},
	"bigIntStorageLoadUnsigned":    {"iii", "i"},
	"bigIntGetUnsignedArgument":    {"ii", ""},
	"bigIntGetSignedArgument":      {"ii", ""},
	"bigIntGetCallValue":           {"i", ""},
	"bigIntGetESDTCallValue":       {"i", ""},
	"bigIntGetESDTExternalBalance": {"iiili", ""},
	"bigIntGetExternalBalance":     {"ii", ""},
	"smallIntGetUnsignedArgument":  {"i", "l"},
	"smallIntGetSignedArgument":    {"i", "l"},
	"smallIntFinishUnsigned":       {"l", ""},
	"smallIntFinishSigned":         {"l", ""},
	"smallIntStorageStoreUnsigned": {"iil", "i"},
	"smallIntStorageStoreSigned":   {"iil", "i"},
	"smallIntStorageLoadUnsigned":  {"ii", "l"},
	"smallIntStorageLoadSigned":    {"ii", "l"},
	"int64getArgument":             {"i", "l"},
	"int64storageStore":            {"iil", "i"},
	"int64storageLoad":             {"ii", "l"},
	"int64finish":                  {"l", ""},
	"sha256":                       {"iii", "i"},
	"keccak256":                    {"iii", "i"},
	"ripemd160":                    {"iii", "i"},
	"verifyBLS":                    {"iiii", "i"},
	"verifyEd25519":                {"iiii", "i"},
	"verifySecp256k1":              {"iiiii", "i"},
}
