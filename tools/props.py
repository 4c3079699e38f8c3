PROPS = []
NOT_APPLICABLE = []
def P(**k): PROPS.append(k)

P(id="C10", title="Environment functions are safe for every pointer, length and handle",
  statement="Whatever values a contract passes to a function of the environment interface (pointers, lengths, handles, indexes, counts, gas limits and amounts at and beyond their bounds), the VM neither crashes nor hangs nor answers with an internal error: the call succeeds or the transaction fails with a user-level return code and without effects, and the VM goes on serving other calls unchanged. "
  "Data is read exactly from the memory of the contract (zero-extended past its end) and written exactly where the contract asked; anything that lies outside is refused.",
  over=["inputs"], quant="every function of the environment interface, every combination of boundary values of up to 2 (thorough: 3) of its parameters; loads and stores of every length at every boundary offset",
  why="There are 122 functions with up to 12 parameters each; tests call a few of them with valid values.",
  files=["arwen/elrondapi/elrondei.go", "arwen/elrondapi/bigIntOps.go", "arwen/elrondapi/smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "arwen/contexts/runtime.go"],
  mech=[("MemLoad / MemStore bounds", "arwen/contexts/runtime.go"), ("error reporting of the interface", "arwen/elrondapi/elrondei.go")],
  observe=["VMOutput", "a later call"], technique="exhaustive enumeration of boundary argument vectors on the real VM (stateless exploration) with a memory model as oracle",
  note="executed on the real VM and interface functions over an own WebAssembly engine; bounded by the number of deviating parameters")

P(id="C20", title="Saturating and checked arithmetic never wraps",
  statement="The arithmetic helpers on which gas and memory bounds are computed return the exact result whenever it fits the type. "
  "When it does not, the checked variants report an error, unsigned additions and multiplications and positive signed additions saturate at the greatest value, unsigned subtraction yields zero and signed subtraction the least value; "
  "they never return a wrapped value.",
  over=["inputs"], quant="all pairs of operands from a lattice around every power of two and the bounds of each type",
  why="The repository has one test with two operands of one function.",
  files=["math/overflow.go"], mech=[("overflow tests", "math/overflow.go")], observe=["return values"],
  technique="exhaustive enumeration of operand pairs over a boundary lattice against math/big",
  note="every pair of the lattice is executed on the real functions")

TREE = "exhaustive enumeration of bounded trees of contract calls on the real VM (stateless exploration), differential against an executable reference model"
TREEF = ["arwen/host/execution.go", "arwen/host/asyncCall.go", "arwen/contexts/output.go", "arwen/contexts/metering.go", "arwen/contexts/runtime.go", "arwen/contexts/blockchain.go", "arwen/elrondapi/elrondei.go"]
TNOTE = "every tree is compiled to WebAssembly and executed on the real VM; bounded by depth, width and the alphabet of calls"

P(id="C01", title="Gas is conserved, and every amount of gas gives a clean outcome",
  statement="For every contract, tree of calls and amount of gas, a successful execution accounts for exactly the gas provided: what remains, plus what each account used, plus what was sent along with or locked for outgoing transfers. "
  "A failed transaction leaves no gas. With plenty of gas every call is executed completely: no part of it fails for reasons of gas. "
  "With more gas the execution behaves the same: there is no amount of gas at which the VM reports an internal inconsistency, gives out more gas than it got, or succeeds with effects other than those of the complete execution (except for asynchronous calls, whose parts may run out of gas by themselves).",
  over=["inputs", "faults"], quant="every amount of gas from zero to sufficiency for trees of all 14 kinds of call with all ways to end, nested up to 2 calls",
  why="Tests use plenty of gas and check single amounts; running out of gas at a particular instruction between two calls is not sampled.",
  files=["arwen/contexts/metering.go", "arwen/contexts/output.go", "arwen/host/execution.go", "arwen/host/asyncCall.go", "arwen/elrondapi/elrondei.go"],
  mech=[("gas accounting per account", "arwen/contexts/metering.go"), ("gas handed to and taken back from nested calls", "arwen/host/execution.go"), ("gas locks of asynchronous calls", "arwen/host/asyncCall.go")],
  observe=["VMOutput.GasRemaining", "OutputAccount.GasUsed", "OutputTransfer.GasLimit"], technique="exhaustive fault enumeration: every amount of gas (every point at which gas can run out) of bounded trees of calls on the real VM",
  note="every amount of gas is executed on the real VM")

P(id="C02", title="A failed transaction has no effects",
  statement="Whenever a transaction does not end with the return code Ok - because its contract signals an error, traps, runs out of gas, is not found, is entered through a function which does not exist or may not be called, or pays what it does not have - its output carries the code and message of the failure and nothing else: "
  "no storage, balance, nonce, code, token, log, transfer, return data or gas survives, whatever happened in nested calls before.",
  over=["inputs", "histories", "faults"], quant="all chains of 2 and pairs of calls of 14 kinds x 4 ways to end x callbacks before every way for the root to fail; all ways to enter a contract wrongly; exhaustion of gas at every amount",
  why="Tests check failures of single calls; effects may leak only from particular combinations of nested calls before the failure.",
  files=TREEF, mech=[("output of a failed execution", "arwen/contexts/output.go"), ("clean state per transaction", "arwen/host/arwen.go")],
  observe=["VMOutput", "world after the transaction"], technique=TREE, note=TNOTE)

P(id="C03", title="A failed nested call is undone exactly; a successful one is kept exactly",
  statement="When a contract goes on after a nested call, deployment or asynchronous call that failed, everything the failed call did - storage, transfers, balances, tokens, logs, return data, new contracts, big integers of its own - is undone, everything before it is kept, and what the caller observes afterwards is as if the call had not been made, except for the reported failure. "
  "When it succeeds, its effects appear once, in order, for everybody.",
  over=["inputs", "histories", "faults"], quant="all trees of up to 2 (selected 3, thorough 3) calls over 14 kinds x 4 ways to end x callee x callback, and calls of wallets, other shards, missing contracts and functions",
  why="The number of combinations of calls which push, pop, merge and discard the states of six contexts is far beyond what tests sample.",
  files=TREEF, mech=[("state stacks of the contexts", "arwen/contexts/output.go"), ("push, pop and merge around nested calls", "arwen/host/execution.go"), ("snapshots", "arwen/contexts/blockchain.go")],
  observe=["VMOutput", "world after the transaction", "what contracts observe"], technique=TREE, note=TNOTE)

P(id="C07", title="Read-only execution changes nothing",
  statement="While a read-only call is running, however deeply contracts call each other inside it, nothing can be changed: no storage, balance, token, code, nonce, log or transfer, by any kind of call, deployment, upgrade, asynchronous call or built-in function. "
  "Such an attempt fails or does nothing; reading works; and after the read-only call the caller can write again.",
  over=["inputs", "histories"], quant="all trees of up to 3 calls with a read-only call in every position over 14 kinds x 4 ways to end",
  why="Tests check that a storage write in a read-only call is refused; the many other ways to have an effect, directly or from a nested call, are not sampled.",
  files=TREEF + ["arwen/contexts/storage.go"], mech=[("read-only flag", "arwen/contexts/runtime.go"), ("checks in storage, output, execution", "arwen/contexts/storage.go")],
  observe=["VMOutput", "world after the transaction"], technique=TREE, note=TNOTE)

P(id="C04", title="Value moves exactly once and never from nothing",
  statement="Native currency is neither created nor lost by any execution: every transfer, call value and value of an asynchronous call, deployment or upgrade debits the payer and credits the receiver by exactly its amount, once, if the payer owns it at that moment, and otherwise the move fails without effect and is reported to the contract. "
  "The balance a contract observes at any moment is its balance after all moves so far, and the changes of balances and transfers in the output agree with them; negative or wrapped amounts do not exist.",
  over=["inputs", "histories"], quant="amounts 0, 1, exactly the balance, one more, 2^62 and 2^256-1 in every pair of moves over all kinds of call and receivers, and in nested calls",
  why="Tests transfer small amounts between contracts which own enough; amounts at the exact limit after earlier moves are not sampled.",
  files=TREEF + ["arwen/contexts/output.go"], mech=[("transfers and balance deltas", "arwen/contexts/output.go"), ("call values", "arwen/host/execution.go")],
  observe=["VMOutput", "balances after the transaction", "balances observed by contracts"], technique=TREE, note=TNOTE)

P(id="C13", title="An asynchronous call is executed once and answered faithfully",
  statement="An asynchronous call runs its destination exactly once, after which the caller's callback, if it has one, runs exactly once, knows that it is a callback from that destination, and receives the return code followed by exactly the values the destination returned, or by its error message; the value and the tokens it receives are those the destination sent back. "
  "A failing destination is undone and answered; a failing callback is undone and does not undo the destination; a call to another shard leaves as one outgoing transfer with its data, value and gas, and nothing else happens here. Gas locked for a callback is available to it, and to nothing else.",
  over=["inputs", "histories", "faults"], quant="17 results x 10 gifts x 8 callbacks x 4 ways to end x what happened before, also nested, from other shards, and with either rule for locking gas",
  why="Tests use a few fixed results and callbacks; results that look like transfers, earlier transfers and nested asynchronous calls are not sampled.",
  files=TREEF, mech=[("asynchronous calls and callbacks", "arwen/host/asyncCall.go"), ("gas lock", "arwen/contexts/metering.go"), ("results as token transfers", "arwen/host/asyncCall.go")],
  observe=["VMOutput", "what callbacks observe", "world after the transaction"], technique=TREE, note=TNOTE)

P(id="C05", title="Contract storage behaves as one map per account",
  statement="Storage is a map from keys to values for every account: whichever function stores or loads - raw, big, 64-bit, time locks, reading from another address - a load yields what the latest store under exactly this key of this account left, in this or an earlier transaction and in any nested call, and the empty value if nothing or the empty value was stored; stores report whether they added, modified, deleted or left the value, and nothing else changes. "
  "Reads from another account see what it holds now, if its metadata make it readable, and nothing otherwise. Keys of the protocol (prefix ELROND) and of the VM (prefix ARWEN@) cannot be written by contracts, and the former always show what the protocol holds. A time lock holds exactly until its timestamp. A failed execution stores nothing.",
  over=["inputs", "histories"], quant="all pairs of 214 operations and all triples of 41 in 7 arrangements over frames, contexts, contracts and transactions",
  why="Tests store and load single values; the interplay of the ways to store, contexts and the cache of updates is not sampled.",
  files=["arwen/contexts/storage.go", "arwen/elrondapi/elrondei.go", "arwen/elrondapi/smallIntOps.go", "arwen/elrondapi/bigIntOps.go"],
  mech=[("storage cache and status", "arwen/contexts/storage.go"), ("protected keys", "arwen/contexts/storage.go"), ("time locks", "arwen/elrondapi/elrondei.go")],
  observe=["results of the operations", "storage after the transaction"], technique="exhaustive enumeration of sequences of operations on the real VM (stateless exploration) against maps as reference model",
  note="every sequence is compiled to WebAssembly and executed on the real VM")

P(id="C12", title="Contracts are entered only where they allow it",
  statement="A contract can be entered only through a function it exports, by that exact name. Its constructor (init) runs exactly once, when its code is deployed or upgraded, and never otherwise; its callback runs only as the answer to an asynchronous call and cannot be called by transactions or other contracts. "
  "A contract can upgrade another one only if it is the owner and the metadata say upgradeable, outside read-only calls; then the code and metadata are exactly the new ones and the owner stays. A deployed contract belongs to its creator, and no other function runs. These rules hold over every kind of call, directly and nested.",
  over=["inputs", "histories"], quant="11 function names x 4 types of transaction and 10 kinds of call, nested in each other; 5 owners x 16 metadata x 9 ways to upgrade x 11 nestings; deployments over all nestings",
  why="Tests try single forbidden calls; the same rule is enforced separately on every path.",
  files=["arwen/host/execution.go", "arwen/host/asyncCall.go", "arwen/contexts/runtime.go", "arwen/elrondapi/elrondei.go"],
  mech=[("allowed functions", "arwen/host/execution.go"), ("upgrade permission", "arwen/host/execution.go"), ("deployment", "arwen/host/execution.go")],
  observe=["marks left by functions", "code, owner and metadata of accounts"], technique="exhaustive enumeration of entries, paths and permissions on the real VM (stateless exploration) against the rule as oracle",
  note="every combination is executed on the real VM")

P(id="C15", title="Big integers compute exactly, whatever the handles",
  statement="Every big-integer operation of the environment interface computes the mathematical result - sums, differences, products, Euclidean and truncated quotients and remainders, powers, roots, logarithms, shifts, bitwise operations, comparisons, conversions to and from bytes and 64-bit integers, signed and unsigned - into its destination handle, also when handles coincide, and leaves every other handle unchanged. "
  "Operations which have no result (division by zero, roots of and bitwise operations on negative numbers) fail the execution; a handle that was never set reads as zero. Stored and loaded numbers, arguments and results keep their value.",
  over=["inputs", "histories"], quant="all pairs of operands from a lattice of boundary values x every way handles coincide; all sequences of up to 3 (thorough: 4) operations",
  why="Tests use single small operands and distinct handles; aliasing, signs and sizes are combined here.",
  files=["arwen/elrondapi/bigIntOps.go", "arwen/contexts/bigint.go"],
  mech=[("operations", "arwen/elrondapi/bigIntOps.go"), ("handles", "arwen/contexts/bigint.go"), ("two's complement", "math/twos-complement")],
  observe=["bytes of all handles after the operations"], technique="exhaustive enumeration of operations, operands and sequences on the real VM (stateless exploration) against math/big over a map of handles as reference model",
  note="every combination is executed on the real VM")

P(id="C16", title="Numbers survive every representation",
  statement="A number given as an argument, returned as a result or kept in storage, as a signed or unsigned 64-bit number or as a big integer, is the number that was written: arguments and storage entries are read as big-endian numbers (two's complement where signed), results and storage entries are written minimally, and what one function stores every other function of the same kind loads. "
  "A number which does not fit into the 64 bits of the function that reads it makes the execution fail and is never truncated. Arguments as bytes, and their lengths, arrive unchanged.",
  over=["inputs"], quant="all byte strings up to 2 bytes and a lattice of strings up to 33 bytes for every reading function, all 16-bit numbers and the neighbours of all powers of two for every writing function",
  why="Tests convert a few small positive numbers; the errors live at sign changes, leading zeros and 8-byte limits.",
  files=["arwen/elrondapi/smallIntOps.go", "arwen/elrondapi/bigIntOps.go", "arwen/elrondapi/elrondei.go"],
  mech=[("64-bit arguments, results and storage", "arwen/elrondapi/smallIntOps.go"), ("big integers", "arwen/elrondapi/bigIntOps.go")],
  observe=["VMOutput.ReturnData", "values in the memory of the contract"], technique="exhaustive enumeration of representations over a boundary lattice on the real VM (stateless exploration) against math/big",
  note="every string and number of the lattices is executed on the real VM")

P(id="C17", title="A contract sees exactly its call, its payment, the block and the accounts",
  statement="At every place of every tree of calls a contract is told the truth: its address, the caller, the function, the number, lengths and bytes of the arguments, the EGLD value, the token, nonce, type and value of a token payment, the hashes of the transaction, the gas left, the nonce, round, time, seed and epoch of this and the previous block, the state root, block hashes, balances, tokens, owners, shards and kinds of accounts. "
  "Each function writes exactly the bytes of its answer where it was asked to and returns its exact length.",
  over=["inputs", "histories"], quant="combinations of functions, callers, arguments, values and payments, of block data, of token shapes; every place in chains of up to 2 calls of 14 kinds, before and after nested calls; balances after every step of all sequences of up to 3 (thorough: 4) transfers and calls of 18 kinds",
  why="Tests read a few of these in direct calls; here every function is read in every position, with every other value different from it.",
  files=["arwen/elrondapi/elrondei.go", "arwen/elrondapi/bigIntOps.go", "arwen/contexts/blockchain.go", "arwen/contexts/runtime.go", "arwen/host/execution.go"],
  mech=[("the interface", "arwen/elrondapi/elrondei.go"), ("input of the call", "arwen/contexts/runtime.go"), ("the chain", "arwen/contexts/blockchain.go")],
  observe=["bytes written into the memory of the contract", "values returned"], technique="exhaustive enumeration of calls, payments, block data and call chains on the real VM (stateless exploration) against the given input and an executable reference model",
  note="every combination is executed on the real VM")

P(id="C19", title="Hashes are right and signatures are accepted exactly when valid",
  statement="The hash functions of the environment interface write exactly the SHA-256, Keccak-256 or RIPEMD-160 hash of the given bytes to the given place, whatever their length and also onto themselves. "
  "Signature verification (Ed25519, BLS over BLS12-381, ECDSA over secp256k1) accepts every signature made with the key for the message, and refuses it for any other key, message or signature, for keys or signatures which are at infinity, off the curve or outside the prime-order subgroup, and for numbers out of range.",
  over=["inputs"], quant="all lengths up to 300 (thorough: 2100) x 3 contents x 3 destinations; all triples of a pool of keys, messages and signatures; every single-bit change and truncation of key, message and signature of valid triples; crafted points",
  why="Tests verify one valid and one invalid signature per scheme.",
  files=["arwen/cryptoapi/cryptoei.go", "crypto/hashing/hasher.go", "crypto/signing/bls/bls.go", "crypto/signing/ed25519/ed25519.go", "crypto/signing/secp256k1/secp256k1.go", "crypto/signing/mcl/singlesig/bls.go", "crypto/signing/mcl/suiteBLS12_381.go"],
  mech=[("interface", "arwen/cryptoapi/cryptoei.go"), ("BLS", "crypto/signing/mcl/singlesig/bls.go"), ("secp256k1", "crypto/signing/secp256k1/secp256k1.go")],
  observe=["memory of the contract", "verdict returned"], technique="exhaustive enumeration of lengths, single-bit changes and pools of keys, messages and signatures on the real VM (stateless exploration) against the published definition as oracle",
  note="every variant is executed on the real VM and the linked libraries")

P(id="C22", title="Results and logs are recorded exactly and in order",
  statement="The results and log entries a contract produces appear in the outcome with the exact bytes they had when they were written, in the order in which they were written, logs with the identifier, topics, data and address of the contract that wrote them, whatever number of them and of topics, whatever their lengths, and whatever happens to the memory afterwards; those of nested calls come in their place, those of nested calls which failed do not come at all, and the contract can read back exactly the results there are so far.",
  over=["inputs", "histories"], quant="all sequences of 3 (thorough: 4) results and log entries of an alphabet of numbers and lengths, in one frame or around nested calls of 6 kinds",
  why="Tests write one or two results; order, aliasing of memory and nesting are combined here.",
  files=["arwen/elrondapi/elrondei.go", "arwen/contexts/output.go", "arwen/host/execution.go"],
  mech=[("the interface", "arwen/elrondapi/elrondei.go"), ("collection and merging", "arwen/contexts/output.go")],
  observe=["VMOutput.ReturnData", "VMOutput.Logs", "results read back by the contract"], technique="exhaustive enumeration of bounded sequences of records on the real VM (stateless exploration) against the list of records as reference model",
  note="every sequence is executed on the real VM")

P(id="C30", title="Messages between the node and the VM process arrive whole and unchanged",
  statement="Every message of the protocol between the node and the Arwen process - requests, answers, hook calls and their answers, with the VM's inputs, outputs, accounts, tokens, gas schedules and errors inside - is received with exactly the kind, nonce, contents and error with which it was sent, with either marshalizer, however the bytes are divided by the pipe. "
  "A stream which ends inside a message, a message of an unknown kind, and a message whose number is not the next one of the dialogue are refused with an error.",
  over=["inputs", "faults"], quant="every kind of message x all single-field variations of its contents x 2 marshalizers, every prefix and every split into two of a message, all sequences of up to 3 messages, all interleavings of up to 7 operations of both ends",
  why="Tests send a handful of messages with small fields over an undisturbed pipe.",
  files=["ipc/common/sender.go", "ipc/common/receiver.go", "ipc/common/messenger.go", "ipc/common/messages.go", "ipc/common/messagesFactory.go", "ipc/common/serializableVMOutput.go", "ipc/marshaling/json.go", "ipc/marshaling/gob.go"],
  mech=[("framing", "ipc/common/receiver.go"), ("nonces of a dialogue", "ipc/common/messenger.go"), ("messages and their creators", "ipc/common/messagesFactory.go")],
  observe=["messages received", "errors"], technique="exhaustive enumeration of messages, splits and truncations over the real sender and receiver (stateless exploration with fault injection)",
  note="every message is sent and received by the real code through pipes")

P(id="C33", title="A VM behind pipes is the same VM",
  statement="Each function of the blockchain hook called through the gateway of the Arwen process answers what the node's hook answers, errors and their texts included, with exactly the arguments given. "
  "Deployments, calls and queries executed by a VM on the other side of the pipes, with the hook calls crossing them, have the same outcome and the same effects as when executed by a VM in the same process, with either marshalizer.",
  over=["inputs", "histories"], quant="every function of the hook x boundary values of its arguments and answers x 2 marshalizers; all trees of one or two nested calls of 14 kinds and all sequences of requests run on both sides",
  why="Tests call three functions of the hook through the pipes with mocks.",
  files=["ipc/arwenpart/blockchainGateway.go", "ipc/nodepart/blockchainRepliers.go", "ipc/nodepart/part.go", "ipc/arwenpart/part.go", "ipc/common/messagesBlockchain.go"],
  mech=[("gateway", "ipc/arwenpart/blockchainGateway.go"), ("repliers of the node", "ipc/nodepart/blockchainRepliers.go"), ("loops", "ipc/nodepart/part.go")],
  observe=["answers of the hook functions", "VMOutput", "world after the transaction"], technique="exhaustive enumeration of hook calls and bounded call trees over the real two-sided protocol, differential against the same VM without it",
  note="both sides of the protocol are executed, connected by pipes")

P(id="C34", title="The driver survives any death of the VM process",
  statement="Wherever in a conversation the Arwen process dies, stops answering or stops reading, the request under way ends with its right result or with a critical error, within the time allowed, and never with a wrong result; the following requests are answered correctly by a new process, which has the gas schedule last set. "
  "Requests made at the same time by several parts of the node do not mix: each gets its own answer.",
  over=["faults", "schedules", "histories"], quant="all crash and hang points at the edges of and inside every message of 2 histories of 6-7 requests, in both directions, with 2 marshalizers; kills between requests (all sets of up to 2); all pairs of 6 kinds of request arriving during another",
  why="Tests crash the process at no point of a conversation; the driver's tests do not run in this version at all.",
  files=["ipc/nodepart/arwenDriver.go", "ipc/nodepart/part.go", "ipc/common/messenger.go", "ipc/common/receiver.go", "ipc/arwenpart/part.go"],
  mech=[("restart", "ipc/nodepart/arwenDriver.go"), ("time limit", "ipc/nodepart/part.go"), ("critical section", "ipc/nodepart/arwenDriver.go")],
  observe=["outputs and errors of the driver", "number of processes", "time"], technique="exhaustive enumeration of crash and hang points of recorded conversations with a real child process (fault injection), and of pairs of concurrent requests at a controlled point",
  note="the real driver runs a real process; crash points are bounded to the first, fourth, eighth, middle and last byte of every message (thorough: 40 per message)")

P(id="C09", title="Faults of the blockchain hook and panics are contained",
  statement="Whatever function of the blockchain hook fails or panics, at whatever point of whatever execution, and however deep calls are nested, the VM answers: no panic leaves it, a failed execution has an empty output which takes no more gas than was provided, gas and value of a successful one add up, and the results are those the contracts could observe. "
  "Afterwards no instance of the engine is left over and the same VM executes the following transactions exactly as a new one.",
  over=["faults", "inputs", "histories"], quant="every hook call of 200+ executions x error and panic; nesting of calls beyond the limit in all kinds; up to 12 failures in a row on one VM",
  why="Tests let no hook function fail inside nested calls and look at no VM after a failure.",
  files=["arwen/host/arwen.go", "arwen/host/execution.go", "arwen/contexts/runtime.go", "arwen/contexts/blockchain.go", "arwen/contexts/storage.go", "arwen/host/asyncCall.go"],
  mech=[("recovery", "arwen/host/arwen.go"), ("instance stack", "arwen/contexts/runtime.go")],
  observe=["VMOutput", "errors", "number of engine instances", "outcome of following transactions"],
  technique="exhaustive injection of a fault at every hook call of recorded executions on the real VM (stateless exploration with fault injection)",
  note="every fault is injected into the real VM")

P(id="C11", title="Only valid code is deployed, and exactly the account's code runs",
  statement="A deployment or upgrade - by a transaction or by a contract, from given code or from the code of another contract - accepts exactly code which compiles, declares a memory, exports functions only under names which are not reserved, are ASCII and have 1 to 255 bytes, without parameters and results, and imports no token functions before they are enabled; otherwise nothing is deployed and old code stays. "
  "The account then has exactly the code, metadata and owner given, and what runs afterwards, in the same and in later transactions, is the code the account has then, whichever compiled codes are cached and whichever other accounts have the same code. Compiled code which is kept is used while the code is the same.",
  over=["inputs", "histories"], quant="a catalogue of codes (valid ones and each way to be invalid) x 6 ways to deploy x 4 settings; all sequences of up to 3 deployments, upgrades and calls with every state of the caches",
  why="Tests deploy a few files; bad code by indirect routes, cached code and upgrades in the same transaction are not sampled.",
  files=["arwen/contexts/verify.go", "arwen/contexts/runtime.go", "arwen/host/execution.go", "arwen/contexts/blockchain.go", "arwen/contexts/output.go", "arwen/contexts/reservedFunctions.go"],
  mech=[("code verification", "arwen/contexts/verify.go"), ("code hash and compiled code", "arwen/contexts/runtime.go"), ("deployment", "arwen/host/execution.go")],
  observe=["VMOutput", "code, metadata and owner of accounts", "which code answers"],
  technique="exhaustive enumeration of codes, routes and bounded histories of deployments on the real VM against a model of accounts and their codes",
  note="every history is executed on the real VM")

P(id="C21", title="Everything costs what the gas schedule says",
  statement="Every function of the interface is charged exactly its own entry of the gas schedule plus the per-byte prices for what it copies, stores, persists, releases or compiles; every call additionally loads its callee, an asynchronous call locks what the schedule says; whatever frees storage and is not undone is refunded, wherever among nested calls it happens; every WebAssembly opcode and every local beyond the free ones costs its own entry. "
  "A schedule with an entry which is missing, zero or too large is refused, and a change of the schedule is applied completely, to everything executed from then on, or not at all.",
  over=["inputs", "histories"], quant="every entry of the schedule raised in turn x 1400 programs which use every function with varied lengths and histories; every one of 448 opcode entries; every missing, zero or too large entry; all sequences of 4 (thorough 6) schedule changes of 6; refunds of writes before, in and after 50 kinds of nested executions, and of those within others (2 levels)",
  why="Tests compare the gas of a few calls under one schedule, in which most prices are equal.",
  files=["config/gasSchedule.go", "config/gasCost.go", "arwen/contexts/metering.go", "arwen/elrondapi/elrondei.go", "arwen/elrondapi/bigIntOps.go", "arwen/elrondapi/smallIntOps.go", "arwen/cryptoapi/cryptoei.go", "arwen/contexts/storage.go", "arwen/host/arwen.go", "arwen/host/execution.go"],
  mech=[("schedule", "config/gasSchedule.go"), ("metering", "arwen/contexts/metering.go"), ("storage prices", "arwen/contexts/storage.go"), ("change", "arwen/host/arwen.go")],
  observe=["gas used, locked and refunded", "reported schedule"],
  technique="exhaustive enumeration of schedule entries x programs on the real VM: each entry is raised and the growth of every bill compared with a table of prices (differential)",
  note="every program is executed on the real VM with the schedule in question")

P(id="C06", title="A nested execution gets exactly the gas it was given",
  statement="Whatever kind of call a contract makes - on the destination's or its own context, read-only, by the caller, transfer with execution, with tokens, built-in, creating, upgrading or asynchronous - the callee starts with exactly the gas it would have had if a user had called it with that limit (less the price of the transfer of tokens which goes with the call), never with more than the caller has left. "
  "What the callee does not use returns to its caller, neither more nor less; a callee which fails costs exactly its limit where the caller goes on; an asynchronous call gives the callee all that is left but the lock, and the callback gets what the callee left plus the lock.",
  over=["inputs"], quant="all kinds of calls x gas limits around what the callee needs, far above it and above what the caller has x prices of the transfer of tokens x amounts of work x ways to end, at two levels of nesting",
  why="Tests set one generous limit and look at the total, in which gas that moves between caller and callee cancels out.",
  files=["arwen/elrondapi/elrondei.go", "arwen/host/execution.go", "arwen/host/asyncCall.go", "arwen/contexts/metering.go", "arwen/contexts/output.go", "arwen/contexts/runtime.go"],
  mech=[("gas of nested executions", "arwen/contexts/metering.go"), ("nested executions", "arwen/host/execution.go"), ("transfers with execution", "arwen/contexts/output.go"), ("gas of asynchronous calls", "arwen/host/asyncCall.go")],
  observe=["gas left as contracts see it", "gas remaining"],
  technique="exhaustive enumeration of bounded call shapes x gas limits on the real VM against a balance of gas given, used and returned",
  note="every program is executed on the real VM; the reference for the callee is the same contract called directly")

P(id="C18", title="Tokens move exactly once, also between shards",
  statement="A contract which sends tokens - fungible, semi-fungible or unique, by transfer with execution or by the built-in functions, synchronously or asynchronously, once or several times in a transaction - loses what it sent exactly if the transfer succeeded, and the receiver gets exactly that once: at once if it lives in the same shard, else by exactly one outgoing transfer which can be executed in its shard and carries the metadata, the function and the arguments. Nothing moves when the transfer fails or is undone by a call around it. "
  "A called receiver sees the sender, the token, its nonce, type, the amount and the arguments; the callback of an asynchronous transfer to another shard waits for that shard, its gas being locked in the transfer.",
  over=["inputs", "histories"], quant="3 ways to send x fungible token and nonces of 1 to 8 bytes x amounts (none, one, some, all, too many) x 7 receivers (accepting, not accepting, the sender, users, new accounts, contract and user of another shard) x functions (none, succeeding, failing, missing) x arguments x once or twice x directly, in a nested call which fails, in one which succeeds",
  why="Tests look at the output of one transfer in one shard and never execute the outgoing transfers at their destination.",
  files=["arwen/host/execution.go", "arwen/host/asyncCall.go", "arwen/contexts/output.go", "arwen/elrondapi/elrondei.go"],
  mech=[("transfers with execution", "arwen/contexts/output.go"), ("built-in functions", "arwen/host/execution.go"), ("asynchronous calls", "arwen/host/asyncCall.go"), ("interface", "arwen/elrondapi/elrondei.go")],
  observe=["token balances of both shards", "outgoing transfers", "what the receiver sees", "gas"],
  technique="exhaustive enumeration of bounded transactions on the real VM in a world of two shards, with the outgoing transfers executed in the other one, against a count of the tokens",
  note="every transaction is executed on the real VM with the node's own built-in functions in both shards")

P(id="C45", title="The debugger's worlds are the histories of its requests",
  statement="A session with the debugger - accounts, deployments, upgrades, calls and queries, by one server or by the command line - behaves as the same transactions executed one after another on one world: whatever the bytes of addresses, storage keys, values and arguments, everything a request did is there at the next one, read back from the database; queries change nothing; worlds and databases do not mix. "
  "A request which is not well-formed (addresses, values, arguments, code, gas) is refused and changes nothing; the answer is that of the VM, and the outcome is kept under the name asked for.",
  over=["histories", "inputs"], quant="all sequences of 3 (thorough 4) requests of 27 kinds by two users (one with an address which is not valid text) on two worlds, with one facade and with a new one for each request, each followed by queries of everything",
  why="Tests run three sessions with addresses and keys which are plain text, and count on one database.",
  files=["arwendebug/facade.go", "arwendebug/world.go", "arwendebug/worldInput.go", "arwendebug/database.go", "arwendebug/common.go", "arwendebug/messagesBase.go", "arwendebug/messagesDeploy.go", "arwendebug/messagesRun.go", "arwendebug/messagesUpgrade.go", "arwendebug/messagesAccounts.go", "mock/world/worldAccount.go", "mock/world/worldUpdate.go"],
  mech=[("facade", "arwendebug/facade.go"), ("worlds on disk", "arwendebug/database.go"), ("worlds", "arwendebug/world.go"), ("requests", "arwendebug/messagesBase.go")],
  observe=["answers", "state as later queries see it", "kept outcomes"],
  technique="exhaustive enumeration of bounded histories of requests on the real debugger, differential against one world in memory",
  note="every history is executed by the real facade on a database on disk")

P(id="C08", title="What a transaction does depends only on the transaction and the state",
  statement="The output of a transaction and the state it leads to are a function of the transaction, the state, the epoch and the gas schedule in force: they do not depend on what the VM has executed before - successes, failures, panics, transactions of other epochs or under other schedules - nor on which compiled code is kept, and they are the same at every repetition. "
  "The VM changes neither its input (but for the gas of a callback, which is unlocked) nor the state itself, and an output which was returned is never changed by later executions.",
  over=["histories", "inputs"], quant="all pairs (thorough: all triples) of 174 transactions on one VM, with compiled code kept and dropped, with outputs discarded and with outputs applied",
  why="The nodes of a network have executed different things before (queries, failed transactions); tests create a new VM for nearly every transaction.",
  files=["arwen/host/arwen.go", "arwen/host/execution.go", "arwen/contexts/runtime.go", "arwen/contexts/output.go", "arwen/contexts/bigint.go", "arwen/contexts/metering.go", "arwen/contexts/storage.go", "arwen/contexts/blockchain.go"],
  mech=[("reset before each transaction", "arwen/host/arwen.go"), ("state of the contexts", "arwen/contexts")],
  observe=["VMOutput", "state", "input", "earlier outputs"],
  technique="exhaustive enumeration of bounded histories of transactions on one real VM (stateless exploration), differential against a new VM",
  note="every history is executed on the real VM")

P(id="C40", title="Value expressions of scenario files mean what the format says",
  statement="Every value expression of a scenario file - numbers in any notation, base and width, strings, addresses, hashes of parts, files, concatenations and nestings - is interpreted as exactly the bytes the format defines, and what has no meaning is refused with an error, never with a panic. "
  "The reconstructor (used to print values in messages) produces for the values of each kind of field an expression which means the same bytes again.",
  over=["inputs"], quant="all expressions of the grammar within bounds: all 16-bit numbers and neighbours of powers of two in all notations and widths, all short strings under all prefixes, all address lengths x shards, all pairs and triples of parts, trees of 3 levels, all strings of 4 tokens; values of every length up to 520 bytes and around 2^16 (thorough: 2^24)",
  why="Tests look at about a hundred expressions.",
  files=["mandos-go/expression/interpreter/functions.go", "mandos-go/expression/interpreter/interpreter.go", "mandos-go/expression/reconstructor/reconstructor.go"],
  mech=[("interpretation", "mandos-go/expression/interpreter"), ("reconstruction", "mandos-go/expression/reconstructor")],
  observe=["bytes of an expression", "error", "reconstructed expression"],
  technique="exhaustive enumeration of the expressions of a grammar up to a size, on the real interpreter against an independent reference",
  note="the reference is written from the documentation of the format")

P(id="C41", title="The JSON reader reads exactly JSON, in order, and what is written is read again",
  statement="The reader of scenario files accepts exactly the documents which are JSON without numbers and null, returns strings, lists and objects with the content and the order of the document, and refuses every other document with an error, never with a panic. What the writer writes for a document is read as the same document, and written again unchanged.",
  over=["inputs"], quant="all sequences of up to 6 (thorough: 7) JSON tokens; all documents of up to 3 levels with all placements of white space",
  why="Tests read a few documents, nearly all of them correct.",
  files=["mandos-go/orderedjson/ojParse.go", "mandos-go/orderedjson/ojToJson.go", "mandos-go/orderedjson/ojModel.go"],
  mech=[("reader", "mandos-go/orderedjson/ojParse.go"), ("writer", "mandos-go/orderedjson/ojToJson.go")],
  observe=["document read", "error", "text written"],
  technique="exhaustive enumeration of token sequences on the real reader against a strict recursive reader, which is itself compared with encoding/json on each",
  note="encoding/json binds the reference")

P(id="C42", title="Scenario files are read as written, and written as read",
  statement="Each field of each object of a scenario file, in each of its forms, alone and with others, in any order, is read as what it says; a field which is not known or has a value of the wrong type is refused, never ignored and never a panic. "
  "A scenario which was read and is written means the same when it is read again, and is written identically from then on.",
  over=["inputs"], quant="for every object of the format: every field with every variant, every pair of fields with every pair of variants, all fields in both orders; every field with every wrong type; unknown fields everywhere",
  why="Tests read and write one example file.",
  files=["mandos-go/json/parse/parseScenario.go", "mandos-go/json/parse/parseAccounts.go", "mandos-go/json/parse/parseAccountsCheck.go", "mandos-go/json/parse/parseESDT.go", "mandos-go/json/parse/parseESDTCheck.go", "mandos-go/json/parse/parseESDTTx.go", "mandos-go/json/parse/parseTx.go", "mandos-go/json/parse/parseTxResult.go", "mandos-go/json/parse/parseLogs.go", "mandos-go/json/parse/parseBlockInfo.go", "mandos-go/json/parse/parseNewAddresses.go", "mandos-go/json/parse/parseValue.go", "mandos-go/json/write/writeScenario.go", "mandos-go/json/write/writeAccount.go", "mandos-go/json/write/writeESDT.go", "mandos-go/json/write/writeESDTCheck.go", "mandos-go/json/write/writeCommon.go"],
  mech=[("reading", "mandos-go/json/parse"), ("writing", "mandos-go/json/write")],
  observe=["scenario read", "error", "text written"],
  technique="exhaustive enumeration of scenario files over all fields, variants and pairs on the real reader and writer against the statements each variant makes",
  note="each variant is generated with its meaning")

P(id="C43", title="A scenario passes exactly if the expectations it states hold",
  statement="A checkState step passes exactly if every condition it states on accounts, balances, storage, code, owners, asynchronous data and tokens holds in the state, including that there is nothing else where it does not say there may be; a transaction step passes exactly if status, message, results, logs, gas and refund are what it expects. Each single mismatch is reported as a failed check, never overlooked and never a panic.",
  over=["inputs"], quant="all pairs of a state and a condition for every aspect of an account (storage and tokens in all combinations of entries), all pairs of aspects, complete conditions with each single mistake, sets of accounts; all pairs of a produced and an expected result per field, pairs of fields, complete expectations with each mistake",
  why="Tests only run scenarios which pass.",
  files=["arwenmandos/stepCheckAccounts.go", "arwenmandos/stepCheckTxResult.go", "arwenmandos/stepRunTx.go", "arwenmandos/execScenario.go", "arwenmandos/util.go", "mandos-go/json/model/valueCheck.go", "mandos-go/json/model/valueInit.go"],
  mech=[("state check", "arwenmandos"), ("conditions", "mandos-go/model")],
  observe=["verdict of the scenario"],
  technique="exhaustive enumeration of pairs of a state and a condition (and of a produced and an expected result), executed by the real scenario executor, against a table of which conditions hold",
  note="every scenario is read and executed by the real executor on the real VM")

P(id="C44", title="The steps of a scenario change the world as the protocol would",
  statement="A transaction step pays its gas and counts the nonce of the sender whatever happens, and otherwise has either the complete effect of the execution on all accounts - balances, storage, tokens, code, owners - or, if it fails, none; a nested call which fails has none either. A step whose sender, receiver or tokens do not exist fails the scenario. "
  "Contracts see the block information which was set. External steps work relative to their own file and change nothing else; a directory of scenarios passes exactly if each scenario passes on its own.",
  over=["inputs", "histories"], quant="all programs of up to 5 (thorough: 6) actions over three contracts with nested and asynchronous calls which succeed or fail; all sequences of up to 3 (thorough: 4) of 39 kinds of steps; combinations of block information; all sequences of up to 3 local and external steps; directories of up to 2 (thorough: 3) of 13 kinds of scenarios",
  why="Contract developers trust scenario results; the repository's tests only contain scenarios which pass, and nearly no failing transactions.",
  files=["arwenmandos/stepRunTx.go", "arwenmandos/execScenario.go", "arwenmandos/exec.go", "arwenmandos/util.go", "mock/world/worldUpdate.go", "mock/world/worldAccountsAdapter.go", "mock/world/worldAccountMap.go", "mock/world/worldAccount.go", "mock/world/worldCallbacks.go", "mock/world/builtinFunctionsWrapper.go", "mock/world/mockESDT.go", "mandos-go/controller/scenarioDir.go", "mandos-go/controller/scenarioOne.go", "mandos-go/fileresolver/fileResolverDefault.go"],
  mech=[("transactions", "arwenmandos/stepRunTx.go"), ("state and snapshots", "mock/world"), ("files", "mandos-go/controller")],
  observe=["accounts of the world after every step", "return code", "verdict of the scenario"],
  technique="exhaustive enumeration of programs and of bounded sequences of steps, executed by the real scenario executor, against a ledger",
  note="every scenario is executed by the real executor, mock world and VM")
