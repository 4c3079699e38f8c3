// Package world is the closed blockchain environment in which the checks run the VM: accounts, storage, code,
// ESDT balances (through the protocol's own built-in functions) and a journal which provides snapshots.
package world

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	gproto "github.com/gogo/protobuf/proto"
	proto "github.com/golang/protobuf/proto" //nolint
	"golang.org/x/crypto/sha3"
)

// Account is an account of the world.
type Account struct {
	w        *World
	Addr     []byte
	Nonce    uint64
	Balance  *big.Int
	Code     []byte
	Meta     []byte
	Owner    []byte
	UserName []byte
	Shard    uint32
	Storage  map[string][]byte
	Reward   *big.Int
}

// World implements vmcommon.BlockchainHook and the interfaces needed by the built-in functions.
type World struct {
	Accounts  map[string]*Account
	Compiled  map[string][]byte
	Saves     int // of compiled code
	Epoch     uint32
	Nonce     uint64
	Round     uint64
	TimeStamp uint64
	Last      uint64 // nonce, round, timestamp and epoch of the previous block
	RandSeed  []byte
	LastSeed  []byte
	Root      []byte
	Shard     uint32

	BuiltIn vmcommon.BuiltInFunctionContainer
	// ref is the world on which the built-in functions of the container work: clones share the container
	ref     *ref
	journal []func()

	// NewAddr, when set, decides the address of new contracts.
	NewAddr func(creator []byte, nonce uint64, vmType []byte) ([]byte, error)
	// OnRead is called at every hook call which reads account data.
	OnRead func(what string, addr, key []byte)
	// OnBuiltIn is called before every built-in function.
	OnBuiltIn func(in *vmcommon.ContractCallInput)
	// BuiltInOverride replaces built-in functions; handled=false falls through to the real ones.
	BuiltInOverride func(in *vmcommon.ContractCallInput) (out *vmcommon.VMOutput, err error, handled bool)
	ExtraBuiltIns   []string
	// FailReads makes the n-th read (counted from 1) of storage fail.
	Reads, FailRead int
}

var _ vmcommon.BlockchainHook = (*World)(nil)
var _ vmcommon.UserAccountHandler = (*Account)(nil)

// ErrHook is the error injected into hook calls.
var ErrHook = errors.New("injected hook error")

type marshalizer struct{}
type protoObj interface {
	gproto.Marshaler
	gproto.Unmarshaler
	proto.Message
}

func (marshalizer) Marshal(o interface{}) ([]byte, error) { return o.(protoObj).Marshal() }
func (marshalizer) Unmarshal(o interface{}, b []byte) error {
	o.(protoObj).Reset()
	return o.(protoObj).Unmarshal(b)
}
func (marshalizer) IsInterfaceNil() bool { return false }

type epochs struct{}

func (epochs) RegisterNotifyHandler(h vmcommon.EpochSubscriberHandler) { h.EpochConfirmed(0, 0) }
func (epochs) IsInterfaceNil() bool                                    { return false }

// New makes an empty world.
func New() *World {
	return &World{Accounts: map[string]*Account{}, Compiled: map[string][]byte{}, Nonce: 10, Round: 11, TimeStamp: 1200, Last: 9,
		RandSeed: bytes.Repeat([]byte{7}, 48), LastSeed: bytes.Repeat([]byte{6}, 48), Root: bytes.Repeat([]byte{5}, 32)}
}

// EnableBuiltIns sets up the protocol's built-in functions with the given gas map.
func (w *World) EnableBuiltIns(gas map[string]map[string]uint64) error {
	r := &ref{w}
	w.ref = r
	f, err := builtInFunctions.NewBuiltInFunctionsFactory(builtInFunctions.ArgsCreateBuiltInFunctionContainer{
		GasMap: gas, MapDNSAddresses: map[string]struct{}{}, Marshalizer: marshalizer{}, Accounts: (*accountsDB)(r),
		ShardCoordinator: (*coordinator)(r), EpochNotifier: epochs{},
	})
	if err != nil {
		return err
	}
	w.BuiltIn, err = f.CreateBuiltInFunctionContainer()
	if err != nil {
		return err
	}
	return builtInFunctions.SetPayableHandler(w.BuiltIn, (*payable)(r))
}

// Add creates an account.
func (w *World) Add(addr []byte, balance int64) *Account {
	a := &Account{w: w, Addr: append([]byte{}, addr...), Balance: big.NewInt(balance), Storage: map[string][]byte{}, Reward: big.NewInt(0), Shard: w.Shard}
	w.Accounts[string(addr)] = a
	return a
}

// AddContract creates a contract account.
func (w *World) AddContract(addr []byte, balance int64, code []byte, owner []byte) *Account {
	a := w.Add(addr, balance)
	a.Code = code
	a.Owner = owner
	a.Meta = []byte{5, 6}
	return a
}

// Clone copies the world (hooks included, journal excluded).
func (w *World) Clone() *World {
	c := *w
	c.journal = nil
	c.Accounts = map[string]*Account{}
	for k, a := range w.Accounts {
		b := *a
		b.w = &c
		b.Balance = new(big.Int).Set(a.Balance)
		b.Reward = new(big.Int).Set(a.Reward)
		b.Storage = make(map[string][]byte, len(a.Storage))
		for s, v := range a.Storage {
			b.Storage[s] = v
		}
		c.Accounts[k] = &b
	}
	c.Compiled = map[string][]byte{}
	for k, v := range w.Compiled {
		c.Compiled[k] = v
	}
	return &c
}

// Canon renders the world deterministically.
func (w *World) Canon() string {
	var sb strings.Builder
	keys := make([]string, 0, len(w.Accounts))
	for k := range w.Accounts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a := w.Accounts[k]
		fmt.Fprintf(&sb, "%x n=%d b=%v code=%x meta=%x owner=%x {", k, a.Nonce, a.Balance, sha3.Sum224(a.Code), a.Meta, a.Owner)
		ks := make([]string, 0, len(a.Storage))
		for s := range a.Storage {
			if len(a.Storage[s]) > 0 {
				ks = append(ks, s)
			}
		}
		sort.Strings(ks)
		for _, s := range ks {
			fmt.Fprintf(&sb, "%x=%x,", s, a.Storage[s])
		}
		sb.WriteString("}\n")
	}
	return sb.String()
}

// TotalBalance sums all balances.
func (w *World) TotalBalance() *big.Int {
	t := big.NewInt(0)
	for _, a := range w.Accounts {
		t.Add(t, a.Balance)
	}
	return t
}

// Apply updates the world with the result of a successful transaction, as the protocol does.
func (w *World) Apply(out *vmcommon.VMOutput) error {
	keys := make([]string, 0, len(out.OutputAccounts))
	for k := range out.OutputAccounts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		o := out.OutputAccounts[k]
		if !bytes.Equal([]byte(k), o.Address) {
			return fmt.Errorf("output account of %x is filed under %x", o.Address, k)
		}
		a := w.Accounts[k]
		if a == nil {
			a = w.Add(o.Address, 0)
		}
		if o.BalanceDelta != nil {
			a.Balance.Add(a.Balance, o.BalanceDelta)
			if a.Balance.Sign() < 0 {
				return fmt.Errorf("balance of %x becomes negative: %v", k, a.Balance)
			}
		}
		if o.Nonce > a.Nonce {
			a.Nonce = o.Nonce
		}
		if len(o.Code) > 0 {
			a.Code = o.Code
			a.Meta = o.CodeMetadata
			if len(o.CodeDeployerAddress) > 0 && len(a.Owner) == 0 {
				a.Owner = o.CodeDeployerAddress
			}
		}
		for s, u := range o.StorageUpdates {
			if s != string(u.Offset) {
				return fmt.Errorf("storage update of key %x is filed under %x", u.Offset, s)
			}
			if strings.HasPrefix(s, "ELROND") {
				continue // the protocol does not accept updates of reserved keys
			}
			a.Storage[s] = u.Data
		}
	}
	for _, d := range out.DeletedAccounts {
		delete(w.Accounts, string(d))
	}
	return nil
}

func (w *World) read(what string, addr, key []byte) {
	if w.OnRead != nil {
		w.OnRead(what, addr, key)
	}
}

// ---- vmcommon.BlockchainHook

// NewAddress derives an address from the creator and its nonce.
func (w *World) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	if w.NewAddr != nil {
		return w.NewAddr(creator, nonce, vmType)
	}
	return NewAddr(creator, nonce), nil
}

// NewAddr is the default address of the contract which creator deploys at nonce.
func NewAddr(creator []byte, nonce uint64) []byte {
	h := sha3.Sum256(append(append([]byte{}, creator...), byte(nonce), byte(nonce>>8)))
	a := make([]byte, 32)
	copy(a[10:], h[:22])
	copy(a[8:], []byte{5, 0})
	a[30], a[31] = creator[30], creator[31]
	return a
}

// GetStorageData reads a storage entry.
func (w *World) GetStorageData(addr []byte, key []byte) ([]byte, error) {
	w.read("storage", addr, key)
	w.Reads++
	if w.Reads == w.FailRead {
		return nil, ErrHook
	}
	a := w.Accounts[string(addr)]
	if a == nil {
		return []byte{}, nil
	}
	return append([]byte{}, a.Storage[string(key)]...), nil
}

// GetBlockhash returns a hash derived from the nonce.
func (w *World) GetBlockhash(nonce uint64) ([]byte, error) {
	if nonce > w.Nonce {
		return nil, errors.New("block in the future")
	}
	h := sha3.Sum256([]byte(fmt.Sprintf("block %d", nonce)))
	return h[:], nil
}

// LastNonce and the other functions below answer from the fields of the world.
func (w *World) LastNonce() uint64         { return w.Last }
func (w *World) LastRound() uint64         { return w.Last + 1 }
func (w *World) LastTimeStamp() uint64     { return w.Last*100 + 50 }
func (w *World) LastRandomSeed() []byte    { return w.LastSeed }
func (w *World) LastEpoch() uint32         { return uint32(w.Last) }
func (w *World) GetStateRootHash() []byte  { return w.Root }
func (w *World) CurrentNonce() uint64      { return w.Nonce }
func (w *World) CurrentRound() uint64      { return w.Round }
func (w *World) CurrentTimeStamp() uint64  { return w.TimeStamp }
func (w *World) CurrentRandomSeed() []byte { return w.RandSeed }
func (w *World) CurrentEpoch() uint32      { return w.Epoch }

// ProcessBuiltInFunction runs a built-in function of the protocol.
func (w *World) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if w.OnBuiltIn != nil {
		w.OnBuiltIn(in)
	}
	if w.BuiltInOverride != nil {
		if out, err, ok := w.BuiltInOverride(in); ok {
			return out, err
		}
	}
	if w.ref != nil {
		w.ref.World = w
	}
	if w.BuiltIn == nil {
		return nil, errors.New("no built-in functions")
	}
	f, err := w.BuiltIn.Get(in.Function)
	if err != nil {
		return nil, err
	}
	return f.ProcessBuiltinFunction(w.sharded(in.CallerAddr), w.sharded(in.RecipientAddr), in)
}

func (w *World) sharded(addr []byte) vmcommon.UserAccountHandler {
	if w.GetShardOfAddress(addr) != w.Shard {
		return nil
	}
	a := w.Accounts[string(addr)]
	if a == nil {
		a = w.Add(addr, 0)
		w.journal = append(w.journal, func() { delete(w.Accounts, string(addr)) })
	}
	return a
}

// GetBuiltinFunctionNames lists the built-in functions.
func (w *World) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	names := vmcommon.FunctionNames{}
	if w.BuiltIn != nil {
		for n := range w.BuiltIn.Keys() {
			names[n] = struct{}{}
		}
	}
	for _, n := range w.ExtraBuiltIns {
		names[n] = struct{}{}
	}
	return names
}

// GetAllState returns the storage of an account.
func (w *World) GetAllState(addr []byte) (map[string][]byte, error) {
	w.read("allstate", addr, nil)
	a := w.Accounts[string(addr)]
	if a == nil {
		return nil, errors.New("no account")
	}
	m := map[string][]byte{}
	for k, v := range a.Storage {
		m[k] = v
	}
	return m, nil
}

// GetUserAccount returns an account.
func (w *World) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	w.read("account", addr, nil)
	a := w.Accounts[string(addr)]
	if a == nil {
		return nil, errors.New("account not found")
	}
	return a, nil
}

// GetCode returns the code of an account.
func (w *World) GetCode(acc vmcommon.UserAccountHandler) []byte {
	a := w.Accounts[string(acc.AddressBytes())]
	if a == nil {
		return nil
	}
	return a.Code
}

// GetShardOfAddress returns the shard of an account: the account's own setting, else by the last byte of the address (0xEE is shard 1).
func (w *World) GetShardOfAddress(addr []byte) uint32 {
	if a := w.Accounts[string(addr)]; a != nil {
		return a.Shard
	}
	if len(addr) > 0 && addr[len(addr)-1] == 0xEE {
		return 1
	}
	return 0
}

// IsSmartContract tells contracts by their address.
func (w *World) IsSmartContract(addr []byte) bool { return vmcommon.IsSmartContractAddress(addr) }

// IsPayable looks at the metadata of the account.
func (w *World) IsPayable(addr []byte) (bool, error) {
	a := w.Accounts[string(addr)]
	if a == nil || !vmcommon.IsSmartContractAddress(addr) {
		return true, nil
	}
	m := vmcommon.CodeMetadataFromBytes(a.Meta)
	return m.Payable, nil
}

// SaveCompiledCode keeps compiled code.
func (w *World) SaveCompiledCode(hash []byte, code []byte) {
	w.Saves++
	w.Compiled[string(hash)] = code
}

// GetCompiledCode returns compiled code.
func (w *World) GetCompiledCode(hash []byte) (bool, []byte) {
	c, ok := w.Compiled[string(hash)]
	return ok, c
}

// ClearCompiledCodes drops compiled code.
func (w *World) ClearCompiledCodes() { w.Compiled = map[string][]byte{} }

// GetESDTToken loads token data.
func (w *World) GetESDTToken(addr []byte, tokenID []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	w.read("esdt", addr, tokenID)
	t := &esdt.ESDigitalToken{Value: big.NewInt(0)}
	a := w.Accounts[string(addr)]
	if a == nil {
		return t, nil
	}
	b := a.Storage[string(ESDTKey(tokenID, nonce))]
	if len(b) == 0 {
		return t, nil
	}
	err := (marshalizer{}).Unmarshal(t, b)
	return t, err
}

// GetSnapshot returns the length of the journal.
func (w *World) GetSnapshot() int { return len(w.journal) }

// RevertToSnapshot undoes the journal down to the given length.
func (w *World) RevertToSnapshot(n int) error {
	if n < 0 || n > len(w.journal) {
		return fmt.Errorf("bad snapshot %d of %d", n, len(w.journal))
	}
	for i := len(w.journal) - 1; i >= n; i-- {
		w.journal[i]()
	}
	w.journal = w.journal[:n]
	return nil
}

// Commit forgets the journal.
func (w *World) Commit() { w.journal = nil }

// IsInterfaceNil -
func (w *World) IsInterfaceNil() bool { return w == nil }

// ---- ESDT

// ESDTKey is the storage key of a token.
func ESDTKey(token []byte, nonce uint64) []byte {
	k := append([]byte("ELRONDesdt"), token...)
	if nonce > 0 {
		k = append(k, new(big.Int).SetUint64(nonce).Bytes()...)
	}
	return k
}

// SetESDT sets a fungible balance.
func (a *Account) SetESDT(token string, v int64) { a.SetBigESDT(token, big.NewInt(v)) }

// SetBigESDT sets a fungible balance.
func (a *Account) SetBigESDT(token string, v *big.Int) {
	b, err := (marshalizer{}).Marshal(&esdt.ESDigitalToken{Value: v, Type: uint32(vmcommon.Fungible)})
	if err != nil {
		panic(err)
	}
	a.Storage[string(ESDTKey([]byte(token), 0))] = b
}

// SetNFT sets a non-fungible balance.
func (a *Account) SetNFT(token string, nonce uint64, v int64, md *esdt.MetaData) {
	b, err := (marshalizer{}).Marshal(&esdt.ESDigitalToken{Value: big.NewInt(v), Type: uint32(vmcommon.NonFungible), TokenMetaData: md})
	if err != nil {
		panic(err)
	}
	a.Storage[string(ESDTKey([]byte(token), nonce))] = b
}

// SetRoles gives roles to the account.
func (a *Account) SetRoles(token string, roles ...string) {
	r := &esdt.ESDTRoles{}
	for _, x := range roles {
		r.Roles = append(r.Roles, []byte(x))
	}
	b, err := (marshalizer{}).Marshal(r)
	if err != nil {
		panic(err)
	}
	a.Storage["ELRONDroleesdt"+token] = b
}

// ESDT reads a token balance.
func (w *World) ESDT(addr []byte, token string, nonce uint64) *big.Int {
	t, err := w.GetESDTToken(addr, []byte(token), nonce)
	if err != nil || t.Value == nil {
		return big.NewInt(0)
	}
	return t.Value
}

// ---- accounts

func (a *Account) AddressBytes() []byte     { return a.Addr }
func (a *Account) GetNonce() uint64         { return a.Nonce }
func (a *Account) GetCodeMetadata() []byte  { return a.Meta }
func (a *Account) GetRootHash() []byte      { return nil }
func (a *Account) GetBalance() *big.Int     { return a.Balance }
func (a *Account) GetOwnerAddress() []byte  { return a.Owner }
func (a *Account) GetUserName() []byte      { return a.UserName }
func (a *Account) IsInterfaceNil() bool     { return a == nil }
func (a *Account) IncreaseNonce(n uint64)   { a.Nonce += n }
func (a *Account) SetOwnerAddress(b []byte) { a.Owner = b }
func (a *Account) SetUserName(b []byte)     { a.UserName = b }
func (a *Account) GetCodeHash() []byte {
	if len(a.Code) == 0 {
		return nil
	}
	h := sha3.Sum256(a.Code)
	return h[:]
}
func (a *Account) AccountDataHandler() vmcommon.AccountDataHandler { return a }
func (a *Account) AddToBalance(v *big.Int) error {
	n := new(big.Int).Add(a.Balance, v)
	if n.Sign() < 0 {
		return errors.New("insufficient funds")
	}
	old := a.Balance
	a.w.journal = append(a.w.journal, func() { a.Balance = old })
	a.Balance = n
	return nil
}
func (a *Account) ClaimDeveloperRewards(s []byte) (*big.Int, error) {
	if !bytes.Equal(s, a.Owner) {
		return nil, errors.New("operation not permitted")
	}
	old := a.Reward
	a.w.journal = append(a.w.journal, func() { a.Reward = old })
	a.Reward = big.NewInt(0)
	return new(big.Int).Set(old), nil
}
func (a *Account) GetDeveloperReward() *big.Int { return a.Reward }
func (a *Account) ChangeOwnerAddress(s, n []byte) error {
	if !bytes.Equal(s, a.Owner) {
		return errors.New("operation not permitted")
	}
	old := a.Owner
	a.w.journal = append(a.w.journal, func() { a.Owner = old })
	a.Owner = n
	return nil
}
func (a *Account) RetrieveValue(key []byte) ([]byte, error) {
	return append([]byte{}, a.Storage[string(key)]...), nil
}
func (a *Account) SaveKeyValue(key []byte, v []byte) error {
	k := string(key)
	old, had := a.Storage[k]
	a.w.journal = append(a.w.journal, func() {
		if had {
			a.Storage[k] = old
		} else {
			delete(a.Storage, k)
		}
	})
	a.Storage[k] = append([]byte{}, v...)
	return nil
}

// ---- adapters for the built-in functions

type ref struct{ *World }

type payable ref

func (p *payable) IsPayable(addr []byte) (bool, error) { return p.World.IsPayable(addr) }
func (p *payable) IsInterfaceNil() bool                { return p == nil }

type accountsDB ref

func (d *accountsDB) GetExistingAccount(addr []byte) (vmcommon.AccountHandler, error) {
	a := d.Accounts[string(addr)]
	if a == nil {
		return nil, errors.New("account not found")
	}
	return a, nil
}
func (d *accountsDB) LoadAccount(addr []byte) (vmcommon.AccountHandler, error) {
	a := d.World.sharded(addr)
	if a == nil {
		w := d.World
		if bytes.Equal(addr, vmcommon.SystemAccountAddress) {
			return &Account{Addr: addr, Balance: new(big.Int), Reward: new(big.Int), Storage: map[string][]byte{}, w: w}, nil
		}
		x := w.Add(addr, 0)
		k := string(addr)
		w.journal = append(w.journal, func() { delete(w.Accounts, k) })
		return x, nil
	}
	return a, nil
}
func (d *accountsDB) SaveAccount(vmcommon.AccountHandler) error { return nil }
func (d *accountsDB) RemoveAccount(addr []byte) error {
	delete(d.Accounts, string(addr))
	return nil
}
func (d *accountsDB) Commit() ([]byte, error)      { return nil, nil }
func (d *accountsDB) JournalLen() int              { return len(d.journal) }
func (d *accountsDB) RevertToSnapshot(n int) error { return d.World.RevertToSnapshot(n) }
func (d *accountsDB) GetNumCheckpoints() uint32    { return 0 }
func (d *accountsDB) GetCode(h []byte) []byte      { return nil }
func (d *accountsDB) RootHash() ([]byte, error)    { return nil, nil }
func (d *accountsDB) RecreateTrie(_ []byte) error  { return nil }
func (d *accountsDB) IsInterfaceNil() bool         { return d == nil }

type coordinator ref

func (c *coordinator) NumberOfShards() uint32                { return 2 }
func (c *coordinator) ComputeId(a []byte) uint32             { return c.World.GetShardOfAddress(a) }
func (c *coordinator) SelfId() uint32                        { return c.Shard }
func (c *coordinator) SameShard(a, b []byte) bool            { return c.ComputeId(a) == c.ComputeId(b) }
func (c *coordinator) CommunicationIdentifier(uint32) string { return "" }
func (c *coordinator) IsInterfaceNil() bool                  { return c == nil }

// Swap is a hook whose world can be exchanged, so that one VM host serves many worlds one after another.
type Swap struct{ *World }
