package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"
	"unsafe"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"

	"vmc/core"
)

func init() {
	core.Register(&core.Check{ID: "C30", Level: "model_checking", Rule: "Messages of every kind with every field at every value of a lattice are sent through real pipes with both marshalizers; every prefix of messages, every split of them into two deliveries, all sequences of up to 3 messages and unknown kinds are tried; " +
		"and all interleavings of up to 7 operations (send, receive, reset at both ends) are compared with a model of the dialogue nonces.",
		Assumptions: []string{"fields are varied one at a time from an empty and from a full message"}, Run: runC30})
}

type msgKind struct {
	kind common.MessageKind
	mk   func() common.MessageHandler
}

var msgKinds = []msgKind{
	{common.BlockchainNewAddressRequest, func() common.MessageHandler { return &common.MessageBlockchainNewAddressRequest{} }},
	{common.BlockchainNewAddressResponse, func() common.MessageHandler { return &common.MessageBlockchainNewAddressResponse{} }},
	{common.BlockchainGetStorageDataRequest, func() common.MessageHandler { return &common.MessageBlockchainGetStorageDataRequest{} }},
	{common.BlockchainGetStorageDataResponse, func() common.MessageHandler { return &common.MessageBlockchainGetStorageDataResponse{} }},
	{common.BlockchainGetBlockhashRequest, func() common.MessageHandler { return &common.MessageBlockchainGetBlockhashRequest{} }},
	{common.BlockchainGetBlockhashResponse, func() common.MessageHandler { return &common.MessageBlockchainGetBlockhashResponse{} }},
	{common.BlockchainLastNonceRequest, func() common.MessageHandler { return &common.MessageBlockchainLastNonceRequest{} }},
	{common.BlockchainLastNonceResponse, func() common.MessageHandler { return &common.MessageBlockchainLastNonceResponse{} }},
	{common.BlockchainLastRoundRequest, func() common.MessageHandler { return &common.MessageBlockchainLastRoundRequest{} }},
	{common.BlockchainLastRoundResponse, func() common.MessageHandler { return &common.MessageBlockchainLastRoundResponse{} }},
	{common.BlockchainLastTimeStampRequest, func() common.MessageHandler { return &common.MessageBlockchainLastTimeStampRequest{} }},
	{common.BlockchainLastTimeStampResponse, func() common.MessageHandler { return &common.MessageBlockchainLastTimeStampResponse{} }},
	{common.BlockchainLastRandomSeedRequest, func() common.MessageHandler { return &common.MessageBlockchainLastRandomSeedRequest{} }},
	{common.BlockchainLastRandomSeedResponse, func() common.MessageHandler { return &common.MessageBlockchainLastRandomSeedResponse{} }},
	{common.BlockchainLastEpochRequest, func() common.MessageHandler { return &common.MessageBlockchainLastEpochRequest{} }},
	{common.BlockchainLastEpochResponse, func() common.MessageHandler { return &common.MessageBlockchainLastEpochResponse{} }},
	{common.BlockchainGetStateRootHashRequest, func() common.MessageHandler { return &common.MessageBlockchainGetStateRootHashRequest{} }},
	{common.BlockchainGetStateRootHashResponse, func() common.MessageHandler { return &common.MessageBlockchainGetStateRootHashResponse{} }},
	{common.BlockchainCurrentNonceRequest, func() common.MessageHandler { return &common.MessageBlockchainCurrentNonceRequest{} }},
	{common.BlockchainCurrentNonceResponse, func() common.MessageHandler { return &common.MessageBlockchainCurrentNonceResponse{} }},
	{common.BlockchainCurrentRoundRequest, func() common.MessageHandler { return &common.MessageBlockchainCurrentRoundRequest{} }},
	{common.BlockchainCurrentRoundResponse, func() common.MessageHandler { return &common.MessageBlockchainCurrentRoundResponse{} }},
	{common.BlockchainCurrentTimeStampRequest, func() common.MessageHandler { return &common.MessageBlockchainCurrentTimeStampRequest{} }},
	{common.BlockchainCurrentTimeStampResponse, func() common.MessageHandler { return &common.MessageBlockchainCurrentTimeStampResponse{} }},
	{common.BlockchainCurrentRandomSeedRequest, func() common.MessageHandler { return &common.MessageBlockchainCurrentRandomSeedRequest{} }},
	{common.BlockchainCurrentRandomSeedResponse, func() common.MessageHandler { return &common.MessageBlockchainCurrentRandomSeedResponse{} }},
	{common.BlockchainCurrentEpochRequest, func() common.MessageHandler { return &common.MessageBlockchainCurrentEpochRequest{} }},
	{common.BlockchainCurrentEpochResponse, func() common.MessageHandler { return &common.MessageBlockchainCurrentEpochResponse{} }},
	{common.BlockchainProcessBuiltInFunctionRequest, func() common.MessageHandler { return &common.MessageBlockchainProcessBuiltInFunctionRequest{} }},
	{common.BlockchainProcessBuiltInFunctionResponse, func() common.MessageHandler { return &common.MessageBlockchainProcessBuiltInFunctionResponse{} }},
	{common.BlockchainGetBuiltinFunctionNamesRequest, func() common.MessageHandler { return &common.MessageBlockchainGetBuiltinFunctionNamesRequest{} }},
	{common.BlockchainGetBuiltinFunctionNamesResponse, func() common.MessageHandler { return &common.MessageBlockchainGetBuiltinFunctionNamesResponse{} }},
	{common.BlockchainGetAllStateRequest, func() common.MessageHandler { return &common.MessageBlockchainGetAllStateRequest{} }},
	{common.BlockchainGetAllStateResponse, func() common.MessageHandler { return &common.MessageBlockchainGetAllStateResponse{} }},
	{common.BlockchainGetUserAccountRequest, func() common.MessageHandler { return &common.MessageBlockchainGetUserAccountRequest{} }},
	{common.BlockchainGetUserAccountResponse, func() common.MessageHandler { return &common.MessageBlockchainGetUserAccountResponse{} }},
	{common.BlockchainGetCodeRequest, func() common.MessageHandler { return &common.MessageBlockchainGetCodeRequest{} }},
	{common.BlockchainGetCodeResponse, func() common.MessageHandler { return &common.MessageBlockchainGetCodeResponse{} }},
	{common.BlockchainGetShardOfAddressRequest, func() common.MessageHandler { return &common.MessageBlockchainGetShardOfAddressRequest{} }},
	{common.BlockchainGetShardOfAddressResponse, func() common.MessageHandler { return &common.MessageBlockchainGetShardOfAddressResponse{} }},
	{common.BlockchainIsSmartContractRequest, func() common.MessageHandler { return &common.MessageBlockchainIsSmartContractRequest{} }},
	{common.BlockchainIsSmartContractResponse, func() common.MessageHandler { return &common.MessageBlockchainIsSmartContractResponse{} }},
	{common.BlockchainIsPayableRequest, func() common.MessageHandler { return &common.MessageBlockchainIsPayableRequest{} }},
	{common.BlockchainIsPayableResponse, func() common.MessageHandler { return &common.MessageBlockchainIsPayableResponse{} }},
	{common.BlockchainSaveCompiledCodeRequest, func() common.MessageHandler { return &common.MessageBlockchainSaveCompiledCodeRequest{} }},
	{common.BlockchainSaveCompiledCodeResponse, func() common.MessageHandler { return &common.MessageBlockchainSaveCompiledCodeResponse{} }},
	{common.BlockchainGetCompiledCodeRequest, func() common.MessageHandler { return &common.MessageBlockchainGetCompiledCodeRequest{} }},
	{common.BlockchainGetCompiledCodeResponse, func() common.MessageHandler { return &common.MessageBlockchainGetCompiledCodeResponse{} }},
	{common.BlockchainClearCompiledCodesRequest, func() common.MessageHandler { return &common.MessageBlockchainClearCompiledCodesRequest{} }},
	{common.BlockchainClearCompiledCodesResponse, func() common.MessageHandler { return &common.MessageBlockchainClearCompiledCodesResponse{} }},
	{common.BlockchainGetESDTTokenRequest, func() common.MessageHandler { return &common.MessageBlockchainGetESDTTokenRequest{} }},
	{common.BlockchainGetESDTTokenResponse, func() common.MessageHandler { return &common.MessageBlockchainGetESDTTokenResponse{} }},
	{common.BlockchainIsInterfaceNilRequest, func() common.MessageHandler { return &common.MessageBlockchainIsInterfaceNilRequest{} }},
	{common.BlockchainIsInterfaceNilResponse, func() common.MessageHandler { return &common.MessageBlockchainIsInterfaceNilResponse{} }},
	{common.BlockchainGetSnapshotRequest, func() common.MessageHandler { return &common.MessageBlockchainGetSnapshotRequest{} }},
	{common.BlockchainGetSnapshotResponse, func() common.MessageHandler { return &common.MessageBlockchainGetSnapshotResponse{} }},
	{common.BlockchainRevertToSnapshotRequest, func() common.MessageHandler { return &common.MessageBlockchainRevertToSnapshotRequest{} }},
	{common.BlockchainRevertToSnapshotResponse, func() common.MessageHandler { return &common.MessageBlockchainRevertToSnapshotResponse{} }},
	{common.Initialize, func() common.MessageHandler { return &common.MessageInitialize{} }},
	{common.Stop, func() common.MessageHandler { return &common.MessageStop{} }},
	{common.ContractDeployRequest, func() common.MessageHandler { return &common.MessageContractDeployRequest{} }},
	{common.ContractCallRequest, func() common.MessageHandler { return &common.MessageContractCallRequest{} }},
	{common.ContractResponse, func() common.MessageHandler { return &common.MessageContractResponse{} }},
	{common.DiagnoseWaitRequest, func() common.MessageHandler { return &common.MessageDiagnoseWaitRequest{} }},
	{common.DiagnoseWaitResponse, func() common.MessageHandler { return &common.MessageDiagnoseWaitResponse{} }},
	{common.VersionRequest, func() common.MessageHandler { return &common.MessageVersionRequest{} }},
	{common.VersionResponse, func() common.MessageHandler { return &common.MessageVersionResponse{} }},
	{common.GasScheduleChangeRequest, func() common.MessageHandler { return &common.MessageGasScheduleChangeRequest{} }},
	{common.GasScheduleChangeResponse, func() common.MessageHandler { return &common.Message{} }},
}

var marshalizers = []marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}
var marshalizerNames = []string{"JSON", "gob"}

// ---- values of every type

var (
	bigType  = reflect.TypeOf((*big.Int)(nil))
	msgType  = reflect.TypeOf(common.Message{})
	kindType = reflect.TypeOf(common.FirstKind)
)

// latticeOf is the values tried for a type; the last one is a full one.
func latticeOf(t reflect.Type) []reflect.Value { return latticeAt(t, 0) }

// latticeAt is the values at a depth; deeper ones are fewer.
func latticeAt(t reflect.Type, depth int) []reflect.Value {
	var out []reflect.Value
	add := func(vs ...interface{}) {
		for _, v := range vs {
			out = append(out, reflect.ValueOf(v).Convert(t))
		}
	}
	if t == bigType {
		b := func(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }
		add((*big.Int)(nil), b("0"), b("1"), b("-1"), b("18446744073709551616"), new(big.Int).Neg(new(big.Int).Lsh(b("1"), 300)), b("1000000000000000000000"))
		return out
	}
	switch t.Kind() {
	case reflect.Bool:
		add(false, true)
	case reflect.String:
		add("", "%s %d %!", "\"\\<>&\u2028\x00", "\xff\xfe%", "text äö €")
	case reflect.Int:
		add(0, -1, math.MaxInt64, math.MinInt64, 7)
	case reflect.Uint32:
		add(uint32(0), uint32(1), uint32(math.MaxUint32), uint32(258))
	case reflect.Uint64:
		add(uint64(0), uint64(1)<<53+1, uint64(math.MaxUint64), uint64(1)<<32+3)
	case reflect.Uint8:
		add(uint8(0), uint8(255))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			all := make([]byte, 256)
			for i := range all {
				all[i] = byte(255 - i)
			}
			add([]byte(nil), []byte{}, []byte{0}, all)
			if depth < 3 {
				add(bytes.Repeat([]byte("large"), 30000))
			}
			add([]byte("bytes"))
			return out
		}
		out = append(out, reflect.Zero(t), reflect.MakeSlice(t, 0, 0))
		es := latticeAt(t.Elem(), depth+1)
		full := reflect.MakeSlice(t, 0, 0)
		for _, e := range es {
			if e.Kind() == reflect.Ptr && e.IsNil() {
				continue // lists of messages have no holes
			}
			one := reflect.Append(reflect.MakeSlice(t, 0, 1), e)
			out = append(out, one)
			if full.Len() < 3 {
				full = reflect.Append(full, e)
			}
		}
		out = append(out, reflect.Append(full, es[len(es)-1]))
	case reflect.Map:
		out = append(out, reflect.Zero(t), reflect.MakeMap(t))
		full := reflect.MakeMap(t)
		for i, e := range latticeAt(t.Elem(), depth+1) {
			if e.Kind() == reflect.Ptr && e.IsNil() {
				continue
			}
			m := reflect.MakeMap(t)
			m.SetMapIndex(reflect.ValueOf(fmt.Sprintf("key \"%d", i)), e)
			full.SetMapIndex(reflect.ValueOf(fmt.Sprintf("key%d", i)), e)
			out = append(out, m)
		}
		out = append(out, full)
	case reflect.Ptr:
		out = append(out, reflect.Zero(t))
		for _, e := range latticeAt(t.Elem(), depth+1) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			out = append(out, p)
		}
	case reflect.Struct:
		full := reflect.New(t).Elem()
		fields := [][]reflect.Value{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Type == kindType || f.PkgPath != "" || f.Type.Kind() == reflect.Interface {
				fields = append(fields, nil)
				continue
			}
			l := latticeAt(f.Type, depth+1)
			fields = append(fields, l)
			full.Field(i).Set(l[len(l)-1])
		}
		if t == msgType {
			full.FieldByName("ErrorMessage").SetString("")
		}
		bases := []reflect.Value{reflect.Zero(t), full}
		if depth > 2 {
			bases = bases[1:]
		}
		for _, base := range bases {
			for i, l := range fields {
				for _, v := range l {
					x := reflect.New(t).Elem()
					x.Set(base)
					x.Field(i).Set(v)
					out = append(out, x)
				}
			}
		}
		out = append(out, reflect.Zero(t), full)
	case reflect.Interface:
		out = append(out, reflect.Zero(t))
	default:
		panic("no lattice for " + t.String())
	}
	return out
}

// render shows a value; empty and missing lists are the same.
func render(sb *strings.Builder, v reflect.Value) {
	if v.Type() == bigType {
		if v.IsNil() {
			sb.WriteString("nil")
		} else {
			sb.WriteString(v.Interface().(*big.Int).String())
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		render(sb, v.Elem())
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			fmt.Fprintf(sb, "%s:", v.Type().Field(i).Name)
			render(sb, v.Field(i))
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			if len(b) > 300 {
				fmt.Fprintf(sb, "%d bytes %x", len(b), hash8(b))
			} else {
				fmt.Fprintf(sb, "%x", b)
			}
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			render(sb, v.Index(i))
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		keys := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			keys[k.String()] = v.MapIndex(k)
		}
		sb.WriteString("map[")
		for _, k := range sortedKeys(keys) {
			fmt.Fprintf(sb, "%q:", k)
			render(sb, keys[k])
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Interface:
		fmt.Fprintf(sb, "%v", v.Interface())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	default:
		fmt.Fprintf(sb, "%v", v.Interface())
	}
}

func rendered(m interface{}) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%T ", m)
	render(&sb, reflect.ValueOf(m))
	return sb.String()
}

// notText says whether a value holds a string which is not UTF-8.
func notText(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && notText(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" && notText(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len() && v.Type().Elem().Kind() != reflect.Uint8; i++ {
			if notText(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if notText(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.String:
		return !utf8.ValidString(v.String())
	}
	return false
}

// duplex is two messengers which talk to each other.
type duplex struct {
	a, b  *common.Messenger
	files []*os.File
}

func pipe() (*os.File, *os.File) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	return r, w
}

func newDuplex(k marshaling.MarshalizerKind) *duplex {
	ar, bw := pipe()
	br, aw := pipe()
	m := marshaling.CreateMarshalizer(k)
	return &duplex{a: common.NewMessengerPipes("A", ar, aw, m), b: common.NewMessengerPipes("B", br, bw, m), files: []*os.File{ar, bw, br, aw}}
}

func (d *duplex) close() {
	for _, f := range d.files {
		_ = f.Close()
	}
}

// messages is all messages of a kind.
func (k msgKind) messages() []common.MessageHandler {
	var out []common.MessageHandler
	t := reflect.TypeOf(k.mk()).Elem()
	for _, v := range latticeOf(t) {
		p := reflect.New(t)
		p.Elem().Set(v)
		m := p.Interface().(common.MessageHandler)
		m.SetKind(k.kind)
		out = append(out, m)
	}
	return out
}

func (k msgKind) full() common.MessageHandler {
	l := k.messages()
	return l[len(l)-1]
}

// drained waits until nothing is left in the pipe.
func drained(r *os.File) {
	c, err := r.SyscallConn()
	if err != nil {
		panic(err)
	}
	for {
		n := int32(0)
		_ = c.Control(func(fd uintptr) {
			_, _, _ = syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n)))
		})
		if n == 0 {
			return
		}
	}
}

func runC30(c *core.Ctx) {
	for ki, k := range msgKinds {
		for mi, mk := range marshalizers {
			k, mk, ki, mi := k, mk, ki, mi
			c.Case(func() string {
				return fmt.Sprintf("%T (kind %d) with %s: all values", k.mk(), k.kind, marshalizerNames[mi])
			}, func(t *core.T) {
				d := newDuplex(mk)
				defer d.close()
				for _, m := range k.messages() {
					if k.kind == common.Initialize && notText(reflect.ValueOf(m)) {
						continue
					}
					what := ""
					sent := make(chan error, 1)
					nonce := d.a.Nonce
					go func() { sent <- d.a.Send(m) }()
					got, err := d.b.Receive(2000)
					serr := <-sent
					t.Exec(1)
					t.Trans(2)
					want := rendered(m)
					switch {
					case serr != nil || err != nil:
						what = fmt.Sprintf("cannot be sent: %v %v", serr, err)
					case got.GetNonce() != nonce+1 || m.GetNonce() != nonce+1:
						what = fmt.Sprintf("arrives with nonce %d, expected %d", got.GetNonce(), nonce+1)
					case got.GetKind() != k.kind:
						what = fmt.Sprintf("arrives with kind %d", got.GetKind())
					case rendered(got) != want:
						what = "arrives as\n" + rendered(got)
					}
					if what == "" {
						if e := m.GetError(); (e == nil) != (got.GetError() == nil) || e != nil && e.Error() != got.GetError().Error() {
							what = fmt.Sprintf("error %q becomes %q", e, got.GetError())
						}
					}
					if what != "" && mk == marshaling.JSON && err == nil && notText(reflect.ValueOf(m)) {
						t.Known("json-strings-which-are-not-UTF-8", "a string which is not UTF-8 is changed by the JSON marshalizer")
						continue
					}
					if what != "" {
						t.Failf("%s: %s\n%s", clipTo(want, 1500), clipTo(what, 1500), "")
						return
					}
					t.Outcome(fmt.Sprintf("%d %s", mi, want))
				}
			})
			c.Case(func() string {
				return fmt.Sprintf("%T (kind %d) with %s: every prefix and every split", k.mk(), k.kind, marshalizerNames[mi])
			}, func(t *core.T) {
				raw := rawBytes(mk, k.full())
				step := 1
				if len(raw) > 4000 && !c.Thorough {
					step = len(raw)/1000 | 1
				}
				for n := 0; n < len(raw); n += step {
					if len(raw) > 65000 && n > 32 && n < len(raw)-32 {
						continue
					}
					r, w := pipe()
					part := raw[:n]
					go func() { _, _ = w.Write(part); _ = w.Close() }()
					m, _, err := common.NewReceiver(r, marshaling.CreateMarshalizer(mk)).Receive(2000)
					_ = r.Close()
					t.Exec(1)
					if err == nil {
						t.Failf("%d of %d bytes are received as a message: %s", n, len(raw), clipTo(rendered(m), 800))
						return
					}
				}
				want := rendered(decoded(t, mk, raw))
				r, w := pipe()
				defer r.Close()
				defer w.Close()
				rc := common.NewReceiver(r, marshaling.CreateMarshalizer(mk))
				if len(raw) > 65000 {
					return
				}
				for n := 0; n <= len(raw); n += step {
					first, rest := raw[:n], raw[n:]
					go func() {
						_, _ = w.Write(first)
						drained(r)
						_, _ = w.Write(rest)
					}()
					m, length, err := rc.Receive(2000)
					t.Exec(1)
					t.Trans(2)
					if err != nil || rendered(m) != want || length != len(raw)-8 {
						t.Failf("delivered in %d and %d bytes: %v, length %d", n, len(raw)-n, err, length)
						return
					}
				}
			})
			_ = ki
		}
	}
	framing(c)
	nonces(c)
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func rawBytes(mk marshaling.MarshalizerKind, ms ...common.MessageHandler) []byte {
	r, w := pipe()
	s := common.NewSender(w, marshaling.CreateMarshalizer(mk))
	go func() {
		for _, m := range ms {
			if _, err := s.Send(m); err != nil {
				break
			}
		}
		_ = s.Shutdown()
	}()
	var b bytes.Buffer
	_, _ = b.ReadFrom(r)
	_ = r.Close()
	return b.Bytes()
}

func decoded(t *core.T, mk marshaling.MarshalizerKind, raw []byte) common.MessageHandler {
	r, w := pipe()
	go func() { _, _ = w.Write(raw); _ = w.Close() }()
	m, _, err := common.NewReceiver(r, marshaling.CreateMarshalizer(mk)).Receive(2000)
	_ = r.Close()
	if err != nil {
		t.Failf("a complete message is not received: %v", err)
		return &common.Message{}
	}
	return m
}

// framing sends sequences of messages before the first is received, and messages of unknown kinds.
func framing(c *core.Ctx) {
	mk := func(i int) common.MessageHandler {
		switch i {
		case 0:
			return common.NewMessageStop()
		case 1:
			return common.NewMessageBlockchainGetStorageDataResponse(bytes.Repeat([]byte{1}, 5000), nil)
		case 2:
			return common.NewMessageBlockchainLastNonceResponse(math.MaxUint64)
		case 3:
			return common.NewMessageBlockchainGetCodeResponse(nil)
		}
		return common.NewMessageBlockchainIsPayableResponse(true, errors.New("no %d"))
	}
	for i, k := range marshalizers {
		k, i := k, i
		c.Case(func() string { return "sequences of messages with " + marshalizerNames[i] }, func(t *core.T) {
			var walk func(seq []int) bool
			walk = func(seq []int) bool {
				if len(seq) > 0 {
					d := newDuplex(k)
					var want []string
					for _, j := range seq {
						m := mk(j)
						if err := d.a.Send(m); err != nil {
							t.Failf("cannot send: %v", err)
						}
						want = append(want, rendered(m))
					}
					t.Exec(1)
					t.Trans(2 * len(seq))
					for n := range seq {
						m, err := d.b.Receive(2000)
						if err != nil || rendered(m) != want[n] {
							t.Failf("message %d of %v: %v %s", n, seq, err, rendered(m))
							d.close()
							return false
						}
					}
					if _, err := d.b.Receive(1); err == nil {
						t.Failf("a message which nobody sent, after %v", seq)
					}
					if err := d.a.Send(mk(0)); err != nil {
						t.Failf("cannot send after a timeout")
					}
					if m, err := d.b.Receive(2000); err != nil || m.GetKind() != common.Stop {
						t.Failf("no message after a timeout: %v", err)
					}
					d.close()
				}
				if len(seq) < 3 {
					for j := 0; j < 5; j++ {
						if !walk(append(append([]int{}, seq...), j)) {
							return false
						}
					}
				}
				return true
			}
			walk(nil)
		})
		c.Case(func() string { return "outputs of the VM with " + marshalizerNames[i] }, func(t *core.T) {
			d := newDuplex(k)
			defer d.close()
			for _, v := range valuesFor(outputType) {
				o := v.Interface().(*vmcommon.VMOutput)
				if o == nil || k == marshaling.JSON && notText(v) {
					continue
				}
				sent := make(chan error, 1)
				want := rendered(o)
				go func() { sent <- d.a.Send(common.NewMessageContractResponse(o, nil)) }()
				m, err := d.b.Receive(2000)
				if serr := <-sent; err != nil || serr != nil {
					t.Failf("cannot be sent: %v %v", serr, err)
					return
				}
				r, ok := m.(*common.MessageContractResponse)
				if !ok {
					t.Failf("arrives as %T", m)
					return
				}
				t.Exec(1)
				t.Trans(2)
				if got := rendered(r.SerializableVMOutput.ConvertToVMOutput()); got != want {
					t.Failf("%s arrives as\n%s", clipTo(want, 1500), clipTo(got, 1500))
					return
				}
			}
		})
		c.Case(func() string { return "unknown kinds with " + marshalizerNames[i] }, func(t *core.T) {
			raw := rawBytes(k, common.NewMessageStop())
			for _, kind := range []uint32{uint32(common.FirstKind), uint32(common.UndefinedRequestOrResponse), uint32(common.LastKind), uint32(common.LastKind) + 1, 1000, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32} {
				bad := append([]byte{}, raw...)
				binary.LittleEndian.PutUint32(bad[4:], kind)
				m := decoded(t, k, bad)
				t.Exec(1)
				if _, ok := m.(*common.UndefinedMessage); !ok {
					t.Failf("kind %d is received as %T", kind, m)
				}
			}
		})
	}
}

// nonces explores all sequences of operations of two messengers.
func nonces(c *core.Ctx) {
	type end struct{ nonce uint32 }
	names := []string{"a sends", "b sends", "a receives", "b receives", "a resets", "b resets"}
	depth := 7
	if c.Thorough {
		depth = 9
	}
	for first := 0; first < 2; first++ {
		for second := 0; second < len(names); second++ {
			first, second := first, second
			c.Case(func() string { return fmt.Sprintf("dialogues which begin with: %s, %s", names[first], names[second]) }, func(t *core.T) {
				states := map[string]int{}
				run := func(seq []int) (string, bool) {
					d := newDuplex(marshaling.JSON)
					defer d.close()
					ms := []*common.Messenger{d.a, d.b}
					var model [2]end
					var queue [2][]uint32 // messages on the way to each end
					for _, op := range seq {
						x := op % 2
						m := ms[x]
						switch op / 2 {
						case 0:
							model[x].nonce++
							msg := common.NewMessageStop()
							if err := m.Send(msg); err != nil || msg.GetNonce() != model[x].nonce {
								t.Failf("%v: send yields %v, nonce %d, expected %d", seq, err, msg.GetNonce(), model[x].nonce)
								return "", false
							}
							queue[1-x] = append(queue[1-x], model[x].nonce)
						case 1:
							if len(queue[x]) == 0 {
								return "", true
							}
							n := queue[x][0]
							queue[x] = queue[x][1:]
							msg, err := m.Receive(2000)
							if n == model[x].nonce+1 {
								model[x].nonce = n
								if err != nil || msg.GetNonce() != n {
									t.Failf("%v: message with the right nonce %d: %v", seq, n, err)
									return "", false
								}
							} else if err != common.ErrInvalidMessageNonce {
								t.Failf("%v: message with nonce %d after %d: %v", seq, n, model[x].nonce, err)
								return "", false
							}
						case 2:
							if seq[len(seq)-1] == op && len(seq)%2 == 0 {
								m.Reset()
							} else {
								m.ResetDialogue()
							}
							model[x].nonce = 0
						}
						if m.Nonce != model[x].nonce {
							t.Failf("%v: nonce %d, expected %d", seq, m.Nonce, model[x].nonce)
							return "", false
						}
					}
					t.Exec(1)
					t.Trans(len(seq))
					return fmt.Sprint(model, queue), true
				}
				var walk func(seq []int) bool
				walk = func(seq []int) bool {
					s, ok := run(seq)
					if !ok {
						return false
					}
					if s == "" && len(seq) > 1 {
						return true
					}
					t.State(s)
					left := depth - len(seq)
					if n, seen := states[s]; seen && n >= left && len(seq) > 5 {
						return true
					}
					states[s] = left
					for op := 0; op < len(names) && left > 0; op++ {
						if !walk(append(append([]int{}, seq...), op)) {
							return false
						}
					}
					return true
				}
				walk([]int{first, second})
			})
		}
	}
}

func hash8(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:8]
}

func sortedKeys(m map[string]reflect.Value) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
