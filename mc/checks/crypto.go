package checks

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/herumi/bls-go-binary/bls"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"

	"vmc/core"
	"vmc/script"
	"vmc/vmx"
	"vmc/wb"
	"vmc/world"
)

func init() {
	core.Register(&core.Check{ID: "C19", Level: "model_checking", Rule: "Each hash function is executed by a contract on every length up to 300 with 3 contents, into each kind of destination; each signature scheme on every combination " +
		"of keys, messages and signatures of a pool, on every single-bit change of the key, the message and the signature of valid triples, on every truncation, and on crafted points (infinity, off the curve, outside the subgroup).",
		Assumptions: []string{"Go's and the pinned libraries' hash functions and signers are correct (checked on published vectors)"}, Run: runC19})
}

const (
	crKey = 20000
	crMsg = 21000
	crSig = 24000
	crOut = 26000
)

type scheme struct {
	name  string
	keys  []signer
	empty bool // the empty message can be signed
	same  func(a, b string) bool
}

type signer struct {
	pub  string
	sign func(msg string) string
}

func edSigner(seed byte) signer {
	priv := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{seed}, 32))
	return signer{string(priv.Public().(ed25519.PublicKey)), func(m string) string { return string(ed25519.Sign(priv, []byte(m))) }}
}

func blsSigner(seed byte) signer {
	sk := &bls.SecretKey{}
	if err := sk.SetLittleEndian(bytes.Repeat([]byte{seed}, 31)); err != nil {
		panic(err)
	}
	return signer{string(sk.GetPublicKey().Serialize()), func(m string) string {
		if m == "" {
			return string(sk.Sign("x").Serialize())
		}
		return string(sk.Sign(m).Serialize())
	}}
}

func secpSigner(seed byte, compressed bool) signer {
	priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), bytes.Repeat([]byte{seed}, 32))
	key := pub.SerializeUncompressed()
	if compressed {
		key = pub.SerializeCompressed()
	}
	return signer{string(key), func(m string) string {
		s, err := priv.Sign(chainhash.DoubleHashB([]byte(m)))
		if err != nil {
			panic(err)
		}
		return string(s.Serialize())
	}}
}

// hybrid tells whether b is another encoding of the uncompressed key a which btcec accepts: both coordinates are the same.
func hybrid(a, b string) bool {
	return len(a) == 65 && len(b) == 65 && a[0] == 4 && a[1:] == b[1:] && (b[0] == 5 || b[0] == 6|a[64]&1)
}

// lowOrder yields points outside the prime-order subgroups, which vanish in a pairing.
func lowOrder() (*bls.G1, *bls.G2) {
	order, _ := new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
	var p *bls.G1
	for x := int64(1); p == nil; x++ {
		var fx, rhs, four, y bls.Fp
		fx.SetInt64(x)
		four.SetInt64(4)
		bls.FpSqr(&rhs, &fx)
		bls.FpMul(&rhs, &rhs, &fx)
		bls.FpAdd(&rhs, &rhs, &four)
		if !bls.FpSquareRoot(&y, &rhs) {
			continue
		}
		g := &bls.G1{X: fx, Y: y}
		g.Z.SetInt64(1)
		var r bls.G1
		r.Clear()
		for i := order.BitLen() - 1; i >= 0; i-- {
			bls.G1Dbl(&r, &r)
			if order.Bit(i) == 1 {
				bls.G1Add(&r, &r, g)
			}
		}
		if !r.IsZero() {
			p = &r
		}
	}
	var q *bls.G2
	for x := int64(1); q == nil; x++ {
		var fx, rhs, four, y bls.Fp2
		fx.D[0].SetInt64(x)
		fx.D[1].SetInt64(x + 1)
		four.D[0].SetInt64(4)
		four.D[1].SetInt64(4)
		bls.Fp2Sqr(&rhs, &fx)
		bls.Fp2Mul(&rhs, &rhs, &fx)
		bls.Fp2Add(&rhs, &rhs, &four)
		if !bls.Fp2SquareRoot(&y, &rhs) {
			continue
		}
		g := &bls.G2{X: fx, Y: y}
		g.Z.D[0].SetInt64(1)
		var r bls.G2
		r.Clear()
		for i := order.BitLen() - 1; i >= 0; i-- {
			bls.G2Dbl(&r, &r)
			if order.Bit(i) == 1 {
				bls.G2Add(&r, &r, g)
			}
		}
		if !r.IsZero() {
			q = &r
		}
	}
	return p, q
}

func cryptoContract() []byte {
	m := wb.New()
	for _, fn := range []string{"verifyEd25519", "verifyBLS", "verifySecp256k1"} {
		fn := fn
		m.Fn(fn, func(f *wb.F) {
			f.Do("getArgument", wb.I(0), wb.I(crKey))
			f.Do("getArgument", wb.I(1), wb.I(crMsg))
			f.Do("getArgument", wb.I(2), wb.I(crSig))
			ml := wb.Call("getArgumentLength", wb.I(1))
			if fn == "verifySecp256k1" {
				f.FinishI32(wb.Call(fn, wb.I(crKey), wb.Call("getArgumentLength", wb.I(0)), wb.I(crMsg), ml, wb.I(crSig)))
			} else {
				f.FinishI32(wb.Call(fn, wb.I(crKey), wb.I(crMsg), ml, wb.I(crSig)))
			}
		})
	}
	for _, fn := range []string{"sha256", "keccak256", "ripemd160"} {
		fn := fn
		// the destination is apart from the data, on it, or overlaps its end
		for i, dest := range []int32{crOut, crMsg, crMsg - 5} {
			dest := dest
			m.Fn(fmt.Sprintf("%s%d", fn, i), func(f *wb.F) {
				f.Do("getArgument", wb.I(1), wb.I(dest-8))
				f.Do("getArgument", wb.I(0), wb.I(crMsg))
				f.FinishI32(wb.Call(fn, wb.I(crMsg), wb.Call("getArgumentLength", wb.I(0)), wb.I(dest)))
				f.Do("finish", wb.I(crMsg-100), wb.I(500))
				f.Do("finish", wb.I(crOut-100), wb.I(200))
			})
		}
	}
	return m.Bytes()
}

func pattern(n, kind int) string {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i*7 + 1)
		}
	}
	return string(b)
}

func runC19(c *core.Ctx) {
	code := cryptoContract()
	setup := func() *world.World {
		w := world.New()
		w.Add(script.User, 1000)
		w.AddContract(script.A, 10, code, script.Owner)
		return w
	}
	call := func(t *core.T, hc *hostCell, w *world.World, fn string, args ...string) *vmcommon.VMOutput {
		in := vmx.Call(script.User, script.A, fn, 0, 1<<50)
		for _, a := range args {
			in.Arguments = append(in.Arguments, []byte(a))
		}
		out, err := hc.use(w).RunSmartContractCall(in)
		t.Exec(1)
		t.Trans(1)
		if err != nil || out.ReturnCode != vmcommon.Ok {
			t.Failf("%s(%x): %v %v", fn, args, out, err)
			return nil
		}
		return out
	}
	hashes := []struct {
		name  string
		sum   func(b []byte) []byte
		known string
	}{
		{"sha256", func(b []byte) []byte { s := sha256.Sum256(b); return s[:] }, "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"},
		{"keccak256", func(b []byte) []byte { h := sha3.NewLegacyKeccak256(); h.Write(b); return h.Sum(nil) }, "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"},
		{"ripemd160", func(b []byte) []byte { h := ripemd160.New(); h.Write(b); return h.Sum(nil) }, "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"},
	}
	top := 300
	if c.Thorough {
		top = 2100
	}
	for _, h := range hashes {
		h := h
		if hex.EncodeToString(h.sum([]byte("abc"))) != h.known {
			panic("the reference for " + h.name + " is wrong")
		}
		for d, dest := range []int{crOut, crMsg, crMsg - 5} {
			d, dest := d, dest
			c.Case(func() string { return fmt.Sprintf("%s of all lengths, destination %d", h.name, d) }, func(t *core.T) {
				hc, w := hostCell{flat: true}, setup()
				for n := 0; n <= top; n++ {
					for kind := 0; kind < 3; kind++ {
						data := pattern(n, kind)
						out := call(t, &hc, w, fmt.Sprintf("%s%d", h.name, d), data, pattern(100, 2))
						if out == nil {
							return
						}
						mem := make([]byte, 1<<16)
						copy(mem[dest-8:], pattern(100, 2))
						copy(mem[crMsg:], data)
						sum := h.sum([]byte(data))
						copy(mem[dest:], sum)
						for i, want := range [][]byte{[]byte(le32(0)), mem[crMsg-100 : crMsg+400], mem[crOut-100 : crOut+100]} {
							if len(out.ReturnData) != 3 || !bytes.Equal(out.ReturnData[i], want) {
								t.Failf("%s of %x (destination %d): result %d is %x, expected %x", h.name, data, d, i, out.ReturnData, want)
								return
							}
						}
					}
				}
			})
		}
	}

	no := func(a, b string) bool { return false }
	schemes := []scheme{
		{"verifyEd25519", []signer{edSigner(1), edSigner(2), edSigner(0xf3)}, true, no},
		{"verifyBLS", []signer{blsSigner(1), blsSigner(2), blsSigner(0x33)}, false, no},
		{"verifySecp256k1", []signer{secpSigner(1, true), secpSigner(1, false), secpSigner(2, true), secpSigner(0x77, false), secpSigner(5, false)}, true, hybrid},
	}
	var msgs []string
	for _, n := range []int{0, 1, 2, 31, 32, 33, 64, 200} {
		for kind := 0; kind < 3; kind++ {
			if n > 0 || kind == 0 {
				msgs = append(msgs, pattern(n, kind))
			}
		}
	}
	verdict := func(t *core.T, hc *hostCell, w *world.World, s scheme, valid bool, what string, key, msg, sig string) bool {
		want, class := -1, "refused"
		if valid {
			want, class = 0, "accepted"
		}
		out := call(t, hc, w, s.name, key, msg, sig)
		if out == nil {
			return false
		}
		if len(out.ReturnData) != 1 || string(out.ReturnData[0]) != le32(want) {
			t.Failf("%s %s: key %x message %x signature %x yields %x, expected %d", s.name, what, key, msg, sig, out.ReturnData, want)
			return false
		}
		t.Class(class)
		return true
	}
	for _, s := range schemes {
		s := s
		for ki := range s.keys {
			ki := ki
			c.Case(func() string {
				return fmt.Sprintf("%s: all keys and messages with the signatures of key %d", s.name, ki)
			}, func(t *core.T) {
				hc, w := hostCell{flat: true}, setup()
				for _, signed := range msgs {
					sig := s.keys[ki].sign(signed)
					for kj := range s.keys {
						for _, msg := range msgs {
							sameKey := kj == ki || (s.name == "verifySecp256k1" && ki < 2 && kj < 2)
							if !verdict(t, &hc, w, s, sameKey && msg == signed && (msg != "" || s.empty), "of the pool", s.keys[kj].pub, msg, sig) {
								return
							}
						}
					}
				}
			})
			for mi, msg := range []string{msgs[1], msgs[len(msgs)-1], pattern(32, 2)} {
				mi, msg := mi, msg
				parts := []string{s.keys[ki].pub, msg, s.keys[ki].sign(msg)}
				for pi, part := range []string{"key", "message", "signature"} {
					pi, part := pi, part
					c.Case(func() string {
						return fmt.Sprintf("%s: every changed bit of the %s (key %d, message %d)", s.name, part, ki, mi)
					}, func(t *core.T) {
						hc, w := hostCell{flat: true}, setup()
						try := func(valid bool, what string, changed string) bool {
							p := append([]string{}, parts...)
							p[pi] = changed
							if pi == 0 && s.same(parts[0], changed) {
								valid = true
							}
							return verdict(t, &hc, w, s, valid, what, p[0], p[1], p[2])
						}
						if !try(true, "unchanged", parts[pi]) {
							return
						}
						for bit := 0; bit < 8*len(parts[pi]); bit++ {
							b := []byte(parts[pi])
							b[bit/8] ^= 1 << uint(bit%8)
							if !try(false, fmt.Sprintf("bit %d of the %s changed", bit, part), string(b)) {
								return
							}
						}
						if s.name == "verifySecp256k1" && pi == 0 {
							return // the length of the key selects its form
						}
						// missing bytes are zeros: the rest of the memory is empty
						for n := 0; n < len(parts[pi]); n++ {
							cut := parts[pi][:n]
							same := pi != 1 && len(bytes.TrimRight([]byte(parts[pi][n:]), "\x00")) == 0
							if !try(same, fmt.Sprintf("the %s cut to %d", part, n), cut) {
								return
							}
						}
						for _, extra := range []string{"\x00", "\x01"} {
							// a longer key or signature buffer does not matter: only its own bytes are read
							if !try(pi != 1, "longer "+part, parts[pi]+extra) {
								return
							}
						}
					})
				}
			}
		}
	}
	t1, t2 := lowOrder()
	for ki := range schemes[1].keys {
		s, ki := schemes[1], ki
		c.Case(func() string { return fmt.Sprintf("verifyBLS: crafted points (key %d)", ki) }, func(t *core.T) {
			hc, w := hostCell{flat: true}, setup()
			for _, msg := range msgs[1:] {
				key, sig := s.keys[ki].pub, s.keys[ki].sign(msg)
				var g1, sum1 bls.G1
				var g2, sum2 bls.G2
				if g1.Deserialize([]byte(sig)) != nil || g2.Deserialize([]byte(key)) != nil {
					t.Failf("the crafted points cannot be made")
					return
				}
				bls.G1Add(&sum1, &g1, t1)
				bls.G2Add(&sum2, &g2, t2)
				var n1 bls.G1
				var n2 bls.G2
				bls.G1Neg(&n1, &g1)
				bls.G2Neg(&n2, &g2)
				zero1, zero2 := string(make([]byte, 48)), string(make([]byte, 96))
				neg1, neg2 := string(n1.Serialize()), string(n2.Serialize())
				for _, tr := range []struct {
					valid     bool
					what      string
					key, sign string
				}{
					{true, "unchanged", key, sig}, {true, "both negated", neg2, neg1}, {false, "the key negated", neg2, sig}, {false, "the signature negated", key, neg1},
					{false, "both at infinity", zero2, zero1}, {false, "the key at infinity", zero2, sig}, {false, "the signature at infinity", key, zero1},
					{false, "a signature outside the subgroup", key, string(sum1.Serialize())}, {false, "a signature of low order", key, string(t1.Serialize())},
					{false, "a key outside the subgroup", string(sum2.Serialize()), sig}, {false, "a key of low order", string(t2.Serialize()), sig},
					{false, "both of low order", string(t2.Serialize()), string(t1.Serialize())},
					{false, "a key of low order and infinity", string(t2.Serialize()), zero1},
				} {
					if !verdict(t, &hc, w, s, tr.valid, tr.what, tr.key, msg, tr.sign) {
						return
					}
				}
			}
		})
	}
	c.Case(func() string { return "crafted secp256k1 and ed25519 inputs" }, func(t *core.T) {
		hc, w := hostCell{flat: true}, setup()
		s := schemes[2]
		n := btcec.S256().N
		der := func(r, v *big.Int) string {
			enc := func(x *big.Int) []byte {
				b := x.Bytes()
				if len(b) == 0 || b[0]&0x80 != 0 {
					b = append([]byte{0}, b...)
				}
				return append([]byte{2, byte(len(b))}, b...)
			}
			body := append(enc(r), enc(v)...)
			return string(append([]byte{0x30, byte(len(body))}, body...))
		}
		for _, k := range s.keys {
			for _, msg := range msgs {
				for _, r := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(n, big.NewInt(1)), n, new(big.Int).Add(n, big.NewInt(1))} {
					for _, v := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(n, big.NewInt(1)), n, new(big.Int).Add(n, big.NewInt(1))} {
						if !verdict(t, &hc, w, s, false, "crafted", k.pub, msg, der(r, v)) {
							return
						}
					}
				}
				for _, key := range []string{string(make([]byte, 33)), string(make([]byte, 65)), "\x02" + string(make([]byte, 32)), "\x04" + string(make([]byte, 64)), "\x04" + k.pub[1:33] + k.pub[1:33], "\x05" + string(make([]byte, 32))} {
					if !verdict(t, &hc, w, s, false, "of a key which is no point", key, msg, k.sign(msg)) {
						return
					}
				}
			}
		}
		order, _ := new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
		s = schemes[0]
		for _, k := range s.keys {
			for _, msg := range msgs {
				sig := []byte(k.sign(msg))
				sv := new(big.Int)
				for i := 63; i >= 32; i-- {
					sv.Lsh(sv, 8).Add(sv, big.NewInt(int64(sig[i])))
				}
				// S + L is the same number modulo L, but no canonical signature
				sv.Add(sv, order)
				le := make([]byte, 32)
				for i := range le {
					le[i] = byte(new(big.Int).Rsh(sv, uint(8*i)).Uint64())
				}
				if !verdict(t, &hc, w, s, false, "with S + L", k.pub, msg, string(sig[:32])+string(le)) {
					return
				}
			}
		}
	})
}
