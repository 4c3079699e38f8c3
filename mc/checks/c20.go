package checks

import (
	"fmt"
	gomath "math"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/math"

	"vmc/core"
)

func init() {
	core.Register(&core.Check{ID: "C20", Level: "model_checking",
		Rule: "Every ordered pair of operands from the boundary lattice (0..k, 2^i-k..2^i+k for every i, their negatives, the bounds of the type) is applied to each operation; " +
			"non-trivial cases are those whose exact result needs the carry or leaves the type. The oracle is math/big.",
		Assumptions: []string{"operands outside the boundary lattice behave like their neighbours in it"},
		Run:         runC20})
}

func lattice(bits uint, signed bool, k int64) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	lo, hi := big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits-1), big.NewInt(1))
		lo = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits-1))
	}
	add := func(v *big.Int) {
		if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 || seen[v.String()] {
			return
		}
		seen[v.String()] = true
		out = append(out, v)
	}
	for i := uint(0); i <= bits; i++ {
		for d := -k; d <= k; d++ {
			v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), i), big.NewInt(d))
			add(v)
			add(new(big.Int).Neg(v))
		}
	}
	for _, f := range []int64{3, 5, 7, 10, 100, 255, 1000, 65537, 1000003} {
		add(new(big.Int).Div(hi, big.NewInt(f)))
		add(new(big.Int).Add(new(big.Int).Div(hi, big.NewInt(f)), big.NewInt(1)))
		add(big.NewInt(f))
	}
	return out
}

func runC20(c *core.Ctx) {
	k := int64(2)
	if c.Thorough {
		k = 6
	}
	u64 := lattice(64, false, k)
	i64 := lattice(64, true, k)
	i32 := lattice(32, true, k+2)
	maxU := new(big.Int).SetUint64(gomath.MaxUint64)
	for _, a := range u64 {
		a := a
		c.Case(func() string {
			return fmt.Sprintf("uint64 operations with first operand %v and every second operand of %d", a, len(u64))
		}, func(t *core.T) {
			x := a.Uint64()
			t.State("u" + a.String())
			for _, b := range u64 {
				y := b.Uint64()
				t.Exec(5)
				t.Trans(5)
				sum := new(big.Int).Add(a, b)
				over := sum.Cmp(maxU) > 0
				r, err := math.AddUint64WithErr(x, y)
				if over != (err != nil) || (!over && r != sum.Uint64()) {
					t.Failf("checked addition %d + %d = %d, error %v; exact %v", x, y, r, err, sum)
				}
				if over {
					t.Outcome(fmt.Sprintf("add %v %v", a, b))
					sum = maxU
				}
				if r := math.AddUint64(x, y); r != sum.Uint64() {
					t.Failf("addition %d + %d = %d, want %v", x, y, r, sum)
				}
				prod := new(big.Int).Mul(a, b)
				over = prod.Cmp(maxU) > 0
				r, err = math.MulUint64WithErr(x, y)
				if over != (err != nil) || (!over && r != prod.Uint64()) {
					t.Failf("checked multiplication %d * %d = %d, error %v; exact %v", x, y, r, err, prod)
				}
				if over {
					t.Outcome(fmt.Sprintf("mul %v %v", a, b))
					prod = maxU
				}
				if r := math.MulUint64(x, y); r != prod.Uint64() {
					t.Failf("multiplication %d * %d = %d, want %v", x, y, r, prod)
				}
				diff := new(big.Int).Sub(a, b)
				if diff.Sign() < 0 {
					t.Outcome(fmt.Sprintf("sub %v %v", a, b))
					diff = big.NewInt(0)
				}
				if r := math.SubUint64(x, y); r != diff.Uint64() {
					t.Failf("subtraction %d - %d = %d, want %v", x, y, r, diff)
				}
			}
		})
	}
	for _, a := range i64 {
		a := a
		c.Case(func() string {
			return fmt.Sprintf("int64 operations with first operand %v and every second operand of %d", a, len(i64))
		}, func(t *core.T) {
			x := a.Int64()
			t.State("i" + a.String())
			for _, b := range i64 {
				y := b.Int64()
				t.Exec(2)
				t.Trans(2)
				if s := new(big.Int).Add(a, b); s.IsInt64() {
					if r := math.AddInt64(x, y); r != s.Int64() {
						t.Failf("int64 addition %d + %d = %d, want %v", x, y, r, s)
					}
				} else if s.Sign() > 0 {
					t.Outcome(fmt.Sprintf("addi %v %v", a, b))
					if r := math.AddInt64(x, y); r != gomath.MaxInt64 {
						t.Failf("int64 addition %d + %d = %d, want the greatest value", x, y, r)
					}
				}
				if s := new(big.Int).Sub(a, b); s.IsInt64() {
					if r := math.SubInt(int(x), int(y)); r != int(s.Int64()) {
						t.Failf("int subtraction %d - %d = %d, want %v", x, y, r, s)
					}
				} else if s.Sign() < 0 {
					t.Outcome(fmt.Sprintf("subi %v %v", a, b))
					if r := math.SubInt(int(x), int(y)); r != gomath.MinInt64 {
						t.Failf("int subtraction %d - %d = %d, want the least value", x, y, r)
					}
				}
			}
		})
	}
	for _, a := range i32 {
		a := a
		c.Case(func() string {
			return fmt.Sprintf("int32 addition with first operand %v and every second operand of %d", a, len(i32))
		}, func(t *core.T) {
			x := int32(a.Int64())
			t.State("j" + a.String())
			for _, b := range i32 {
				y := int32(b.Int64())
				t.Exec(2)
				t.Trans(2)
				s := a.Int64() + b.Int64()
				in := s >= gomath.MinInt32 && s <= gomath.MaxInt32
				r, err := math.AddInt32WithError(x, y)
				if in != (err == nil) || (in && int64(r) != s) {
					t.Failf("checked int32 addition %d + %d = %d, error %v", x, y, r, err)
				}
				r = math.AddInt32(x, y)
				if in && int64(r) != s || s > gomath.MaxInt32 && r != gomath.MaxInt32 {
					t.Failf("int32 addition %d + %d = %d", x, y, r)
				}
				if !in {
					t.Outcome(fmt.Sprintf("addj %v %v", a, b))
				}
			}
		})
	}
}
