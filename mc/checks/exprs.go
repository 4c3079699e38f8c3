package checks

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"strings"

	mei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	mer "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/reconstructor"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"golang.org/x/crypto/sha3"

	"vmc/core"
)

func init() {
	core.Register(&core.Check{ID: "C40", Level: "model_checking", Rule: "The interpreter is run on every expression generated from the grammar of the format within the bounds: every notation of every number of a pool (all 16-bit numbers, the neighbours of the powers of two), " +
		"alone and under every width; every short string under every string prefix; every length of address with every shard; every pair and triple of parts; every tree of up to three levels; every string of up to 4 tokens. What has a meaning goes through the reconstructor and back.",
		Assumptions: []string{"golang.org/x/crypto/sha3 computes keccak256"}, Run: runC40})
}

// files stands for the file system.
type files map[string]string

func (f files) Clone() fr.FileResolver              { return f }
func (f files) SetContext(string)                   {}
func (f files) ResolveAbsolutePath(v string) string { return v }
func (f files) ResolveFileValue(v string) ([]byte, error) {
	if s, ok := f[v]; ok {
		return []byte(s), nil
	}
	return nil, errors.New("no such file")
}

// expr is an expression and what it means: a value, nothing (bad), or either of the two (open).
type expr struct {
	text string
	val  string
	bad  bool
	open bool
}

func (e expr) String() string {
	if e.bad {
		return fmt.Sprintf("%q, which means nothing", e.text)
	}
	return fmt.Sprintf("%q, which means %x", e.text, e.val)
}

var exprFiles = files{"a.wasm": "\x00asm", "dir/b|c.txt": "text", "empty": ""}

func interpret(s string) ([]byte, error) {
	ei := mei.ExprInterpreter{FileResolver: exprFiles}
	return ei.InterpretString(s)
}

// meaning checks one expression.
func meaning(t *core.T, e expr) {
	t.Exec(1)
	got, err := interpret(e.text)
	switch {
	case e.bad && err == nil:
		t.Failf("%v is accepted as %x", e, got)
	case !e.bad && err != nil && !e.open:
		t.Failf("%v is refused: %v", e, err)
	case !e.bad && err == nil && string(got) != e.val:
		t.Failf("%v is read as %x", e, got)
	}
	if err != nil {
		t.Outcome("refused")
	} else {
		t.Outcome("value")
	}
}

func group(s string, n int, sep string) string {
	for i := len(s) - n; i > 0; i -= n {
		s = s[:i] + sep + s[i:]
	}
	return s
}

// notation is a way of writing a number: the text and the bytes it stands for.
type notation struct {
	name string
	of   func(n *big.Int) (string, string)
}

func unhex(s string) string {
	if len(s)%2 == 1 {
		s = "0" + s
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func notations() []notation {
	min := func(f func(n *big.Int) string) func(n *big.Int) (string, string) {
		return func(n *big.Int) (string, string) { return f(n), string(n.Bytes()) }
	}
	hx := func(f func(h string) (string, string)) func(n *big.Int) (string, string) {
		return func(n *big.Int) (string, string) { p, h := f(n.Text(16)); return p + h, unhex(h) }
	}
	return []notation{
		{"decimal", min(func(n *big.Int) string { return n.Text(10) })},
		{"decimal, leading zeros", min(func(n *big.Int) string { return "00" + n.Text(10) })},
		{"decimal, commas", min(func(n *big.Int) string { return group(n.Text(10), 3, ",") })},
		{"decimal, underscores", min(func(n *big.Int) string { return group(n.Text(10), 3, "_") })},
		{"decimal, trailing underscore", min(func(n *big.Int) string { return n.Text(10) + "_" })},
		{"hex", hx(func(h string) (string, string) { return "0x", h })},
		{"hex, capitals", hx(func(h string) (string, string) { return "0X", strings.ToUpper(h) })},
		{"hex, a zero byte first", hx(func(h string) (string, string) { return "0x", "00" + strings.Repeat("0", len(h)%2) + h })},
		{"hex, one zero first", hx(func(h string) (string, string) { return "0x", "0" + h })},
		{"binary", min(func(n *big.Int) string { return "0b" + n.Text(2) })},
		{"binary, capital", min(func(n *big.Int) string { return "0B000" + n.Text(2) })},
		{"binary, underscores", min(func(n *big.Int) string { return "0b" + group(n.Text(2), 4, "_") })},
	}
}

func left(b string, w int) string { return strings.Repeat("\x00", w-len(b)) + b }

// wide is the two's complement of v in w bytes.
func wide(v *big.Int, w int) (string, bool) {
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*w-1))
	if v.Cmp(lim) >= 0 || v.Cmp(new(big.Int).Neg(lim)) < 0 {
		return "", false
	}
	if v.Sign() < 0 {
		v = new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), uint(8*w)))
	}
	return left(string(v.Bytes()), w), true
}

func shortest(v *big.Int) string {
	if v.Sign() == 0 {
		return ""
	}
	for w := 1; ; w++ {
		if b, ok := wide(v, w); ok {
			return b
		}
	}
}

func be32(n int) string { return string([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}) }

// numberForms lists every way of writing n and -n.
func numberForms(n *big.Int, each func(e expr)) {
	for _, no := range notations() {
		text, bytes := no.of(n)
		bare := strings.TrimLeft(bytes, "\x00")
		each(expr{text: text, val: bytes})
		for _, neg := range []bool{false, true} {
			sign, v := "+", n
			if neg {
				sign, v = "-", new(big.Int).Neg(n)
			}
			each(expr{text: sign + text, val: shortest(v)})
			for w := 1; w <= 8; w *= 2 {
				b, ok := wide(v, w)
				each(expr{text: fmt.Sprintf("i%d:%s%s", 8*w, sign, text), val: b, bad: !ok})
			}
		}
		for w := 1; w <= 8; w *= 2 {
			e := expr{text: fmt.Sprintf("u%d:%s", 8*w, text), bad: len(bare) > w, open: len(bytes) > w}
			if !e.bad {
				e.val = left(bare, w)
			}
			each(e)
			_, inRange := wide(n, w)
			e.text = fmt.Sprintf("i%d:%s", 8*w, text)
			e.open = e.open || !inRange // a bit pattern is tolerated
			each(e)
		}
		each(expr{text: "biguint:" + text, val: be32(len(bytes)) + bytes})
		each(expr{text: "nested:" + text, val: be32(len(bytes)) + bytes})
		each(expr{text: "nested:u64:" + text, val: be32(8) + left(bare, 8*b2i(len(bare) <= 8)+len(bare)*b2i(len(bare) > 8)), bad: len(bare) > 8, open: len(bytes) > 8})
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func numberPool() []*big.Int {
	var out []*big.Int
	for k := uint(16); k <= 136; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for d := int64(-2); d <= 2; d++ {
			out = append(out, new(big.Int).Add(p, big.NewInt(d)))
		}
	}
	ten := big.NewInt(1)
	for i := 0; i < 40; i++ {
		out = append(out, ten)
		ten = new(big.Int).Mul(ten, big.NewInt(10))
	}
	return out
}

func addressOf(name string, zeros int, shard int) string {
	if len(name) > 32-zeros {
		name = name[:32-zeros]
	}
	a := []byte(strings.Repeat("\x00", zeros) + name + strings.Repeat("_", 32-zeros-len(name)))
	if shard >= 0 {
		a[31] = byte(shard)
	}
	return string(a)
}

// atoms are the parts from which longer expressions are made.
func atoms() []expr {
	k := sha3.NewLegacyKeccak256()
	k.Write([]byte("ab"))
	return []expr{
		{text: ""}, {text: "0"}, {text: "1", val: "\x01"}, {text: "256", val: "\x01\x00"}, {text: "true", val: "\x01"}, {text: "false"},
		{text: "0x00", val: "\x00"}, {text: "0x0102", val: "\x01\x02"}, {text: "0b101", val: "\x05"}, {text: "-1", val: "\xff"}, {text: "+128", val: "\x00\x80"}, {text: "1,000", val: "\x03\xe8"},
		{text: "u8:7", val: "\x07"}, {text: "u16:7", val: "\x00\x07"}, {text: "u32:7", val: "\x00\x00\x00\x07"}, {text: "u64:7", val: "\x00\x00\x00\x00\x00\x00\x00\x07"},
		{text: "i8:-2", val: "\xfe"}, {text: "i32:-2", val: "\xff\xff\xff\xfe"}, {text: "i64:+2", val: "\x00\x00\x00\x00\x00\x00\x00\x02"},
		{text: "str:ab", val: "ab"}, {text: "``a b", val: "a b"}, {text: "''x:y", val: "x:y"}, {text: "str:"}, {text: "str:true", val: "true"}, {text: "str:0x01", val: "0x01"},
		{text: "biguint:0", val: "\x00\x00\x00\x00"}, {text: "biguint:258", val: "\x00\x00\x00\x02\x01\x02"}, {text: "nested:str:abc", val: "\x00\x00\x00\x03abc"}, {text: "nested:nested:5", val: "\x00\x00\x00\x05\x00\x00\x00\x01\x05"}, {text: "nested:", val: "\x00\x00\x00\x00"},
		{text: "address:me", val: addressOf("me", 0, -1)}, {text: "sc:it#0a", val: addressOf("it", 8, 10)}, {text: "nested:address:me#01", val: "\x00\x00\x00\x20" + addressOf("me", 0, 1)},
		{text: "file:a.wasm", val: "\x00asm"}, {text: "file:empty"}, {text: "keccak256:str:ab", val: string(k.Sum(nil))},
		{text: "x", bad: true}, {text: "u8:256", bad: true}, {text: "i8:", bad: true}, {text: "file:none", bad: true}, {text: "0xzz", bad: true}, {text: "address:a#1", bad: true}, {text: "nested:x", bad: true}, {text: "biguint:-1", bad: true}, {text: "keccak256:x", bad: true}, {text: "-", bad: true},
	}
}

// joined is the expression of parts separated by bars.
func joined(parts []expr) expr {
	var texts []string
	e := expr{}
	for _, p := range parts {
		texts = append(texts, p.text)
		e.val += p.val
		e.bad = e.bad || p.bad
	}
	e.text = strings.Join(texts, "|")
	return e
}

// greedy says that the first part takes the rest of the expression as its argument.
func greedy(e expr) bool {
	return strings.HasPrefix(e.text, "keccak256:") || strings.HasPrefix(e.text, "file:")
}

func runC40(c *core.Ctx) {
	numbers := numberPool()
	c.Case(func() string { return "the neighbours of the powers of two in every notation" }, func(t *core.T) {
		for _, n := range numbers {
			numberForms(n, func(e expr) { meaning(t, e) })
		}
	})
	step := 4096
	for lo := 0; lo < 1<<16; lo += step {
		lo := lo
		c.Case(func() string { return fmt.Sprintf("the numbers from %d to %d in every notation", lo, lo+step-1) }, func(t *core.T) {
			for i := lo; i < lo+step; i++ {
				numberForms(big.NewInt(int64(i)), func(e expr) { meaning(t, e) })
			}
		})
	}
	alpha := []string{"a", "Z", ":", "#", " ", "0", "-", "_", ",", "`", "'", "\"", "\\", "\x00", "\xc3", "\n"}
	for _, prefix := range []string{"str:", "``", "''"} {
		prefix := prefix
		c.Case(func() string { return "strings of up to 3 characters after " + prefix }, func(t *core.T) {
			words([]string{}, alpha, 3, func(w string) {
				meaning(t, expr{text: prefix + w, val: w})
				meaning(t, expr{text: "nested:" + prefix + w, val: be32(len(w)) + w})
			})
		})
	}
	lengths := []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 17}
	if c.Thorough {
		lengths = append(lengths, 1<<24-1, 1<<24, 1<<24+258)
	}
	for n := 0; n <= 520; n++ {
		lengths = append(lengths, n)
	}
	for lo := 0; lo < len(lengths); lo += 75 {
		some := lengths[lo:]
		if len(some) > 75 {
			some = some[:75]
		}
		c.Case(func() string { return fmt.Sprintf("values of %d, ... bytes", some[0]) }, func(t *core.T) {
			for _, n := range some {
				w := strings.Repeat("\x7f", n)
				digits := strings.Repeat("7f", n)
				meaning(t, expr{text: "0x" + digits, val: w})
				meaning(t, expr{text: "str:" + w + "|0x" + digits, val: w + w})
				meaning(t, expr{text: "nested:str:" + w, val: be32(n) + w})
				meaning(t, expr{text: "nested:0x" + digits, val: be32(n) + w})
				meaning(t, expr{text: "nested:nested:``" + w, val: be32(n+4) + be32(n) + w})
				meaning(t, expr{text: "biguint:0x" + digits, val: be32(n) + w})
				if n > 0 {
					meaning(t, expr{text: "+0x" + digits, val: w})
					meaning(t, expr{text: "-0x" + digits, val: strings.Repeat("\x80", n-1) + "\x81"})
				}
			}
		})
	}
	c.Case(func() string { return "addresses of every length and every shard" }, func(t *core.T) {
		const chars = "abcdefghijklmnopqrstuvwxyz0123456789"
		for _, kind := range []struct {
			prefix string
			zeros  int
		}{{"address:", 0}, {"sc:", 8}} {
			for n := 0; n <= 34; n++ {
				for _, name := range []string{chars[:n], chars[:n] + "_", "_" + chars[:n], strings.Repeat("_", n)} {
					roundTrip(t, expr{text: kind.prefix + name, val: addressOf(name, kind.zeros, -1)}, mer.AddressHint)
					for s := 0; s < 256; s++ {
						for _, f := range []string{"%s%s#%02x", "%s%s#%02X"} {
							roundTrip(t, expr{text: fmt.Sprintf(f, kind.prefix, name, s), val: addressOf(name, kind.zeros, s)}, mer.AddressHint)
						}
					}
					for _, s := range []string{"#", "#1", "#001", "#0001", "#g0", "#0x", "# 1", "#-1", "#01#02", "##", "#01 "} {
						meaning(t, expr{text: kind.prefix + name + s, bad: true})
					}
				}
			}
		}
	})
	c.Case(func() string { return "what the reconstructor makes of a value" }, func(t *core.T) {
		r := mer.ExprReconstructor{}
		for i := int64(0); i < 1<<16; i++ {
			numbers = append(numbers, big.NewInt(i))
		}
		for _, n := range numbers {
			want := string(n.Bytes())
			texts := []string{r.ReconstructFromBigInt(n), r.Reconstruct(n.Bytes(), mer.NumberHint), r.Reconstruct(append([]byte{0, 0}, n.Bytes()...), mer.NumberHint)}
			if n.IsUint64() {
				texts = append(texts, r.ReconstructFromUint64(n.Uint64()))
			}
			for _, text := range texts {
				meaning(t, expr{text: text, val: want})
			}
			if text := r.Reconstruct(n.Bytes(), mer.NoHint); len(want) > 0 && !strings.HasPrefix(text, fmt.Sprintf("0x%x (", want)) {
				t.Failf("the value %x is shown as %q", want, text)
			}
			if text := r.Reconstruct(n.Bytes(), mer.CodeHint); len(want) <= 10 {
				e := expr{text: text, val: want}
				meaning(t, e)
			} else if text != fmt.Sprintf("0x%x...", want[:10]) {
				t.Failf("the code %x is shown as %q", want, text)
			}
		}
		words(nil, alpha, 3, func(w string) {
			meaning(t, expr{text: r.Reconstruct([]byte(w), mer.StrHint), val: w})
			if text := r.Reconstruct([]byte(w), mer.NoHint); len(w) > 0 && !strings.HasPrefix(text, fmt.Sprintf("0x%x (", w)) {
				t.Failf("the value %x is shown as %q", w, text)
			}
		})
	})
	all := atoms()
	for i := range all {
		a := all[i]
		c.Case(func() string { return fmt.Sprintf("what begins with %q", a.text) }, func(t *core.T) {
			compose := func(parts []expr) {
				if greedy(parts[0]) {
					return
				}
				e := joined(parts)
				if parts[len(parts)-1].open {
					e.open = true
				}
				meaning(t, e)
				if e.bad {
					return
				}
				h := sha3.NewLegacyKeccak256()
				h.Write([]byte(e.val))
				k := expr{text: "keccak256:" + e.text, val: string(h.Sum(nil))}
				meaning(t, k)
			}
			meaning(t, a)
			for _, b := range all {
				compose([]expr{a, b})
				for _, d := range all {
					compose([]expr{a, b, d})
				}
			}
			// trees
			for _, b := range all {
				for _, d := range all {
					tree(t, a, b, d)
				}
			}
		})
	}
	c.Case(func() string { return "files" }, func(t *core.T) {
		for p, v := range exprFiles {
			meaning(t, expr{text: "file:" + p, val: v})
			meaning(t, expr{text: "1|file:" + p, val: "\x01" + v, open: true, bad: strings.Contains(p, "|")})
			meaning(t, expr{text: "nested:file:" + p, val: be32(len(v)) + v, bad: strings.Contains(p, "|")})
		}
		for _, p := range []string{"file:", "file:none", "file:a.wasm|1", "file: a.wasm"} {
			meaning(t, expr{text: p, bad: true})
		}
		none := mei.ExprInterpreter{}
		if _, err := none.InterpretString("file:a.wasm"); err == nil {
			t.Failf("a file is read without a file resolver")
		}
	})
	tokens := []string{"0", "1", "9", "x", "b", "0x", "0b", "-", "+", "_", ",", "|", ":", "#", "i8:", "u8:", "i64:", "u64:", "biguint:", "nested:", "str:", "address:", "sc:", "keccak256:", "true", "f", "z", " ", ".", "é", "file:", "''"}
	for _, first := range tokens {
		first := first
		n := 3
		if c.Thorough {
			n = 4
		}
		c.Case(func() string { return fmt.Sprintf("sequences of up to %d tokens which begin with %q", n, first) }, func(t *core.T) {
			words([]string{first}, tokens, n, func(w string) {
				t.Exec(1)
				got, err := interpret(w)
				if err == nil && senseless(w) {
					t.Failf("%q, which means nothing, is read as %x", w, got)
				}
			})
		})
	}
}

// words calls f with every sequence of up to n elements of alpha which begins with the given ones.
func words(begin, alpha []string, n int, f func(w string)) {
	f(strings.Join(begin, ""))
	if len(begin) == n {
		return
	}
	for _, a := range alpha {
		words(append(begin[:len(begin):len(begin)], a), alpha, n, f)
	}
}

// senseless recognises expressions which no reading of the format gives a meaning.
func senseless(w string) bool {
	for {
		switch {
		case strings.HasPrefix(w, "file:"):
			_, ok := exprFiles[w[5:]]
			return !ok && w != "file:"
		case strings.HasPrefix(w, "keccak256:"):
			w = w[len("keccak256:"):]
			continue
		}
		break
	}
	for _, part := range strings.Split(w, "|") {
		if senselessPart(part) {
			return true
		}
	}
	return false
}

func senselessPart(w string) bool {
	for strings.HasPrefix(w, "nested:") || strings.HasPrefix(w, "keccak256:") {
		w = w[strings.Index(w, ":")+1:]
	}
	for _, p := range []string{"str:", "``", "''"} {
		if strings.HasPrefix(w, p) {
			return false
		}
	}
	switch {
	case w == "" || w == "true" || w == "false":
		return false
	case strings.HasPrefix(w, "file:"):
		_, ok := exprFiles[w[5:]]
		return !ok && w != "file:"
	case strings.HasPrefix(w, "address:"), strings.HasPrefix(w, "sc:"):
		parts := strings.Split(w, "#")
		if len(parts) == 1 {
			return false
		}
		b, err := hex.DecodeString(parts[1])
		return len(parts) > 2 || err != nil || len(b) != 1
	}
	signed := true
	for _, p := range []string{"u8:", "u16:", "u32:", "u64:", "biguint:"} {
		if strings.HasPrefix(w, p) {
			w, signed = w[len(p):], false
			return senselessNumber(w, signed)
		}
	}
	for _, p := range []string{"i8:", "i16:", "i32:", "i64:"} {
		if strings.HasPrefix(w, p) {
			return senselessNumber(w[len(p):], signed)
		}
	}
	return senselessNumber(w, signed)
}

// senselessNumber tells that w has no digits, a character which is not a digit, or a sign where none can be.
func senselessNumber(w string, signed bool) bool {
	neg := strings.HasPrefix(w, "-")
	if signed && (neg || strings.HasPrefix(w, "+")) {
		w = w[1:]
	}
	digits := "0123456789"
	lower := strings.ToLower(w)
	switch {
	case strings.HasPrefix(lower, "0x"):
		digits, w = "0123456789abcdef", lower[2:]
		if w == "" {
			return false // the empty string of bytes
		}
	case strings.HasPrefix(lower, "0b"):
		digits, w = "01", lower[2:]
	}
	w = strings.TrimPrefix(w, "+") // tolerated
	some := false
	for _, r := range w {
		switch {
		case strings.ContainsRune(digits, r):
			some = true
		case r != '_' && r != ',' && r != '+':
			if r == '-' && strings.Trim(w, "0_,-+") == "" {
				continue // minus zero
			}
			return true
		}
	}
	return !some
}

// tree checks lists and maps of which the leaves are the given expressions.
func tree(t *core.T, a, b, d expr) {
	str := func(e expr) oj.OJsonObject { return &oj.OJsonString{Value: e.text} }
	list := func(items ...oj.OJsonObject) oj.OJsonObject { l := oj.OJsonList(items); return &l }
	mp := func(kv ...interface{}) oj.OJsonObject {
		m := oj.NewMap()
		for i := 0; i < len(kv); i += 2 {
			m.Put(kv[i].(string), kv[i+1].(oj.OJsonObject))
		}
		return m
	}
	yes := oj.OJsonBool(true)
	cases := []struct {
		name string
		obj  oj.OJsonObject
		of   []expr
		bad  bool
	}{
		{"a list", list(str(a), str(b), str(d)), []expr{a, b, d}, false},
		{"a list with a list", list(str(a), list(str(b), str(d))), []expr{a, b, d}, false},
		{"a list with lists", list(list(str(a)), list(), list(list(str(b)), str(d))), []expr{a, b, d}, false},
		{"a map", mp("1", str(a), "2", str(b), "3", str(d)), []expr{a, b, d}, false},
		{"a map in another order", mp("3", str(a), "1", str(b), "2", str(d)), []expr{b, d, a}, false},
		{"a map with keys of different lengths", mp("10", str(a), "1", str(b), "9", str(d)), []expr{b, a, d}, false},
		{"a map in a list in a map", mp("b", list(str(a), mp("y", str(b), "x", str(d))), "a", list()), []expr{a, d, b}, false},
		{"a list with a boolean", list(str(a), &yes), []expr{a}, true},
		{"a map with a boolean", mp("a", &yes, "b", str(b)), []expr{b}, true},
	}
	ei := mei.ExprInterpreter{FileResolver: exprFiles}
	for _, k := range cases {
		t.Exec(1)
		want, bad := "", k.bad
		for _, e := range k.of {
			want += e.val
			bad = bad || e.bad
		}
		got, err := ei.InterpretSubTree(k.obj)
		if bad != (err != nil) || (!bad && string(got) != want) {
			t.Failf("%s of %q, %q and %q is read as %x (error %v), not %x (refused: %v)", k.name, a.text, b.text, d.text, got, err, want, bad)
		}
	}
}

// roundTrip checks an expression, and that its value is shown as an expression with the same value.
func roundTrip(t *core.T, e expr, hint mer.ExprReconstructorHint) {
	meaning(t, e)
	r := mer.ExprReconstructor{}
	back := r.Reconstruct([]byte(e.val), hint)
	meaning(t, expr{text: back, val: e.val})
}
