// Package wb builds small WebAssembly contracts.
package wb

import "sort"

// M is a module under construction.
type M struct {
	imports   []string
	importIdx map[string]int
	extra     map[string][2]string // imports with a signature other than the one in Sigs
	fns       []*F
	data      []seg
	dataIdx   map[string]int32
	next      int32
	NoMemory  bool
	Pages     int
	NoExports bool
	Exports   []Export // additional exports
}

// Export is an additional export entry.
type Export struct {
	Name string
	Kind byte
	Idx  int
}

type seg struct {
	off int32
	b   []byte
}

// F is a function under construction.
type F struct {
	m        *M
	Name     string
	Params   string
	Result   string
	locals   string
	code     []byte
	exported bool
	idx      int
}

// E generates code that leaves one value (or none, for calls without a result) on the stack.
type E func(f *F)

// New starts a module. Data begins at 1024; memory below is scratch space.
func New() *M {
	return &M{importIdx: map[string]int{}, extra: map[string][2]string{}, dataIdx: map[string]int32{}, next: 1024, Pages: 1}
}

// SetImportSig declares an import with an explicit signature.
func (m *M) SetImportSig(name, params, result string) { m.extra[name] = [2]string{params, result} }

// Import makes sure that the module imports name.
func (m *M) Import(name string) int {
	if i, ok := m.importIdx[name]; ok {
		return i
	}
	i := len(m.imports)
	m.imports = append(m.imports, name)
	m.importIdx[name] = i
	return i
}

func (m *M) sig(name string) [2]string {
	if s, ok := m.extra[name]; ok {
		return s
	}
	s, ok := Sigs[name]
	if !ok {
		panic("unknown import " + name)
	}
	return s
}

// Ptr places b in a data segment (once) and returns its address.
func (m *M) Ptr(b []byte) int32 {
	if p, ok := m.dataIdx[string(b)]; ok {
		return p
	}
	p := m.next
	m.next += int32(len(b))
	if len(b) == 0 {
		m.next++
	}
	m.dataIdx[string(b)] = p
	if len(b) > 0 {
		m.data = append(m.data, seg{p, append([]byte{}, b...)})
	}
	return p
}

// Place puts b at a fixed address (use addresses in a range Ptr does not reach).
func (m *M) Place(at int32, b []byte) {
	m.data = append(m.data, seg{at, append([]byte{}, b...)})
}

// Fn adds an exported function without parameters and result.
func (m *M) Fn(name string, body func(f *F)) *F { return m.FnSig(name, "", "", true, body) }

// FnSig adds a function.
func (m *M) FnSig(name, params, result string, exported bool, body func(f *F)) *F {
	f := &F{m: m, Name: name, Params: params, Result: result, exported: exported, idx: len(m.fns)}
	m.fns = append(m.fns, f)
	body(f)
	return f
}

// Local declares a local variable of type t ("i" or "l") and returns its index.
func (f *F) Local(t string) int {
	f.locals += t
	return len(f.Params) + len(f.locals) - 1
}

// M returns the module of the function.
func (f *F) M() *M { return f.m }

func uleb(b []byte, v uint64) []byte {
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if v == 0 {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

func sleb(b []byte, v int64) []byte {
	for {
		c := byte(v & 0x7f)
		v >>= 7
		if (v == 0 && c&0x40 == 0) || (v == -1 && c&0x40 != 0) {
			return append(b, c)
		}
		b = append(b, c|0x80)
	}
}

// Raw appends raw code bytes.
func (f *F) Raw(b ...byte) { f.code = append(f.code, b...) }

// I is an i32 constant.
func I(v int32) E { return func(f *F) { f.Raw(0x41); f.code = sleb(f.code, int64(v)) } }

// L is an i64 constant.
func L(v int64) E { return func(f *F) { f.Raw(0x42); f.code = sleb(f.code, v) } }

// P is the address of b in memory.
func P(b []byte) E { return func(f *F) { I(f.m.Ptr(b))(f) } }

// S is the address of s in memory.
func S(s string) E { return P([]byte(s)) }

// Get reads a local.
func Get(i int) E { return func(f *F) { f.Raw(0x20); f.code = uleb(f.code, uint64(i)) } }

// Call calls an imported function; its result, if any, is left on the stack.
func Call(name string, args ...E) E {
	return func(f *F) {
		sig := f.m.sig(name)
		if len(sig[0]) != len(args) {
			panic("bad argument count for " + name)
		}
		for _, a := range args {
			a(f)
		}
		i := f.m.Import(name)
		f.Raw(0x10)
		// imports are numbered first; functions of the module are called through CallFn only
		f.code = uleb(f.code, uint64(i))
	}
}

// Do calls an imported function and drops its result.
func (f *F) Do(name string, args ...E) {
	Call(name, args...)(f)
	if f.m.sig(name)[1] != "" {
		f.Raw(0x1a)
	}
}

// Set stores e in a local.
func (f *F) Set(i int, e E) { e(f); f.Raw(0x21); f.code = uleb(f.code, uint64(i)) }

// If runs then when cond is not zero, otherwise els (which may be nil).
func (f *F) If(cond E, then func(), els func()) {
	cond(f)
	f.Raw(0x04, 0x40)
	then()
	if els != nil {
		f.Raw(0x05)
		els()
	}
	f.Raw(0x0b)
}

// Loop repeats body (unbounded).
func (f *F) Loop(body func()) { f.Raw(0x03, 0x40); body(); f.Raw(0x0c, 0x00, 0x0b) }

// Nops adds n nop instructions (each costs gas).
func (f *F) Nops(n int) {
	for i := 0; i < n; i++ {
		f.Raw(0x01)
	}
}

// Return leaves the function.
func (f *F) Return() { f.Raw(0x0f) }

// Unreachable traps.
func (f *F) Unreachable() { f.Raw(0x00) }

// Store32 stores an i32 in memory.
func (f *F) Store32(addr, v E) { addr(f); v(f); f.Raw(0x36, 0, 0) }

// Store64 stores an i64 in memory.
func (f *F) Store64(addr, v E) { addr(f); v(f); f.Raw(0x37, 0, 0) }

// Load32 loads an i32 from memory.
func Load32(addr E) E { return func(f *F) { addr(f); f.Raw(0x28, 0, 0) } }

// Load8 loads a byte from memory.
func Load8(addr E) E { return func(f *F) { addr(f); f.Raw(0x2d, 0, 0) } }

// Op2 applies a binary instruction.
func Op2(op byte, a, b E) E { return func(f *F) { a(f); b(f); f.Raw(op) } }

// Ext extends an i32 (signed) to an i64.
func Ext(a E) E { return func(f *F) { a(f); f.Raw(0xac) } }

// Finish emits finish(bytes).
func (f *F) Finish(b []byte) { f.Do("finish", P(b), I(int32(len(b)))) }

// FinishI64 reports an i64 value as return data (8 bytes, little endian).
func (f *F) FinishI64(e E) {
	f.Store64(I(512), e)
	f.Do("finish", I(512), I(8))
}

// FinishI32 reports an i32 value as return data (4 bytes, little endian).
func (f *F) FinishI32(e E) {
	f.Store32(I(512), e)
	f.Do("finish", I(512), I(4))
}

func section(out []byte, id byte, body []byte) []byte {
	out = append(out, id)
	out = uleb(out, uint64(len(body)))
	return append(out, body...)
}

func name(b []byte, s string) []byte {
	b = uleb(b, uint64(len(s)))
	return append(b, s...)
}

func vt(c byte) byte {
	if c == 'l' {
		return 0x7e
	}
	return 0x7f
}

// Bytes assembles the module.
func (m *M) Bytes() []byte {
	types := map[[2]string]int{}
	var order [][2]string
	typ := func(s [2]string) int {
		if i, ok := types[s]; ok {
			return i
		}
		types[s] = len(order)
		order = append(order, s)
		return len(order) - 1
	}
	imp := uleb(nil, uint64(len(m.imports)))
	for _, n := range m.imports {
		imp = name(imp, "env")
		imp = name(imp, n)
		imp = append(imp, 0)
		imp = uleb(imp, uint64(typ(m.sig(n))))
	}
	fns := uleb(nil, uint64(len(m.fns)))
	for _, f := range m.fns {
		fns = uleb(fns, uint64(typ([2]string{f.Params, f.Result})))
	}
	ty := uleb(nil, uint64(len(order)))
	for _, s := range order {
		ty = append(ty, 0x60)
		ty = uleb(ty, uint64(len(s[0])))
		for i := range s[0] {
			ty = append(ty, vt(s[0][i]))
		}
		ty = uleb(ty, uint64(len(s[1])))
		for i := range s[1] {
			ty = append(ty, vt(s[1][i]))
		}
	}
	out := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	out = section(out, 1, ty)
	if len(m.imports) > 0 {
		out = section(out, 2, imp)
	}
	out = section(out, 3, fns)
	if !m.NoMemory {
		pages := m.Pages
		if need := int(m.next)/65536 + 1; need > pages {
			pages = need
		}
		out = section(out, 5, append([]byte{1, 0}, uleb(nil, uint64(pages))...))
	}
	if !m.NoExports {
		var ex []byte
		n := 0
		if !m.NoMemory {
			ex = name(ex, "memory")
			ex = append(ex, 2, 0)
			n++
		}
		for i, f := range m.fns {
			if f.exported {
				ex = name(ex, f.Name)
				ex = append(ex, 0)
				ex = uleb(ex, uint64(len(m.imports)+i))
				n++
			}
		}
		for _, e := range m.Exports {
			ex = name(ex, e.Name)
			ex = append(ex, e.Kind)
			ex = uleb(ex, uint64(e.Idx))
			n++
		}
		out = section(out, 7, append(uleb(nil, uint64(n)), ex...))
	}
	code := uleb(nil, uint64(len(m.fns)))
	for _, f := range m.fns {
		var body []byte
		body = uleb(body, uint64(len(f.locals)))
		for i := range f.locals {
			body = append(body, 1, vt(f.locals[i]))
		}
		body = append(body, f.code...)
		body = append(body, 0x0b)
		code = uleb(code, uint64(len(body)))
		code = append(code, body...)
	}
	out = section(out, 10, code)
	if len(m.data) > 0 && !m.NoMemory {
		sort.Slice(m.data, func(i, j int) bool { return m.data[i].off < m.data[j].off })
		d := uleb(nil, uint64(len(m.data)))
		for _, s := range m.data {
			d = append(d, 0, 0x41)
			d = sleb(d, int64(s.off))
			d = append(d, 0x0b)
			d = uleb(d, uint64(len(s.b)))
			d = append(d, s.b...)
		}
		out = section(out, 11, d)
	}
	return out
}

// Load64 reads an i64 from memory.
func Load64(addr E) E { return func(f *F) { addr(f); f.Raw(0x29, 0, 0) } }
