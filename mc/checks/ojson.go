package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"

	"vmc/core"
)

func init() {
	core.Register(&core.Check{ID: "C41", Level: "model_checking", Rule: "The reader is run on every sequence of up to 6 (thorough: 7) tokens of JSON and compared with a recursive reader of strict JSON, itself compared with encoding/json on each; " +
		"every document of up to 3 levels is written with every placement of white space, read, written again by the project's writer and read again.",
		Assumptions: []string{"numbers and null are not part of the format"}, Run: runC41})
}

// jval is a JSON value: a string (raw), a boolean, a list or an ordered map.
type jval struct {
	kind byte // s, b, l, m
	raw  string
	yes  bool
	keys []string
	vals []*jval
}

func (v *jval) show() string {
	switch v.kind {
	case 's':
		return fmt.Sprintf("%q", v.raw)
	case 'b':
		return fmt.Sprint(v.yes)
	}
	var parts []string
	for i, c := range v.vals {
		s := c.show()
		if v.kind == 'm' {
			s = fmt.Sprintf("%q:%s", v.keys[i], s)
		}
		parts = append(parts, s)
	}
	if v.kind == 'm' {
		return "{" + strings.Join(parts, ",") + "}"
	}
	return "[" + strings.Join(parts, ",") + "]"
}

// jread is a recursive reader of strict JSON without numbers and null.
type jread struct {
	s      string
	i      int
	open   bool // something in it is read differently by different readers: an invalid escape, a key given twice
	number bool
}

type jbad struct{}

func (r *jread) space() {
	for r.i < len(r.s) && strings.IndexByte(" \n\r\t", r.s[r.i]) >= 0 {
		r.i++
	}
}

func (r *jread) need(c byte) {
	if r.i >= len(r.s) || r.s[r.i] != c {
		panic(jbad{})
	}
	r.i++
}

func (r *jread) at(c byte) bool { return r.i < len(r.s) && r.s[r.i] == c }

func (r *jread) str() string {
	r.need('"')
	from := r.i
	for {
		if r.i >= len(r.s) {
			panic(jbad{})
		}
		switch r.s[r.i] {
		case '"':
			r.i++
			return r.s[from : r.i-1]
		case '\\':
			r.i++
			if r.i >= len(r.s) {
				panic(jbad{})
			}
			if strings.IndexByte(`"\/bfnrt`, r.s[r.i]) < 0 {
				r.open = true
			}
		}
		r.i++
	}
}

func (r *jread) value() *jval {
	r.space()
	switch {
	case r.at('"'):
		return &jval{kind: 's', raw: r.str()}
	case strings.HasPrefix(r.s[r.i:], "true"):
		r.i += 4
		return &jval{kind: 'b', yes: true}
	case strings.HasPrefix(r.s[r.i:], "false"):
		r.i += 5
		return &jval{kind: 'b'}
	case r.at('['):
		r.i++
		v := &jval{kind: 'l'}
		r.space()
		if r.at(']') {
			r.i++
			return v
		}
		for {
			v.vals = append(v.vals, r.value())
			r.space()
			if r.at(']') {
				r.i++
				return v
			}
			r.need(',')
		}
	case r.at('{'):
		r.i++
		v := &jval{kind: 'm'}
		r.space()
		if r.at('}') {
			r.i++
			return v
		}
		for {
			r.space()
			key := r.str()
			r.space()
			r.need(':')
			val := r.value()
			twice := false
			for _, k := range v.keys {
				twice = twice || k == key
			}
			if twice {
				r.open = true // the first one counts
			} else {
				v.keys = append(v.keys, key)
				v.vals = append(v.vals, val)
			}
			r.space()
			if r.at('}') {
				r.i++
				return v
			}
			r.need(',')
		}
	}
	panic(jbad{})
}

// strictJSON reads a document; nil if it is malformed.
func strictJSON(s string) (v *jval, open bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(jbad); !ok {
				panic(e)
			}
			v = nil
		}
	}()
	r := &jread{s: s}
	v = r.value()
	if v.kind == 'b' {
		r.open = true // not a document
	}
	r.space()
	if r.i != len(s) {
		return nil, false
	}
	return v, r.open
}

func fromOJ(o oj.OJsonObject) *jval {
	switch x := o.(type) {
	case *oj.OJsonString:
		return &jval{kind: 's', raw: x.Value}
	case *oj.OJsonBool:
		return &jval{kind: 'b', yes: bool(*x)}
	case *oj.OJsonList:
		v := &jval{kind: 'l'}
		for _, c := range x.AsList() {
			v.vals = append(v.vals, fromOJ(c))
		}
		return v
	case *oj.OJsonMap:
		v := &jval{kind: 'm'}
		for _, kv := range x.OrderedKV {
			v.keys = append(v.keys, kv.Key)
			v.vals = append(v.vals, fromOJ(kv.Value))
		}
		if len(x.KeySet) != len(x.OrderedKV) || x.Size() != len(x.OrderedKV) {
			return &jval{kind: 's', raw: "a map of which the keys do not agree with the entries"}
		}
		return v
	}
	return &jval{kind: 's', raw: fmt.Sprintf("an object of type %T", o)}
}

// jdoc compares the reader with the strict one on a document.
func jdoc(t *core.T, s string) {
	t.Exec(1)
	want, open := strictJSON(s)
	if std := json.Valid([]byte(s)); std != (want != nil) && !open {
		t.Failf("the check disagrees with encoding/json on %q", s)
	}
	o, err := oj.ParseOrderedJSON([]byte(s))
	switch {
	case err != nil && want != nil && !open:
		t.Failf("the document %s is refused: %v", s, err)
	case err == nil && want == nil && o != nil:
		t.Failf("the malformed document %s is read as %s", s, fromOJ(o).show())
	case err == nil && want == nil:
		t.Failf("the malformed document %s is accepted", s)
	case err == nil:
		t.Outcome("read")
		got := fromOJ(o)
		if got.show() != want.show() {
			t.Failf("the document %s is read as %s", s, got.show())
			return
		}
		text := oj.JSONString(o)
		if !open && !json.Valid([]byte(text)) {
			t.Failf("the document %s is written as %s, which is not JSON", s, text)
		}
		again, err := oj.ParseOrderedJSON([]byte(text + "\n"))
		if err != nil {
			if want.kind != 'b' {
				t.Failf("the document %s is written as %s, which is refused: %v", s, text, err)
			}
		} else if back := fromOJ(again); back.show() != want.show() {
			t.Failf("the document %s is written as %s, which is read as %s", s, text, back.show())
		} else if second := oj.JSONString(again); second != text {
			t.Failf("the document %s is written as %s, then as %s", s, text, second)
		}
	default:
		t.Outcome("refused")
	}
}

func runC41(c *core.Ctx) {
	tokens := []string{"{", "}", "[", "]", ",", ":", `"`, `\`, "a", " ", "true", `"a"`, `"b":`}
	n := 6
	if c.Thorough {
		n = 7
	}
	for _, a := range tokens {
		for _, b := range tokens {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("sequences of up to %d tokens which begin with %s and %s", n, a, b) }, func(t *core.T) {
				if b == "{" {
					jdoc(t, a)
				}
				words([]string{a, b}, tokens, n, func(w string) { jdoc(t, w) })
			})
		}
	}
	c.Case(func() string { return "the empty document and white space" }, func(t *core.T) {
		words(nil, []string{" ", "\n", "\t", "\r"}, 3, func(w string) { jdoc(t, w) })
	})
	// documents by structure
	leaves := []string{`""`, `"x"`, `"\""`, `"\\"`, `"a\\\""`, `"{[,:]}"`, `"true"`, `"` + "\xc3\xa9" + `"`, "true", "false", "[]", "{}"}
	var level func(depth int) []string
	level = func(depth int) []string {
		if depth == 0 {
			return leaves
		}
		below := level(depth - 1)
		if len(below) > 40 {
			var some []string
			for i := 0; i < 40; i++ {
				some = append(some, below[i*len(below)/40])
			}
			below = append(some, leaves...)
		}
		var out []string
		for i, a := range below {
			out = append(out, "[~"+a+"~]", `{~"k"~:~`+a+"~}", `{~"\\"~:~`+a+"~}")
			for j, b := range below {
				if depth == 2 && (i+j)%3 != 0 && !c.Thorough {
					continue
				}
				out = append(out, "[~"+a+"~,~"+b+"~]", `{~"k"~:~`+a+`~,~"a"~:~`+b+"~}", `{~""~:~`+a+`~,~"\""~:~`+b+"~}", `{~"k"~:~`+a+`~,~"k"~:~`+b+"~}")
				if depth == 1 {
					out = append(out, "[~"+a+"~,~"+b+"~,~"+a+"~]")
				}
			}
		}
		return out
	}
	docs := append(level(1), level(2)...)
	const per = 500
	for lo := 0; lo < len(docs); lo += per {
		lo := lo
		c.Case(func() string { return fmt.Sprintf("documents from number %d on, such as %s", lo, docs[lo]) }, func(t *core.T) {
			for i := lo; i < lo+per && i < len(docs); i++ {
				d := docs[i]
				for _, sp := range []string{"", " ", "\n\t", "\r\n  "} {
					jdoc(t, strings.ReplaceAll(d, "~", sp))
				}
				for k := 0; k < strings.Count(d, "~"); k++ { // one place at a time
					s := strings.Split(d, "~")
					jdoc(t, strings.Join(s[:k+1], "")+" "+strings.Join(s[k+1:], ""))
				}
				plain := strings.ReplaceAll(d, "~", "")
				for _, extra := range []string{"]", "}", ",", `"`, "x", " x", "{}", `"a"`} {
					jdoc(t, plain+extra)
				}
				jdoc(t, " \n"+plain+"\n\n")
				for k := range plain { // without one character
					jdoc(t, plain[:k]+plain[k+1:])
				}
			}
		})
	}
}
