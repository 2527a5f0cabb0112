package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// Val is the JSON form of a value of the specification (see spec/Values.tla)
type Val struct {
	S *string  `json:"s,omitempty"`
	I *int64   `json:"i,omitempty"`
	B *bool    `json:"b,omitempty"`
	F *string  `json:"f,omitempty"`
	G *string  `json:"g,omitempty"` // an integer that needs more than 32 bits
	N *string  `json:"n,omitempty"`
	A *[]Val   `json:"a,omitempty"`
	M *[][]Val `json:"m,omitempty"`
	Z *Val     `json:"z,omitempty"`
	X *string  `json:"x,omitempty"` // something that isn't a value of the specification
}

// paths maps between the root used by the specification and the actual root of a scenario
type paths struct{ root string }

const specRoot = "/R"

func (p paths) in(s string) string {
	if p.root == "" {
		return s
	}
	return strings.ReplaceAll(s, specRoot, p.root)
}

func (p paths) out(s string) string {
	if p.root == "" {
		return s
	}
	return strings.ReplaceAll(s, p.root, specRoot)
}

func (p paths) toDgo(v Val) dgo.Value {
	switch {
	case v.S != nil:
		return vf.String(p.in(*v.S))
	case v.I != nil:
		return vf.Integer(*v.I)
	case v.B != nil:
		return vf.Boolean(*v.B)
	case v.F != nil:
		f, err := strconv.ParseFloat(*v.F, 64)
		if err != nil {
			panic(err)
		}
		return vf.Float(f)
	case v.G != nil:
		i, err := strconv.ParseInt(*v.G, 10, 64)
		must(err)
		return vf.Integer(i)
	case v.N != nil:
		return vf.Nil
	case v.A != nil:
		es := make([]dgo.Value, len(*v.A))
		for i, e := range *v.A {
			es[i] = p.toDgo(e)
		}
		return vf.Array(es)
	case v.M != nil:
		m := vf.MapWithCapacity(len(*v.M))
		for _, e := range *v.M {
			m.Put(p.toDgo(e[0]), p.toDgo(e[1]))
		}
		return m
	case v.Z != nil:
		return vf.Sensitive(p.toDgo(*v.Z))
	}
	panic(fmt.Errorf("driver: not a value"))
}

func (p paths) toMap(v *Val) dgo.Map {
	if v == nil || v.M == nil {
		return nil
	}
	return p.toDgo(*v).(dgo.Map)
}

func str(s string) Val { return Val{S: &s} }

func (p paths) fromDgo(v dgo.Value) Val {
	switch v := v.(type) {
	case nil:
		x := "nil"
		return Val{X: &x}
	case dgo.String:
		return str(p.out(v.GoString()))
	case dgo.Integer:
		i := v.GoInt()
		if i != int64(int32(i)) {
			g := strconv.FormatInt(i, 10)
			return Val{G: &g}
		}
		return Val{I: &i}
	case dgo.Boolean:
		b := v.GoBool()
		return Val{B: &b}
	case dgo.Float:
		f := v.String()
		return Val{F: &f}
	case dgo.Map:
		ps := make([][]Val, 0, v.Len())
		v.EachEntry(func(e dgo.MapEntry) {
			ps = append(ps, []Val{p.fromDgo(e.Key()), p.fromDgo(e.Value())})
		})
		return Val{M: &ps}
	case dgo.Array:
		es := make([]Val, 0, v.Len())
		v.Each(func(e dgo.Value) { es = append(es, p.fromDgo(e)) })
		return Val{A: &es}
	case dgo.Sensitive:
		u := p.fromDgo(v.Unwrap())
		return Val{Z: &u}
	}
	if v == vf.Nil {
		n := "null"
		return Val{N: &n}
	}
	x := fmt.Sprintf("%T:%v", v, v)
	return Val{X: &x}
}

func quote(s string) string {
	bs, _ := json.Marshal(s)
	r := strings.NewReplacer(`\u003c`, `<`, `\u003e`, `>`, `\u0026`, `&`)
	return r.Replace(string(bs))
}

// text is the flow style YAML (and JSON, provided that all keys are strings) of a value
func (p paths) text(v Val) string {
	switch {
	case v.S != nil:
		return quote(p.in(*v.S))
	case v.I != nil:
		return strconv.FormatInt(*v.I, 10)
	case v.B != nil:
		return strconv.FormatBool(*v.B)
	case v.F != nil:
		return *v.F
	case v.G != nil:
		return *v.G
	case v.N != nil:
		return "null"
	case v.A != nil:
		es := make([]string, len(*v.A))
		for i, e := range *v.A {
			es[i] = p.text(e)
		}
		return "[" + strings.Join(es, ", ") + "]"
	case v.M != nil:
		es := make([]string, len(*v.M))
		for i, e := range *v.M {
			es[i] = p.text(e[0]) + ": " + p.text(e[1])
		}
		return "{" + strings.Join(es, ", ") + "}"
	}
	panic(fmt.Errorf("driver: no text for value"))
}
