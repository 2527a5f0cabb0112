package main

import (
	"fmt"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
)

var _ = tf.String

// LogEntry is an explain event
type LogEntry struct {
	E string `json:"e"`
	A string `json:"a"`
	V Val    `json:"v"`
}

// recorder is an explainer that records the events in the order that they are reported
type recorder struct {
	p    paths
	log  []LogEntry
	opts bool
	only bool
	real api.Explainer // sees the same events
}

func nullVal() Val { n := "null"; return Val{N: &n} }

func (r *recorder) ev(e, a string) {
	r.log = append(r.log, LogEntry{e, r.p.out(a), nullVal()})
}
func (r *recorder) evv(e, a string, v dgo.Value) {
	r.log = append(r.log, LogEntry{e, r.p.out(a), r.p.fromDgo(v)})
}

func keyStr(k interface{}) string {
	switch k := k.(type) {
	case api.Key:
		return k.Source()
	case dgo.String:
		return k.GoString()
	default:
		return fmt.Sprintf("%v", k)
	}
}

func (r *recorder) AcceptFound(key interface{}, value dgo.Value) {
	r.evv("found", keyStr(key), value)
	r.real.AcceptFound(key, value)
}
func (r *recorder) AcceptFoundInDefaults(key string, value dgo.Value) {
	r.evv("foundindefaults", key, value)
	r.real.AcceptFoundInDefaults(key, value)
}
func (r *recorder) AcceptFoundInOverrides(key string, value dgo.Value) {
	r.evv("foundinoverrides", key, value)
	r.real.AcceptFoundInOverrides(key, value)
}
func (r *recorder) AcceptLocationNotFound() {
	r.ev("locnf", "")
	r.real.AcceptLocationNotFound()
}
func (r *recorder) AcceptMergeSource(s string) {
	r.ev("mergesource", s)
	r.real.AcceptMergeSource(s)
}
func (r *recorder) AcceptModuleNotFound() {
	r.ev("modnf", "")
	r.real.AcceptModuleNotFound()
}
func (r *recorder) AcceptNotFound(key interface{}) {
	r.ev("nf", keyStr(key))
	r.real.AcceptNotFound(key)
}
func (r *recorder) AcceptMergeResult(value dgo.Value) {
	r.evv("mergeresult", "", value)
	r.real.AcceptMergeResult(value)
}
func (r *recorder) AcceptText(text string) {
	r.ev("text", text)
	r.real.AcceptText(text)
}
func (r *recorder) PushDataProvider(pvd api.DataProvider) {
	e := pvd.Hierarchy()
	r.ev("provider", e.Name()+"|"+string(e.Function().Kind())+"|"+e.Function().Name())
	r.real.PushDataProvider(pvd)
}
func (r *recorder) PushInterpolation(expr string) {
	r.ev("interp", expr)
	r.real.PushInterpolation(expr)
}
func (r *recorder) PushInvalidKey(key interface{}) {
	r.ev("invalid", keyStr(key))
	r.real.PushInvalidKey(key)
}
func (r *recorder) PushLocation(loc api.Location) {
	r.ev("location", string(loc.Kind())+"|"+loc.Original()+"|"+loc.Resolved())
	r.real.PushLocation(loc)
}
func (r *recorder) PushLookup(key api.Key) {
	r.ev("lookup", key.Source())
	r.real.PushLookup(key)
}
func (r *recorder) PushMerge(mrg api.MergeStrategy) {
	o := mrg.Options()
	if o == nil {
		o = vf.Map()
	}
	r.evv("merge", mrg.Name(), o)
	r.real.PushMerge(mrg)
}
func (r *recorder) PushModule(moduleName string) {
	r.ev("module", moduleName)
	r.real.PushModule(moduleName)
}
func (r *recorder) PushSegment(seg interface{}) {
	r.ev("segment", keyStr(seg))
	r.real.PushSegment(seg)
}
func (r *recorder) PushSubLookup(key api.Key) {
	r.ev("sublookup", key.Source())
	r.real.PushSubLookup(key)
}
func (r *recorder) Pop() {
	r.ev("pop", "")
	r.real.Pop()
}
func (r *recorder) OnlyOptions() bool { return r.only }
func (r *recorder) Options() bool     { return r.opts }

func (r *recorder) AppendTo(w dgo.Indenter)       {}
func (r *recorder) Type() dgo.Type                { return typ.Any }
func (r *recorder) Equals(other interface{}) bool { return r == other }
func (r *recorder) HashCode() int                 { return 1 }
func (r *recorder) String() string                { return "recorder" }

func (r *recorder) take() []LogEntry {
	l := r.log
	r.log = nil
	if l == nil {
		l = []LogEntry{}
	}
	return l
}
