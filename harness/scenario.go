package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/explain"
	"github.com/lyraproj/hiera/hiera"
	"github.com/lyraproj/hiera/merge"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// Content is what a file contains
type Content struct {
	V   *Val    `json:"v,omitempty"`
	Bad *string `json:"bad,omitempty"`
	X   *Exe    `json:"x,omitempty"`

	// Text is how V is written, when that matters
	Text *string `json:"text,omitempty"`

	// Pem has the names of the keys and certificates in the file, see tlsworld.go
	Pem []string `json:"pem,omitempty"`
}

// Fn is an in-process function
type Fn struct {
	Kind string `json:"kind"`
	Beh  string `json:"beh"`
	Arg  string `json:"arg"`
	Tab  Val    `json:"tab"`
}

// Op is an operation of the public API
type Op struct {
	Op    string   `json:"op"`
	S     string   `json:"s,omitempty"`
	I     string   `json:"i,omitempty"`
	Cfg   *string  `json:"cfg,omitempty"`
	Root  *string  `json:"root,omitempty"`
	CfgNm *string  `json:"cfgname,omitempty"`
	Cwd   bool     `json:"cwd,omitempty"`
	Top   string   `json:"top,omitempty"`
	Provs []string `json:"provs,omitempty"`
	MPath []string `json:"modpath,omitempty"`
	YPath string   `json:"ypath,omitempty"`
	Scope *Val     `json:"scope,omitempty"`
	X     string   `json:"x,omitempty"`
	Key   string   `json:"key"`
	Opts  *Val     `json:"opts,omitempty"`
	Names []string `json:"names,omitempty"`
	Type  string   `json:"type,omitempty"`
	Types *Val     `json:"types,omitempty"`
	Dflt  *Val     `json:"dflt,omitempty"`
	Over  *Val     `json:"over,omitempty"`
	Defs  *Val     `json:"defs,omitempty"`
	DF    *Val     `json:"df,omitempty"`
	P     string   `json:"p,omitempty"`
	C     *Content `json:"c,omitempty"`
	K     string   `json:"k"`
	V     *Val     `json:"v,omitempty"`
	M     *Val     `json:"m,omitempty"`
	Bind  *Val     `json:"bind,omitempty"`
	Strat string   `json:"strat,omitempty"`
	Vs    []Val    `json:"vs,omitempty"`
	Via   string   `json:"via,omitempty"`
	How   string   `json:"how,omitempty"`
	Trans string   `json:"transport,omitempty"`
	Form  string   `json:"form,omitempty"`
	Pfx   string   `json:"pfx,omitempty"`
	O1    *Val     `json:"o1,omitempty"`
	O2    *Val     `json:"o2,omitempty"`

	// how a server is to be protected and who a client is
	TLS    *Protection `json:"tls,omitempty"`
	Client *Client     `json:"client,omitempty"`

	// the commands; lits and shapes are for the specification only
	Vars      []string        `json:"vars,omitempty"`
	VarFiles  []string        `json:"varfiles,omitempty"`
	FactFiles []string        `json:"factfiles,omitempty"`
	Stdin     *Content        `json:"stdin,omitempty"`
	DText     *string         `json:"dtext,omitempty"`
	Merge     string          `json:"merge,omitempty"`
	Render    string          `json:"render,omitempty"`
	Explain   string          `json:"explain,omitempty"`
	Dialect   string          `json:"dialect,omitempty"`
	All       bool            `json:"all,omitempty"`
	Eq        bool            `json:"eq,omitempty"`
	First     bool            `json:"first,omitempty"`
	Enc       string          `json:"enc,omitempty"`
	Junk      []string        `json:"junk,omitempty"`
	Lits      json.RawMessage `json:"lits,omitempty"`
	Shapes    json.RawMessage `json:"shapes,omitempty"`

	// operations of concurrent threads
	Ths [][]json.RawMessage `json:"ths,omitempty"`
}

// Call is a call of an in-process function
type Call struct {
	F string `json:"f"`
	K string `json:"k"`
	O Val    `json:"o"`
}

// Obs is what was observed when an operation was performed
type Obs struct {
	R     string     `json:"r"`
	V     *Val       `json:"v,omitempty"`
	Log   []LogEntry `json:"log"`
	Calls []Call     `json:"calls"`
	Msg   string     `json:"msg"`
}

// Scenario is a sequence of operations in a world of files
type Scenario struct {
	ID    string            `json:"id"`
	Cmp   string            `json:"cmp"`
	Env   map[string]string `json:"env"`
	Fns   map[string]Fn     `json:"fns"`
	Files []json.RawMessage `json:"files"`
	Ops   []json.RawMessage `json:"ops"`
	Obs   []Obs             `json:"obs"`
	Meta  json.RawMessage   `json:"meta,omitempty"`
}

type runner struct {
	paths
	sc       *Scenario
	sess     map[string]api.Session
	scopes   map[string]dgo.Map // the map that a session was created with
	goScopes map[string]map[string]interface{}
	invs     map[string]api.Invocation
	invOf    map[string]string
	recs     map[string]*recorder
	lock     sync.Mutex
	calls    []Call
	sockets  int
	seen     int // recorded calls of plugins that were seen
	ends     map[string]*ending
	servers  map[string]*server
}

func (r *runner) mkdir(p string) {
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
}

func (r *runner) write(p string, c *Content) {
	p = r.in(p)
	r.mkdir(filepath.Dir(p))
	if c.X != nil {
		r.install(p, c.X)
		return
	}
	_ = os.Remove(p)
	var t string
	if c.Bad != nil {
		t = *c.Bad
	} else if c.Pem != nil {
		t = pemText(c.Pem)
	} else {
		t = r.text(*c.V)
	}
	if err := os.WriteFile(p, []byte(t+"\n"), 0644); err != nil {
		panic(err)
	}
}

func (r *runner) record(f, k string, o dgo.Map) {
	r.lock.Lock()
	defer r.lock.Unlock()
	r.pluginCalls()
	r.calls = append(r.calls, Call{f, k, r.fromDgo(o)})
}

const loKey = `lookup_options`

func (r *runner) behave(name string, f Fn, pc sdk.ProviderContext, key string) dgo.Value {
	sc := pc.(api.ServerContext)
	o := pc.OptionsMap()
	if o == nil {
		o = vf.Map()
	}
	r.record(name, key, o)
	tab := r.toDgo(f.Tab).(dgo.Map)
	switch f.Beh {
	case "table":
		if key == "" {
			return tab
		}
		return tab.Get(key)
	case "null":
		if key == loKey {
			return nil
		}
		return vf.Nil
	case "opts":
		if key == loKey {
			return nil
		}
		return o
	case "opt":
		if key == loKey {
			return nil
		}
		return pc.Option(f.Arg)
	case "err", "errall":
		if key == loKey && f.Beh == "err" {
			return nil
		}
		panic(fmt.Errorf("function %s failed", name))
	case "explain", "explainfor":
		if f.Beh == "explainfor" && key != "" && tab.Get(key) == nil {
			return nil
		}
		sc.Explain(func() string { return f.Arg })
		if key == "" {
			return tab
		}
		return tab.Get(key)
	case "lookup":
		if key == loKey {
			return nil
		}
		return sc.Invocation().Lookup(api.NewKey(f.Arg), nil)
	case "lookupfor":
		if key == loKey || tab.Get(key) == nil {
			return nil
		}
		return sc.Invocation().Lookup(api.NewKey(f.Arg), nil)
	case "interp":
		if key == loKey {
			return nil
		}
		var v dgo.Value = tab
		if key != "" {
			v = tab.Get(key)
		}
		if v == nil {
			return nil
		}
		return sc.Interpolate(v)
	case "put":
		if key == loKey {
			return nil
		}
		v := pc.Option(f.Arg)
		if v == nil {
			v = vf.String(key)
		}
		return sc.Cache(key, v)
	case "putfail":
		if key == loKey {
			return nil
		}
		sc.Cache(key, vf.String(key))
		panic(fmt.Errorf("function %s failed", name))
	case "get":
		if key == loKey {
			return nil
		}
		if v, ok := sc.CachedValue(key); ok {
			return v
		}
	}
	return nil
}

func (r *runner) function(name string) dgo.Value {
	f := r.sc.Fns[name]
	switch f.Kind {
	case "data_hash":
		return vf.Value(func(pc sdk.ProviderContext) dgo.Value { return r.behave(name, f, pc, "") })
	case "data_dig":
		return vf.Value(func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			// the complete key is given: it has one segment unless the function is called with more
			ks := make([]string, key.Len())
			key.EachWithIndex(func(v dgo.Value, i int) { ks[i] = v.String() })
			return r.behave(name, f, pc, strings.Join(ks, "\x00"))
		})
	default:
		return vf.Value(func(pc sdk.ProviderContext, key string) dgo.Value { return r.behave(name, f, pc, key) })
	}
}

func (r *runner) topFunc(name string) sdk.LookupKey {
	switch name {
	case "config":
		return provider.ConfigLookupKey
	case "module":
		return provider.ModuleLookupKey
	case "environment":
		return provider.Environment
	case "scope":
		return provider.ScopeLookupKey
	case "yaml":
		return provider.YamlLookupKey
	case "mux":
		return provider.MuxLookupKey
	}
	f := r.sc.Fns[name]
	return func(pc sdk.ProviderContext, key string) dgo.Value {
		if pc.(api.ServerContext).Invocation().LookupOptionsMode() {
			return nil
		}
		return r.behave(name, f, pc, key)
	}
}

func (r *runner) newSession(op *Op) {
	opts := vf.MutableMap()
	switch {
	case op.Cfg != nil:
		opts.Put(api.HieraConfig, r.in(*op.Cfg))
	case op.Root != nil && !op.Cwd:
		opts.Put(api.HieraRoot, r.in(*op.Root))
	}
	if op.CfgNm != nil {
		opts.Put(api.HieraConfigFileName, *op.CfgNm)
	}
	top := op.Top
	if top == "" {
		top = "config"
	}
	if len(op.Provs) > 0 {
		fs := make([]dgo.Value, len(op.Provs))
		for i, p := range op.Provs {
			fs[i] = vf.Value(r.topFunc(p))
		}
		opts.Put(provider.LookupKeyFunctions, vf.Array(fs))
	}
	if len(op.MPath) > 0 {
		ps := make([]string, len(op.MPath))
		for i, p := range op.MPath {
			ps[i] = r.in(p)
		}
		opts.Put(provider.ModulePath, strings.Join(ps, string(os.PathListSeparator)))
	}
	if op.YPath != "" {
		opts.Put(`path`, r.in(op.YPath))
	}
	if len(r.sc.Fns) > 0 {
		fm := vf.MutableMap()
		for n := range r.sc.Fns {
			fm.Put(n, r.function(n))
		}
		opts.Put(api.HieraFunctions, fm)
	}
	if op.Scope != nil {
		if op.Via == "go" {
			gm := goMap(*op.Scope).(map[string]interface{})
			r.goScopes[op.S] = gm
			opts.Put(api.HieraScope, gm)
		} else {
			sm := r.toMap(op.Scope)
			r.scopes[op.S] = sm
			opts.Put(api.HieraScope, sm)
		}
	}
	var tp sdk.LookupKey
	if !(top == "config" && op.Via == "default") {
		tp = r.topFunc(top)
	}
	if op.Trans != "" {
		opts.Put("pluginTransport", op.Trans)
	}
	opts.Put("unixSocketDir", r.root)
	if op.Via == "try" || op.Via == "do" {
		r.sessionFor(op, tp, opts)
		return
	}
	r.sess[op.S] = session.New(ctxBackground, tp, opts, nil)
}

var ctxBackground = context.Background()

// goMap is the value as native Go maps, slices and scalars
func goMap(v Val) interface{} {
	switch {
	case v.M != nil:
		m := map[string]interface{}{}
		for _, e := range *v.M {
			m[*e[0].S] = goMap(e[1])
		}
		return m
	case v.A != nil:
		a := []interface{}{}
		for _, e := range *v.A {
			a = append(a, goMap(e))
		}
		return a
	case v.S != nil:
		return *v.S
	case v.I != nil:
		return *v.I
	case v.B != nil:
		return *v.B
	}
	return nil
}

func (r *runner) newInvocation(op *Op) {
	var ex api.Explainer
	if op.X != "" {
		rec := &recorder{p: r.paths, opts: op.X == "do" || op.X == "o", only: op.X == "o"}
		rec.real = explain.NewExplainer(rec.opts, rec.only)
		r.recs[op.I] = rec
		ex = rec
	}
	var scope interface{}
	if op.Scope != nil {
		scope = r.toMap(op.Scope)
	}
	r.invs[op.I] = r.sess[op.S].Invocation(scope, ex)
	r.invOf[op.I] = op.S
}

func parseType(s string) dgo.Type {
	if s == "" {
		return nil
	}
	return tf.ParseType(s)
}

// ptr distinguishes found from not found
type outcome struct {
	v     dgo.Value
	found bool
	val   *Val   // the value, where it isn't v
	r     string // what happened when it was neither ok nor nf
	msg   string
}

func found(v dgo.Value) outcome { return outcome{v: v, found: v != nil} }

func (r *runner) perform(op *Op) outcome {
	iv := r.invs[op.I]
	if op.Bind != nil {
		// the operation with another scope in effect
		o := *op
		o.Bind = nil
		var x outcome
		iv.DoWithScope(r.toMap(op.Bind), func() { x = r.perform(&o) })
		return x
	}
	switch op.Op {
	case "session":
		r.newSession(op)
	case "inv":
		r.newInvocation(op)
	case "lookup":
		if op.Via == "hiera" {
			var o interface{}
			if op.Opts != nil {
				o = r.toMap(op.Opts)
			}
			return found(hiera.Lookup(iv, op.Key, nil, o))
		}
		v := iv.Lookup(api.NewKey(op.Key), r.toMap(op.Opts))
		if v != nil && op.Form == "string" {
			return found(vf.String(v.String()))
		}
		return found(v)
	case "lookup2":
		var df dgo.Producer
		if op.DF != nil {
			df = func() dgo.Value {
				r.record("default", "", vf.Map())
				return r.toDgo(*op.DF)
			}
		}
		var dv dgo.Value
		if op.Dflt != nil {
			dv = r.toDgo(*op.Dflt)
		}
		return found(hiera.Lookup2(iv, op.Names, parseType(op.Type), dv, r.toMap(op.Over), r.toMap(op.Defs), r.toMap(op.Opts), df))
	case "lookupall":
		var st dgo.StructMapType
		if op.Types != nil {
			es := make([]string, 0)
			for _, e := range *op.Types.M {
				es = append(es, quote(*e[0].S)+":"+*e[1].S)
			}
			st = tf.ParseType("{" + strings.Join(es, ",") + "}").(dgo.StructMapType)
		}
		return found(hiera.LookupAll(iv, op.Names, st, r.toMap(op.Over), r.toMap(op.Defs), r.toMap(op.Opts)))
	case "interp":
		return found(iv.ServerContext(nil).Interpolate(r.toDgo(*op.V)))
	case "explain":
		x := r.recs[op.I].real
		if op.Form == "text" {
			return found(vf.String(x.String()))
		}
		so := streamer.DefaultOptions()
		so.DedupLevel = streamer.NoDedup
		dc := streamer.DataCollector()
		streamer.New(r.sess[r.invOf[op.I]].AliasMap(), so).Stream(x, dc)
		return found(dc.Value())
	case "write":
		r.write(op.P, op.C)
	case "remove":
		if err := os.Remove(r.in(op.P)); err != nil {
			panic(err)
		}
		// directories exist as long as there are files in them
		for d := filepath.Dir(r.in(op.P)); len(d) > len(r.root); d = filepath.Dir(d) {
			if os.Remove(d) != nil {
				break
			}
		}
	case "mutscope":
		// the map may have been frozen, which also is a way to make sure that it doesn't change
		try := func(f func()) {
			defer func() { _ = recover() }()
			f()
		}
		if m := r.scopes[op.S]; m != nil {
			m.EachValue(func(v dgo.Value) {
				if vm, ok := v.(dgo.Map); ok {
					try(func() { vm.PutAll(r.toMap(op.M)) })
					try(func() { vm.EachKey(func(k dgo.Value) { vm.Put(k, "altered") }) })
				}
			})
			try(func() { m.PutAll(r.toMap(op.M)) })
		}
		if gm := r.goScopes[op.S]; gm != nil {
			for k, v := range gm {
				if vm, ok := v.(map[string]interface{}); ok {
					for n := range vm {
						vm[n] = "altered"
					}
				}
				gm[k] = "altered"
			}
			r.toMap(op.M).EachEntry(func(e dgo.MapEntry) { gm[e.Key().String()] = e.Value().String() })
		}
	case "cacheput":
		return found(iv.ServerContext(nil).Cache(op.K, r.toDgo(*op.V)))
	case "cacheget":
		v, ok := iv.ServerContext(nil).CachedValue(op.K)
		return outcome{v: v, found: ok}
	case "cacheall":
		iv.ServerContext(nil).CacheAll(r.toMap(op.M))
	case "cacheentries":
		m := vf.MutableMap()
		iv.ServerContext(nil).CachedEntries(func(k string, v dgo.Value) { m.Put(k, v) })
		return found(m)
	case "cachecopy":
		sc := iv.ServerContext(nil)
		sc.CachedEntries(func(k string, v dgo.Value) {
			if !strings.HasPrefix(k, op.Pfx) {
				sc.Cache(op.Pfx+k, v)
			}
		})
	case "ctxopts":
		c1 := iv.ServerContext(r.toMap(op.O1))
		c2 := iv.ServerContext(r.toMap(op.O2))
		get := func(c sdk.ProviderContext) dgo.Value {
			if v := c.Option(op.K); v != nil {
				return v
			}
			return vf.String("none")
		}
		return found(vf.Values(get(c1), get(c2), c1.OptionsMap(), c2.ForData().OptionsMap(), c1.ForLookupOptions().OptionsMap(), c2.OptionsMap()))
	case "kill":
		r.sess[op.S].KillPlugins()
	case "end":
		r.end(op.S, op.How)
	case "procs":
		return found(r.processes())
	case "serve":
		return r.serve(op)
	case "req":
		return r.request(op)
	case "cli":
		return r.commandLine(op)
	case "y2j":
		return r.yamlToJSON(op)
	case "parsekey":
		ps := api.NewKey(op.Key).Parts()
		return found(vf.Values(ps...))
	case "dig":
		return found(api.NewKey(op.Key).Dig(session.New(context.Background(), nil, nil, nil).Invocation(nil, nil), r.toDgo(*op.V)))
	case "merge":
		vs := make([]dgo.Value, len(op.Vs))
		for i, v := range op.Vs {
			vs[i] = r.toDgo(v)
			if f, ok := vs[i].(dgo.Freezable); ok {
				f.Freeze()
			}
		}
		ms := merge.GetStrategy(op.Strat, nil)
		inv := session.New(context.Background(), nil, nil, nil).Invocation(nil, nil)
		if len(vs) == 1 {
			vs = append(vs, nil)
		}
		return found(ms.MergeLookup(vs, inv, func(l interface{}) dgo.Value {
			v, _ := l.(dgo.Value)
			return v
		}))
	default:
		panic(fmt.Errorf("driver: unknown op %s", op.Op))
	}
	return outcome{v: vf.Nil, found: true}
}

func (r *runner) attempt(op *Op) (x Obs) {
	defer func() {
		if e := recover(); e != nil {
			x.R = "err"
			x.Msg = r.out(fmt.Sprintf("%v", e))
			if strings.HasPrefix(x.Msg, "driver: ") {
				fmt.Fprintln(os.Stderr, x.Msg)
				os.Exit(3)
			}
		}
	}()
	oc := r.perform(op)
	x.Msg = oc.msg
	if oc.r != "" {
		x.R = oc.r
	} else if oc.val != nil {
		x.R = "ok"
		x.V = oc.val
	} else if oc.found {
		x.R = "ok"
		v := r.fromDgo(oc.v)
		x.V = &v
	} else {
		x.R = "nf"
	}
	return
}

// together performs the operations of several threads concurrently. The threads use different invocations. It
// returns the operations, one thread after the other, with their outcomes, and false when something hangs.
func (r *runner) together(ths [][]json.RawMessage) (ops []json.RawMessage, obs []Obs, ok bool) {
	res := make([][]Obs, len(ths))
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for t := range ths {
		ready.Add(1)
		done.Add(1)
		go func(t int) {
			defer done.Done()
			var os []Op
			for _, ro := range ths[t] {
				var op Op
				must(json.Unmarshal(ro, &op))
				os = append(os, op)
			}
			ready.Done()
			<-start
			for n := range os {
				o := r.attempt(&os[n])
				o.Log = []LogEntry{}
				o.Calls = []Call{}
				if rec := r.recs[os[n].I]; rec != nil {
					o.Log = rec.take()
				}
				res[t] = append(res[t], o)
			}
		}(t)
	}
	ready.Wait()
	close(start)
	all := make(chan struct{})
	go func() { done.Wait(); close(all) }()
	select {
	case <-all:
		ok = true
	case <-time.After(opTimeout):
	}
	for t := range ths {
		ops = append(ops, ths[t]...)
		if ok {
			obs = append(obs, res[t]...)
		}
	}
	for len(obs) < len(ops) {
		obs = append(obs, Obs{R: "hang", Log: []LogEntry{}, Calls: []Call{}})
	}
	return
}

// flat yields the operations without the concurrent groups that they are in
func flat(ops []json.RawMessage) (fs []json.RawMessage) {
	for _, r := range ops {
		var op Op
		must(json.Unmarshal(r, &op))
		if op.Op == "par" {
			for _, th := range op.Ths {
				fs = append(fs, th...)
			}
		} else {
			fs = append(fs, r)
		}
	}
	return
}

func (r *runner) do(op *Op) (o Obs) {
	o.Log = []LogEntry{}
	o.Calls = []Call{}
	r.lock.Lock()
	r.calls = []Call{}
	r.lock.Unlock()
	done := make(chan Obs, 1)
	go func() { done <- r.attempt(op) }()
	select {
	case x := <-done:
		o.R, o.V, o.Msg = x.R, x.V, x.Msg
	case <-time.After(opTimeout):
		o.R = "hang"
		return
	}
	r.lock.Lock()
	r.pluginCalls()
	o.Calls = r.calls
	r.lock.Unlock()
	if rec := r.recs[op.I]; rec != nil {
		o.Log = rec.take()
	}
	return
}

var opTimeout = 20 * time.Second

var hieraEnv = []string{"HIERA_DATADIR", "HIERA_PLUGINDIR", "HIERA_CONFIGFILE"}

// run performs the scenario in a directory of its own. It returns false when an operation hangs
func run(sc *Scenario, dir string) bool {
	r := &runner{paths: paths{dir}, sc: sc, sess: map[string]api.Session{}, scopes: map[string]dgo.Map{}, goScopes: map[string]map[string]interface{}{},
		invs: map[string]api.Invocation{}, invOf: map[string]string{}, recs: map[string]*recorder{}, ends: map[string]*ending{}, servers: map[string]*server{}}
	r.mkdir(dir)
	defer func() { _ = os.RemoveAll(dir) }()
	_ = os.Setenv(pluginRoot, dir)
	r.sockets = sockets()
	defer r.cleanup()
	defer func() {
		for _, s := range r.servers {
			s.stop()
		}
	}()
	_ = os.Chdir(dir)
	defer func() { _ = os.Chdir("/") }()
	for _, e := range hieraEnv {
		_ = os.Unsetenv(e)
	}
	for k, v := range sc.Env {
		_ = os.Setenv(k, r.in(v))
	}
	defer func() {
		for k := range sc.Env {
			_ = os.Unsetenv(k)
		}
	}()
	for _, rf := range sc.Files {
		var pair []json.RawMessage
		must(json.Unmarshal(rf, &pair))
		var p string
		var c Content
		must(json.Unmarshal(pair[0], &p))
		must(json.Unmarshal(pair[1], &c))
		r.write(p, &c)
	}
	sc.Obs = []Obs{}
	ops := sc.Ops
	sc.Ops = nil
	for n, ro := range ops {
		var op Op
		must(json.Unmarshal(ro, &op))
		var o Obs
		if op.Op == "par" {
			pops, obs, ok := r.together(op.Ths)
			sc.Ops = append(sc.Ops, pops...)
			sc.Obs = append(sc.Obs, obs...)
			if ok {
				continue
			}
			o.R = "hang"
		} else {
			o = r.do(&op)
			sc.Ops = append(sc.Ops, ro)
			sc.Obs = append(sc.Obs, o)
		}
		if o.R == "hang" {
			sc.Ops = append(sc.Ops, flat(ops[n+1:])...)
		}
		if o.R == "hang" {
			for len(sc.Obs) < len(sc.Ops) {
				sc.Obs = append(sc.Obs, Obs{R: "hang", Log: []LogEntry{}, Calls: []Call{}})
			}
			return false
		}
	}
	for s := range r.ends {
		r.end(s, "return")
	}
	for _, s := range r.sess {
		s.KillPlugins()
	}
	return true
}

func must(err error) {
	if err != nil {
		panic(fmt.Errorf("driver: %v", err))
	}
}
