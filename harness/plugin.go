package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/hiera"
	sdk "github.com/lyraproj/hierasdk/hiera"
	"github.com/lyraproj/hierasdk/register"
	"github.com/lyraproj/hierasdk/routes"
)

// Exe describes a plugin executable
type Exe struct {
	Fns   map[string]Fn `json:"fns"`
	Start []string      `json:"start"`
	Stop  string        `json:"stop"`
}

// pluginRoot is set in the environment of a plugin: the root of the scenario
const pluginRoot = "HV_PLUGIN_ROOT"

func sidecar(root, exe string) string {
	return filepath.Join(root, ".plugins", url.QueryEscape(exe))
}

// install makes an executable
func (r *runner) install(p string, x *Exe) {
	self, err := os.Executable()
	must(err)
	_ = os.Remove(p)
	must(os.Symlink(self, p))
	r.mkdir(filepath.Join(r.root, ".plugins"))
	bs, err := json.Marshal(x)
	must(err)
	must(os.WriteFile(sidecar(r.root, p), bs, 0644))
}

func appendLine(p, l string) {
	f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	_, err = f.WriteString(l + "\n")
	must(err)
	must(f.Close())
}

func lines(p string) []string {
	bs, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(bs), "\n"), "\n")
}

// plugin is what an executable does. It doesn't return when this process is one
func plugin() {
	root := os.Getenv(pluginRoot)
	if root == "" || os.Getenv("HIERA_MAGIC_COOKIE") == "" {
		return
	}
	bs, err := os.ReadFile(sidecar(root, os.Args[0]))
	if err != nil {
		return
	}
	var x Exe
	must(json.Unmarshal(bs, &x))
	starts := filepath.Join(root, ".starts")
	n := 0
	for _, l := range lines(starts) {
		if strings.HasPrefix(l, os.Args[0]+"\t") {
			n++
		}
	}
	if n >= len(x.Start) {
		n = len(x.Start) - 1
	}
	appendLine(starts, os.Args[0]+"\t"+strconv.Itoa(os.Getpid()))
	servePlugin(root, &x, x.Start[n])
	os.Exit(0)
}

func forever() {
	time.Sleep(100 * time.Second) // should the session not end this process
	os.Exit(0)
}

func servePlugin(root string, x *Exe, start string) {
	if os.Getenv("HIERA_MAGIC_COOKIE") != strconv.Itoa(sdk.MagicCookie) {
		os.Exit(1)
	}
	quit := make(chan os.Signal, 1)
	if x.Stop == "ignore" || start == "silentdeaf" {
		signal.Ignore(syscall.SIGINT, syscall.SIGTERM)
	} else {
		signal.Notify(quit, os.Interrupt)
	}
	if strings.HasPrefix(start, "gate:") {
		bs, err := os.ReadFile(start[5:])
		must(err)
		start = string(bs)
	}
	if x.Stop == "child" {
		c := exec.Command("/bin/sleep", "60")
		c.Stdout = os.Stdout
		c.Stderr = os.Stderr
		must(c.Start())
		appendLine(filepath.Join(root, ".children"), strconv.Itoa(c.Process.Pid))
	}
	switch start {
	case "exit":
		fmt.Fprintln(os.Stderr, "cannot start")
		os.Exit(1)
	case "garbage":
		fmt.Println("this isn't JSON")
		forever()
	case "array":
		fmt.Println("[1, 2]")
		forever()
	case "partial":
		fmt.Print(`{"version": 1, "addr`)
		os.Exit(0)
	case "dribble":
		fmt.Print(`{"version": 1, "addr`)
		forever()
	case "closed":
		_ = os.Stdout.Close()
		forever()
	case "silent", "silentdeaf":
		forever()
	}

	var ln net.Listener
	var err error
	if os.Getenv("HIERA_PLUGIN_TRANSPORT") == "unix" && start != "nonet" {
		ln, err = net.Listen("unix", filepath.Join(os.Getenv("HIERA_PLUGIN_SOCKET_DIR"), fmt.Sprintf("p%d.sock", os.Getpid())))
	} else {
		ln, err = net.Listen("tcp", "127.0.0.1:0")
	}
	must(err)
	p := paths{root}
	for n := range x.Fns {
		p.register(n, x.Fns[n])
	}
	h, fns := routes.Register()
	if start == "exited" {
		_ = ln.Close()
	}
	if start == "noisy" {
		fmt.Fprintln(os.Stderr, strings.Repeat("e", 200000))
		fmt.Fprint(os.Stderr, strings.Repeat("e\n", 20000))
	}
	fm := map[string]interface{}{}
	must(json.Unmarshal(streamer.MarshalJSON(fns, nil), &fm))
	meta := map[string]interface{}{"version": sdk.ProtoVersion, "network": ln.Addr().Network(), "address": ln.Addr().String(), "functions": fm}
	switch start {
	case "nonet":
		delete(meta, "network")
	case "version":
		meta["version"] = sdk.ProtoVersion + 1
	case "noversion":
		delete(meta, "version")
	case "noaddress":
		delete(meta, "address")
	case "nofunctions":
		delete(meta, "functions")
	case "badfunctions":
		meta["functions"] = []string{"a"}
	case "badnames":
		meta["functions"] = map[string]interface{}{"lookup_key": "f"}
	case "badname":
		meta["functions"] = map[string]interface{}{"lookup_key": []interface{}{"f", 3}}
	}
	bs, err := json.Marshal(meta)
	must(err)
	fmt.Println(string(bs))
	if start == "exited" {
		os.Exit(0)
	}
	if start == "noisy" {
		fmt.Print(strings.Repeat("x", 300000))
	}
	srv := http.Server{Handler: p.handler(x, h)}
	go func() {
		<-quit
		os.Exit(0)
	}()
	go func() {
		time.Sleep(200 * time.Second)
		os.Exit(0)
	}()
	must(srv.Serve(ln))
}

// handler records the calls and responds to those that aren't responded to properly
func (p paths) handler(x *Exe, h http.Handler) http.HandlerFunc {
	return func(w http.ResponseWriter, r *http.Request) {
		q := r.URL.Query()
		segs := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
		kind, name := segs[0], segs[len(segs)-1]
		key := q.Get("key")
		if kind == "data_dig" {
			var ks []interface{}
			must(json.Unmarshal([]byte(key), &ks))
			ss := make([]string, len(ks))
			for i := range ks {
				ss[i] = fmt.Sprint(ks[i])
			}
			key = strings.Join(ss, "\x00")
		}
		o := sdk.NewProviderContext(q).OptionsMap()
		if o == nil {
			o = vf.Map()
		}
		c, err := json.Marshal(Call{name, key, p.fromDgo(o)})
		must(err)
		appendLine(filepath.Join(p.root, ".calls"), string(c))
		f := x.Fns[name]
		if f.Kind != kind || key == loKey {
			h.ServeHTTP(w, r)
			return
		}
		switch f.Beh {
		case "status":
			n, err := strconv.Atoi(f.Arg)
			must(err)
			w.WriteHeader(n)
			if n != http.StatusNoContent && n != http.StatusNotModified {
				_, _ = w.Write([]byte(`{"a": "status"}`))
			}
		case "garbage":
			_, _ = w.Write([]byte(f.Arg))
		case "empty":
		case "null":
			_, _ = w.Write([]byte("null\n"))
		case "truncated":
			w.Header().Set("Content-Length", "1000")
			_, _ = w.Write([]byte(`"cut`))
			panic(http.ErrAbortHandler)
		case "drop":
			panic(http.ErrAbortHandler)
		case "slow":
			time.Sleep(9 * time.Second)
			_, _ = w.Write([]byte(`"late"`))
		case "die":
			os.Exit(1)
		default:
			h.ServeHTTP(w, r)
		}
	}
}

func (p paths) pluginBehave(n string, f Fn, pc sdk.ProviderContext, key string) dgo.Value {
	o := pc.OptionsMap()
	if o == nil {
		o = vf.Map()
	}
	tab := p.toDgo(f.Tab).(dgo.Map)
	switch f.Beh {
	case "table":
		if key == "" {
			return tab
		}
		return tab.Get(key)
	case "opts":
		if key != loKey {
			return o
		}
	case "opt":
		if key != loKey {
			return pc.Option(f.Arg)
		}
	case "err", "errall":
		if key != loKey || f.Beh == "errall" {
			panic(fmt.Errorf("function %s failed", n))
		}
	}
	return nil
}

func (p paths) register(n string, f Fn) {
	switch f.Kind {
	case "data_hash":
		register.DataHash(n, func(pc sdk.ProviderContext) dgo.Map {
			m, _ := p.pluginBehave(n, f, pc, "").(dgo.Map)
			return m
		})
	case "data_dig":
		register.DataDig(n, func(pc sdk.ProviderContext, key dgo.Array) dgo.Value {
			ks := make([]string, key.Len())
			key.EachWithIndex(func(v dgo.Value, i int) { ks[i] = v.String() })
			return p.pluginBehave(n, f, pc, strings.Join(ks, "\x00"))
		})
	default:
		register.LookupKey(n, func(pc sdk.ProviderContext, key string) dgo.Value { return p.pluginBehave(n, f, pc, key) })
	}
}

// ---- what the driver sees of it ------------------------------------------

// pluginCalls appends the calls that plugins recorded. The lock is held
func (r *runner) pluginCalls() {
	ls := lines(filepath.Join(r.root, ".calls"))
	for ; r.seen < len(ls); r.seen++ {
		var c Call
		must(json.Unmarshal([]byte(ls[r.seen]), &c))
		r.calls = append(r.calls, c)
	}
}

func procState(pid string) byte {
	bs, err := os.ReadFile("/proc/" + pid + "/stat")
	if err != nil {
		return 0
	}
	s := string(bs)
	return s[strings.LastIndexByte(s, ')')+2]
}

func (r *runner) processes() dgo.Value {
	type pc struct{ starts, run, zombie int64 }
	count := func() map[string]pc {
		m := map[string]pc{}
		for _, l := range lines(filepath.Join(r.root, ".starts")) {
			f := strings.Split(l, "\t")
			c := m[f[0]]
			c.starts++
			switch procState(f[1]) {
			case 0, 'X':
			case 'Z':
				c.zombie++
			default:
				c.run++
			}
			m[f[0]] = c
		}
		return m
	}
	same := 0
	last := count()
	base := r.sockets
	for i := 0; i < 150 && same < 8; i++ {
		time.Sleep(10 * time.Millisecond)
		now := count()
		if fmt.Sprint(now) == fmt.Sprint(last) {
			same++
		} else {
			same = 0
		}
		last = now
	}
	ks := make([]string, 0)
	for k := range last {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	m := vf.MutableMap()
	for _, k := range ks {
		c := last[k]
		m.Put(k, vf.Values(c.starts, c.run, c.zombie))
	}
	if len(r.servers) > 0 {
		// the connections to a server are those of this process
		base = sockets()
	}
	m.Put("connections", sockets()-base)
	return m
}

// cleanup ends what the session should have ended and what it cannot
func (r *runner) cleanup() {
	for _, l := range lines(filepath.Join(r.root, ".starts")) {
		f := strings.Split(l, "\t")
		pid, err := strconv.Atoi(f[1])
		if err != nil {
			continue
		}
		cl, err := os.ReadFile("/proc/" + f[1] + "/cmdline")
		if err == nil && strings.HasPrefix(string(cl), r.root) {
			_ = syscall.Kill(pid, syscall.SIGKILL)
		}
	}
	for _, l := range lines(filepath.Join(r.root, ".children")) {
		cl, err := os.ReadFile("/proc/" + l + "/cmdline")
		if pid, e2 := strconv.Atoi(l); e2 == nil && err == nil && strings.HasPrefix(string(cl), "/bin/sleep") {
			_ = syscall.Kill(pid, syscall.SIGKILL)
		}
	}
}

// sockets counts the connections that this process holds
func sockets() (n int) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return
}

// ending is a session that was created for a function
type ending struct {
	how  chan string
	done chan error
}

// sessionFor creates a session with a function that remains active until the session is ended
func (r *runner) sessionFor(op *Op, tp sdk.LookupKey, opts dgo.Map) {
	e := &ending{make(chan string, 1), make(chan error, 1)}
	got := make(chan api.Session, 1)
	body := func(s api.Session) error {
		got <- s
		switch <-e.how {
		case "fail":
			return fmt.Errorf("the function fails")
		case "panic":
			panic(fmt.Errorf("the function panics"))
		}
		return nil
	}
	go func() {
		defer func() {
			if x := recover(); x != nil {
				e.done <- fmt.Errorf("%v", x)
			}
		}()
		if op.Via == "do" {
			hiera.DoWithParent(ctxBackground, tp, opts, func(s api.Session) {
				if err := body(s); err != nil {
					panic(err)
				}
			})
			e.done <- nil
		} else {
			e.done <- hiera.TryWithParent(ctxBackground, tp, opts, body)
		}
	}()
	select {
	case s := <-got:
		r.sess[op.S] = s
		r.ends[op.S] = e
	case err := <-e.done:
		panic(err)
	}
}

func (r *runner) end(s, how string) {
	e := r.ends[s]
	delete(r.ends, s)
	e.how <- how
	if err := <-e.done; err != nil {
		panic(err)
	}
}
