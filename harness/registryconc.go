package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/session"
)

const (
	regFine  = 9
	regError = 99
)

// RegistryAct is a step of a schedule: "call", thread T needs a function of executable C or, when that is 0, ends the
// processes, and "say", a process that was started announces itself (C = 1) or fails to (C = 2)
type RegistryAct struct {
	A string `json:"a"`
	T int    `json:"t"`
	C int    `json:"c"`
}

// RegistryEvent is what happened: call, started, said, ret, left, stuck
type RegistryEvent struct {
	E string `json:"e"`
	T int    `json:"t"`
	C int    `json:"c"`
	K int    `json:"k"`
}

// RegistryHistory is a schedule and what happened when it was followed
type RegistryHistory struct {
	ID     string          `json:"id"`
	Settle bool            `json:"settle"`
	Bad    int             `json:"bad"` // the way in which starts fail
	Acts   []RegistryAct   `json:"acts"`
	Events []RegistryEvent `json:"events"`
}

var badAnnouncements = []string{"exit", "garbage", "version", "badnames", "closed"}

type gate struct {
	exe int
	w   *os.File
}

type regController struct {
	h     *RegistryHistory
	pipes [3]string
	gates []gate
	rets  chan RegistryEvent
	cmds  []chan int
	busy  []bool
}

func (c *regController) event(e RegistryEvent) { c.h.Events = append(c.h.Events, e) }

func (c *regController) newPipe(x int) {
	must(syscall.Mkfifo(c.pipes[x]+".new", 0644))
	must(os.Rename(c.pipes[x]+".new", c.pipes[x]))
}

// poll sees which processes were started and who returned
func (c *regController) poll() bool {
	seen := false
	for x := 1; x <= 2; x++ {
		if fd, err := syscall.Open(c.pipes[x], syscall.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
			c.gates = append(c.gates, gate{x, os.NewFile(uintptr(fd), c.pipes[x])})
			c.newPipe(x)
			c.event(RegistryEvent{E: "started", C: x})
			seen = true
		}
	}
	for {
		select {
		case e := <-c.rets:
			c.busy[e.T] = false
			c.event(e)
			seen = true
		default:
			return seen
		}
	}
}

func (c *regController) wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if c.poll() {
			end = time.Now().Add(d)
			continue
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}

func (c *regController) idle() bool {
	for _, b := range c.busy {
		if b {
			return false
		}
	}
	return true
}

func (c *regController) say(k int) {
	g := c.gates[0]
	c.gates = c.gates[1:]
	c.event(RegistryEvent{E: "said", C: g.exe, K: k})
	s := "ok"
	if k != 1 {
		s = badAnnouncements[c.h.Bad%len(badAnnouncements)]
	}
	_, _ = g.w.WriteString(s)
	_ = g.w.Close()
}

func (h *RegistryHistory) perform(dir string) {
	must(os.MkdirAll(dir, 0755))
	defer func() { _ = os.RemoveAll(dir) }()
	must(os.Setenv(pluginRoot, dir))
	r := &runner{paths: paths{dir}}
	defer r.cleanup()
	c := &regController{h: h, rets: make(chan RegistryEvent, 1000)}
	for x := 1; x <= 2; x++ {
		c.pipes[x] = filepath.Join(dir, fmt.Sprintf("gate%d", x))
		c.newPipe(x)
		n := fmt.Sprintf("p%d", x)
		must(os.MkdirAll(filepath.Join(dir, n), 0755))
		k, v := "k", int64(x)
		tab := Val{M: &[][]Val{{{S: &k}, {I: &v}}}}
		r.install(filepath.Join(dir, n, "p"), &Exe{Fns: map[string]Fn{"f": {Kind: "lookup_key", Beh: "table", Tab: tab}, "g": {Kind: "lookup_key", Beh: "table", Tab: tab}}, Start: []string{"gate:" + c.pipes[x]}, Stop: "ok"})
	}
	must(os.WriteFile(filepath.Join(dir, "hiera.yaml"), []byte("version: 5\nhierarchy: [{name: x, lookup_key: \"%{fn}\", plugindir: \""+dir+"/%{exe}\", pluginfile: p}]\n"), 0644))
	ss := session.New(ctxBackground, nil, vf.Map(api.HieraRoot, dir, "pluginTransport", []string{"unix", "tcp"}[h.Bad%2], "unixSocketDir", dir), nil)
	threads := 0
	for _, a := range h.Acts {
		if a.T > threads {
			threads = a.T
		}
	}
	c.busy = make([]bool, threads+1)
	c.cmds = make([]chan int, threads+1)
	for t := 1; t <= threads; t++ {
		cmd := make(chan int, 1)
		c.cmds[t] = cmd
		go func(t int) {
			ivs := map[int]api.Invocation{}
			for e := range cmd {
				ret := RegistryEvent{E: "ret", T: t}
				func() {
					defer func() {
						if e := recover(); e != nil {
							ret.C = regError
						}
					}()
					if e == 0 {
						ss.KillPlugins()
						ret.C = regFine
						return
					}
					iv := ivs[e]
					if iv == nil {
						iv = ss.Invocation(map[string]string{"fn": []string{"f", "g"}[t%2], "exe": fmt.Sprintf("p%d", e)}, nil)
						ivs[e] = iv
					}
					if v := iv.Lookup(api.NewKey("k"), nil); v != nil {
						ret.C = int(num(v))
					}
				}()
				c.rets <- ret
			}
		}(t)
	}
	settle := func() {
		if h.Settle {
			n := len(c.gates)
			c.wait(15*time.Millisecond, func() bool { return c.idle() || len(c.gates) > n })
		}
	}
	for _, a := range h.Acts {
		switch a.A {
		case "call":
			// the thread is still busy when the order in which threads got along is another one
			if !c.wait(100*time.Millisecond, func() bool { return !c.busy[a.T] }) {
				continue
			}
			c.event(RegistryEvent{E: "call", T: a.T, C: a.C})
			c.busy[a.T] = true
			c.cmds[a.T] <- a.C
			settle()
		case "say":
			if c.wait(500*time.Millisecond, func() bool { return len(c.gates) > 0 || c.idle() }) && len(c.gates) > 0 {
				c.say(a.C)
				settle()
			}
		}
	}
	for !c.idle() {
		if !c.wait(5*time.Second, func() bool { return len(c.gates) > 0 || c.idle() }) {
			break
		}
		if len(c.gates) > 0 {
			c.say(1)
		}
	}
	stuck := false
	for t, b := range c.busy {
		if b {
			c.event(RegistryEvent{E: "stuck", T: t})
			stuck = true
		} else if t > 0 {
			close(c.cmds[t])
		}
	}
	if !stuck {
		ps := r.processes().(dgo.Map)
		for x := 1; x <= 2; x++ {
			e := RegistryEvent{E: "left", C: x}
			if a, ok := ps.Get(filepath.Join(dir, fmt.Sprintf("p%d/p", x))).(dgo.Array); ok {
				e.K = int(num(a.Get(1)) + num(a.Get(2)))
			}
			c.event(e)
		}
		ss.KillPlugins()
	}
	for _, g := range c.gates {
		_ = g.w.Close()
	}
}

func registryconc(in, out, scratch string) {
	f, err := os.Create(out)
	must(err)
	defer f.Close()
	stuck := 0
	for i, l := range readLines(in) {
		var h RegistryHistory
		must(json.Unmarshal(l, &h))
		h.Events = []RegistryEvent{}
		if stuck < 3 { // enough is known
			h.perform(filepath.Join(scratch, fmt.Sprint(i)))
			if n := len(h.Events); n > 0 && h.Events[n-1].E == "stuck" {
				stuck++
			}
		}
		bs, err := json.Marshal(&h)
		must(err)
		_, err = f.Write(append(bs, '\n'))
		must(err)
	}
}
