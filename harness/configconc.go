package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/provider"
	"github.com/lyraproj/hiera/session"
	sdk "github.com/lyraproj/hierasdk/hiera"
)

// ConfigAct is what the controller does: call a lookup of thread T, or serve the content C to the one who reads
type ConfigAct struct {
	A     string `json:"a"`
	T     int    `json:"t"`
	Fresh bool   `json:"fresh"`
	C     int    `json:"c"`
}

// ConfigEvent is an event of the history: call, open, serve, ret or stuck
type ConfigEvent struct {
	E     string `json:"e"`
	T     int    `json:"t"`
	Fresh bool   `json:"fresh"`
	C     int    `json:"c"`
}

// ConfigHistory is a schedule of lookups by concurrent invocations of one session that reads its config from a pipe
type ConfigHistory struct {
	ID     string        `json:"id"`
	Kind   string        `json:"kind"`   // config or module
	Settle bool          `json:"settle"` // whether the controller waits for things to settle after each act
	Bad    int           `json:"bad"`    // the way in which bad content is bad
	Acts   []ConfigAct   `json:"acts"`
	Events []ConfigEvent `json:"events"`
}

const (
	cfgBad   = 90
	cfgUnres = 91
	cfgError = 99
)

var badConfigs = []string{"version: 4\n", "[1]\n", "hierarchy: {\n", "version: 5\nbogus: 1\n", "version: 5\nhierarchy: {}\n"}

type controller struct {
	h      *ConfigHistory
	pipe   string
	reader *os.File // somebody reads, and waits for content
	cmds   []chan bool
	rets   chan ConfigEvent
	busy   []bool
	n      int
}

func (c *controller) event(e ConfigEvent) { c.h.Events = append(c.h.Events, e) }

func (c *controller) newPipe() {
	must(syscall.Mkfifo(c.pipe+".new", 0644))
	must(os.Rename(c.pipe+".new", c.pipe))
}

// poll sees if somebody reads and if somebody returned
func (c *controller) poll() bool {
	seen := false
	if c.reader == nil {
		if fd, err := syscall.Open(c.pipe, syscall.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
			c.reader = os.NewFile(uintptr(fd), c.pipe)
			c.newPipe() // for the next one to read
			c.event(ConfigEvent{E: "open"})
			seen = true
		}
	}
	for {
		select {
		case e := <-c.rets:
			c.busy[e.T] = false
			c.event(e)
			seen = true
		default:
			return seen
		}
	}
}

// wait polls until the condition is true, or nothing happens for the time
func (c *controller) wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if c.poll() {
			end = time.Now().Add(d)
			continue
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(100 * time.Microsecond)
	}
	return true
}

func (c *controller) serve(v int) {
	var t string
	switch v {
	case cfgBad:
		t = badConfigs[c.h.Bad%len(badConfigs)]
	case cfgUnres:
		t = "version: 5\nhierarchy: [{name: x, path: \"%{nosuch('x')}.yaml\"}]\n"
	default:
		t = fmt.Sprintf("version: 5\nhierarchy: [{name: x, path: v%d.yaml}]\n", v)
	}
	c.event(ConfigEvent{E: "serve", C: v})
	_, _ = c.reader.WriteString(t)
	_ = c.reader.Close()
	c.reader = nil
}

func (h *ConfigHistory) perform(dir string) {
	must(os.MkdirAll(dir, 0755))
	defer func() { _ = os.RemoveAll(dir) }()
	root := dir
	key := "k"
	if h.Kind == "module" {
		root = filepath.Join(dir, "modules", "mymod")
		key = "mymod::k"
	}
	must(os.MkdirAll(filepath.Join(root, "data"), 0755))
	for v := 1; v < 10; v++ {
		must(os.WriteFile(filepath.Join(root, "data", fmt.Sprintf("v%d.yaml", v)), []byte(fmt.Sprintf("%s: %d\n", key, v)), 0644))
	}
	c := &controller{h: h, pipe: filepath.Join(root, "hiera.yaml"), rets: make(chan ConfigEvent, 1000)}
	c.newPipe()
	var ss api.Session
	if h.Kind == "module" {
		ss = session.New(context.Background(), provider.MuxLookupKey, vf.Map(api.HieraRoot, filepath.Join(dir, "none"), provider.ModulePath, filepath.Join(dir, "modules"),
			provider.LookupKeyFunctions, vf.Values(sdk.LookupKey(provider.ModuleLookupKey))), nil)
	} else {
		ss = session.New(context.Background(), nil, vf.Map(api.HieraRoot, dir), nil)
	}
	threads := 0
	for _, a := range h.Acts {
		if a.T > threads {
			threads = a.T
		}
	}
	c.busy = make([]bool, threads+1)
	c.cmds = make([]chan bool, threads+1)
	for t := 1; t <= threads; t++ {
		cmd := make(chan bool, 1)
		c.cmds[t] = cmd
		go func(t int) {
			iv := ss.Invocation(nil, nil)
			for fresh := range cmd {
				if fresh {
					iv = ss.Invocation(nil, nil)
				}
				r := ConfigEvent{E: "ret", T: t}
				func() {
					defer func() {
						if e := recover(); e != nil {
							r.C = cfgError
						}
					}()
					if v := iv.Lookup(api.NewKey(key), nil); v != nil {
						r.C = int(num(v))
					}
				}()
				c.rets <- r
			}
		}(t)
	}
	idle := func() bool {
		for _, b := range c.busy {
			if b {
				return false
			}
		}
		return true
	}
	settle := func() {
		if h.Settle {
			c.wait(3*time.Millisecond, func() bool { return c.reader != nil && c.n < 2 || idle() })
		}
	}
	for _, a := range h.Acts {
		switch a.A {
		case "call":
			// the thread is still busy when the order in which threads got along is another one
			if !c.wait(20*time.Millisecond, func() bool { return !c.busy[a.T] }) {
				continue
			}
			c.event(ConfigEvent{E: "call", T: a.T, Fresh: a.Fresh})
			c.busy[a.T] = true
			c.n = 0
			for _, b := range c.busy {
				if b {
					c.n++
				}
			}
			c.cmds[a.T] <- a.Fresh
			settle()
		case "serve":
			if c.wait(500*time.Millisecond, func() bool { return c.reader != nil || idle() }) && c.reader != nil {
				c.serve(a.C)
				settle()
			}
		}
	}
	// whoever still wants to read gets something to read, and everybody returns
	for !idle() {
		if !c.wait(2*time.Second, func() bool { return c.reader != nil || idle() }) {
			break
		}
		if c.reader != nil {
			c.serve(8)
		}
	}
	c.wait(time.Millisecond, func() bool { return false })
	for t, b := range c.busy {
		if b {
			c.event(ConfigEvent{E: "stuck", T: t})
		} else if t > 0 {
			close(c.cmds[t])
		}
	}
	if c.reader != nil {
		_ = c.reader.Close()
	}
}

func configconc(in, out, scratch string) {
	f, err := os.Create(out)
	must(err)
	defer f.Close()
	stuck := 0
	for i, l := range readLines(in) {
		var h ConfigHistory
		must(json.Unmarshal(l, &h))
		h.Events = []ConfigEvent{}
		if stuck < 5 { // enough is known
			h.perform(filepath.Join(scratch, fmt.Sprint(i)))
			if n := len(h.Events); n > 0 && h.Events[n-1].E == "stuck" {
				stuck++
			}
		}
		bs, err := json.Marshal(&h)
		must(err)
		_, err = f.Write(append(bs, '\n'))
		must(err)
	}
}
