package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/dgoyaml/yaml"
)

// The commands are the real ones, built by the check that uses this driver
const (
	restCommand = "HV_REST"
	cliCommand  = "HV_CLI"
	y2jCommand  = "HV_Y2J"
)

// server is a process that runs the REST server
type server struct {
	cmd    *exec.Cmd
	base   string
	client *http.Client
	errs   bytes.Buffer
	exited chan struct{}
}

// command makes a command that runs in the root of the scenario with precisely the environment of the scenario
func (r *runner) command(ctx context.Context, bin string, args []string) *exec.Cmd {
	exe := os.Getenv(bin)
	if exe == "" {
		panic(errors.New("driver: no command " + bin))
	}
	c := exec.CommandContext(ctx, exe, args...)
	c.Dir = r.root
	c.Env = []string{"TMPDIR=" + r.root, pluginRoot + "=" + r.root}
	if v := os.Getenv("GORACE"); v != "" {
		c.Env = append(c.Env, "GORACE="+v)
	}
	for k, v := range r.sc.Env {
		c.Env = append(c.Env, k+"="+r.in(v))
	}
	return c
}

func (r *runner) common(op *Op) (args []string) {
	if op.Cfg != nil {
		args = append(args, "--config", r.in(*op.Cfg))
	}
	for _, v := range op.Vars {
		args = append(args, "--var", r.in(v))
	}
	for _, v := range op.VarFiles {
		args = append(args, "--vars", r.in(v))
	}
	return
}

// serve starts a REST server and waits until it accepts connections
func (r *runner) serve(op *Op) outcome {
	for try := 0; ; try++ {
		// a loopback address for each driver, so that they don't compete for ports
		pid := os.Getpid()
		addr := fmt.Sprintf("127.%d.%d.%d", 1+pid/62500%250, pid/250%250, 1+pid%250)
		port := 20000 + rand.New(rand.NewSource(time.Now().UnixNano())).Intn(40000)
		args := append(append(r.common(op), "--addr", addr, "--port", strconv.Itoa(port)), r.protection(op.TLS)...)
		tr := &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 32}
		s := &server{base: fmt.Sprintf("http://%s:%d", addr, port), exited: make(chan struct{})}
		s.client = &http.Client{Transport: tr, Timeout: opTimeout * 3 / 4,
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		s.cmd = r.command(context.Background(), restCommand, args)
		s.cmd.Stdout = &s.errs
		s.cmd.Stderr = &s.errs
		must(s.cmd.Start())
		go func() { _ = s.cmd.Wait(); close(s.exited) }()
		for end := time.Now().Add(opTimeout / 2); ; {
			c, err := net.DialTimeout("tcp", s.base[strings.Index(s.base, "//")+2:], time.Second)
			if err == nil {
				_ = c.Close()
				break
			}
			stopped := false
			select {
			case <-s.exited:
				stopped = true
			case <-time.After(3 * time.Millisecond):
			}
			if stopped || time.Now().After(end) {
				s.stop()
				t := s.errs.String()
				if strings.Contains(t, "address already in use") && try < 5 {
					s = nil
					break
				}
				if op.TLS != nil && stopped {
					if strings.TrimSpace(t) == "" {
						return outcome{r: "failure without a message"}
					}
					return outcome{r: "err", msg: r.out(head(t))}
				}
				panic(errors.New("the server doesn't start: " + head(t)))
			}
		}
		if s != nil {
			r.servers[op.S] = s
			return found(vf.Nil)
		}
	}
}

func (s *server) stop() {
	_ = s.cmd.Process.Kill()
	<-s.exited
	s.client.CloseIdleConnections()
}

// request performs a GET. The outcome is told by the status
func (r *runner) request(op *Op) outcome {
	s := r.servers[op.S]
	if s == nil {
		return outcome{r: "no server"}
	}
	// the key is either escaped as much as possible or no more than needed
	path := "/lookup/" + url.PathEscape(r.in(op.Key))
	if op.Enc == "min" {
		path = (&url.URL{Path: "/lookup/" + r.in(op.Key)}).EscapedPath()
	}
	q := make([]string, 0)
	add := func(n, v string) { q = append(q, n+"="+url.QueryEscape(r.in(v))) }
	if op.DText != nil {
		add("default", *op.DText)
	}
	if op.Merge != "" {
		add("merge", op.Merge)
	}
	if op.Type != "" {
		add("type", op.Type)
	}
	for _, v := range op.Vars {
		add("var", v)
	}
	// what else there is in the query
	q = append(q, op.Junk...)
	u := s.base + path
	if len(q) > 0 {
		u += "?" + strings.Join(q, "&")
	}
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		panic(fmt.Errorf("driver: %v", err))
	}
	client := s.client
	if op.Client != nil {
		client = op.Client.dial(s.client)
		defer client.CloseIdleConnections()
		if op.Client.TLS {
			req.URL.Scheme = "https"
		}
	}
	resp, err := client.Do(req)
	if err != nil {
		select {
		case <-s.exited:
			return outcome{r: "server ended: " + head(s.errs.String())}
		default:
		}
		if op.Client != nil && !os.IsTimeout(err) {
			return outcome{r: "refused", msg: err.Error()}
		}
		return outcome{r: "no response", msg: err.Error()}
	}
	defer resp.Body.Close()
	bs, err := ioutil.ReadAll(resp.Body)
	switch {
	case err != nil:
		return outcome{r: "incomplete response", msg: err.Error()}
	case op.Client != nil && !op.Client.TLS && resp.StatusCode == http.StatusBadRequest && strings.Contains(string(bs), "HTTPS"):
		return outcome{r: "refused", msg: head(string(bs))}
	case resp.StatusCode == http.StatusOK:
		if ct := resp.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			return outcome{r: "content type " + ct}
		}
		v, ok := r.readJSON(bs)
		if !ok {
			return outcome{r: "malformed", msg: head(string(bs))}
		}
		return outcome{val: &v}
	case resp.StatusCode == http.StatusNotFound:
		return outcome{}
	case resp.StatusCode == http.StatusInternalServerError:
		if len(bytes.TrimSpace(bs)) == 0 {
			return outcome{r: "error without a message"}
		}
		return outcome{r: "err", msg: r.out(head(string(bs)))}
	}
	return outcome{r: fmt.Sprintf("status %d", resp.StatusCode), msg: head(string(bs))}
}

// readJSON reads a JSON document, followed by nothing but space
func (r *runner) readJSON(bs []byte) (v Val, ok bool) {
	if v, ok = r.plainJSON(bs); ok {
		v = rich(v)
	}
	return
}

// plainJSON is like readJSON, but all maps are what they are
func (r *runner) plainJSON(bs []byte) (v Val, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	d := json.NewDecoder(bytes.NewReader(bs))
	d.UseNumber()
	var x, y interface{}
	if d.Decode(&x) != nil || d.Decode(&y) != io.EOF {
		return
	}
	return r.fromDgo(vf.Value(x)), true
}

// rich is the value that data with tagged maps stand for
func rich(v Val) Val {
	switch {
	case v.A != nil:
		a := make([]Val, len(*v.A))
		for i, e := range *v.A {
			a[i] = rich(e)
		}
		return Val{A: &a}
	case v.M != nil:
		m := make([][]Val, 0)
		var tag, val *Val
		for _, e := range *v.M {
			x := rich(e[1])
			if e[0].S != nil && *e[0].S == "__type" {
				tag = &x
			}
			if e[0].S != nil && *e[0].S == "__value" {
				val = &x
			}
			m = append(m, []Val{rich(e[0]), x})
		}
		if tag != nil && val != nil && tag.S != nil {
			if *tag.S == "sensitive" {
				return Val{Z: val}
			}
			if *tag.S == "map" && val.A != nil {
				m = m[:0]
				for i := 0; i+1 < len(*val.A); i += 2 {
					m = append(m, []Val{(*val.A)[i], (*val.A)[i+1]})
				}
			}
		}
		return Val{M: &m}
	}
	return v
}

func (r *runner) stdin(op *Op) string {
	if op.Stdin.Bad != nil {
		return *op.Stdin.Bad + "\n"
	}
	if op.Stdin.Text != nil {
		return *op.Stdin.Text
	}
	return r.text(*op.Stdin.V) + "\n"
}

// yamlToJSON runs the command that converts YAML to JSON
func (r *runner) yamlToJSON(op *Op) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), opTimeout*3/4)
	defer cancel()
	c := r.command(ctx, y2jCommand, nil)
	var so, se bytes.Buffer
	c.Stdout = &so
	c.Stderr = &se
	c.Stdin = strings.NewReader(r.stdin(op))
	if err := c.Run(); err != nil {
		if ctx.Err() != nil {
			return outcome{r: "hang"}
		}
		if _, ok := err.(*exec.ExitError); !ok {
			panic(fmt.Errorf("driver: %v", err))
		}
		switch {
		case strings.TrimSpace(se.String()) == "":
			return outcome{r: "failure without a message"}
		case so.Len() > 0:
			return outcome{r: "failure with output", msg: head(so.String())}
		}
		return outcome{r: "err", msg: r.out(head(se.String()))}
	}
	v, ok := r.plainJSON(so.Bytes())
	if !ok {
		return outcome{r: "malformed", msg: head(so.String())}
	}
	return outcome{val: &v}
}

// commandLine runs the lookup command
func (r *runner) commandLine(op *Op) outcome {
	args := r.common(op)
	flag := func(n, v string) {
		if op.Eq {
			args = append(args, "--"+n+"="+r.in(v))
		} else {
			args = append(args, "--"+n, r.in(v))
		}
	}
	if op.Dialect != "" {
		flag("dialect", op.Dialect)
	}
	if op.Merge != "" {
		flag("merge", op.Merge)
	}
	if op.Type != "" {
		flag("type", op.Type)
	}
	if op.DText != nil {
		flag("default", *op.DText)
	}
	for _, v := range op.FactFiles {
		flag("facts", v)
	}
	if op.Render != "" {
		flag("render-as", op.Render)
	}
	switch op.Explain {
	case "d":
		args = append(args, "--explain")
	case "do":
		args = append(args, "--explain", "--explain-options")
	case "o":
		args = append(args, "--explain-options")
	}
	if op.All {
		args = append(args, "--all")
	}
	// keys are told from flags by "--", which isn't needed when they don't look like flags
	keys := make([]string, len(op.Names))
	for i, k := range op.Names {
		keys[i] = r.in(k)
	}
	if op.First {
		args = append(keys, args...)
	} else {
		args = append(append(args, "--"), keys...)
	}
	ctx, cancel := context.WithTimeout(context.Background(), opTimeout*3/4)
	defer cancel()
	c := r.command(ctx, cliCommand, args)
	var so, se bytes.Buffer
	c.Stdout = &so
	c.Stderr = &se
	if op.Stdin != nil {
		c.Stdin = strings.NewReader(r.stdin(op))
	}
	if err := c.Run(); err != nil {
		if ctx.Err() != nil {
			return outcome{r: "hang"}
		}
		if _, ok := err.(*exec.ExitError); !ok {
			panic(fmt.Errorf("driver: %v", err))
		}
		t := se.String()
		if c.ProcessState.ExitCode() < 0 || strings.HasPrefix(t, "panic:") || strings.Contains(t, "\ngoroutine ") {
			return outcome{r: "crash", msg: head(t)}
		}
		if strings.TrimSpace(t) == "" {
			return outcome{r: "failure without a message"}
		}
		return outcome{r: "err", msg: r.out(head(t))}
	}
	o := so.Bytes()
	if len(o) == 0 {
		return outcome{v: vf.Values(), found: true}
	}
	one := func(v Val) outcome { return outcome{val: &Val{A: &[]Val{v}}} }
	text := func(s string) outcome {
		if !strings.HasSuffix(s, "\n") {
			return outcome{r: "no end of line", msg: head(s)}
		}
		return one(str(r.out(s[:len(s)-1])))
	}
	render := op.Render
	if render == "" {
		render = "yaml"
		if op.Explain != "" {
			render = "s"
		}
	}
	switch render {
	case "yaml":
		if string(o) == "\n" {
			return one(r.fromDgo(vf.Nil))
		}
		v, err := yaml.Unmarshal(o)
		if err != nil {
			return outcome{r: "malformed", msg: head(string(o))}
		}
		return one(rich(r.fromDgo(v)))
	case "json":
		v, ok := r.readJSON(o)
		if !ok {
			return outcome{r: "malformed", msg: head(string(o))}
		}
		return one(v)
	case "binary":
		a := make([]Val, len(o))
		for i, b := range o {
			n := int64(b)
			a[i] = Val{I: &n}
		}
		return one(Val{A: &a})
	}
	return text(string(o))
}
