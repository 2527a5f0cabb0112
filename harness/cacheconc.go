package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"sync/atomic"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/session"
)

// CacheOp is an operation on the cache of session S: put K V, get K, all M, entries
type CacheOp struct {
	Op string           `json:"op"`
	S  int              `json:"s"`
	K  string           `json:"k"`
	V  int64            `json:"v"`
	M  map[string]int64 `json:"m,omitempty"`
}

// CacheEvent is the call of an operation by thread T or its return with the result: -1 when nothing was there
type CacheEvent struct {
	T  int              `json:"t"`
	E  string           `json:"e"`
	Op string           `json:"op"`
	S  int              `json:"s"`
	K  string           `json:"k"`
	V  int64            `json:"v"`
	R  int64            `json:"r"`
	M  map[string]int64 `json:"m"`
	N  int64            `json:"n"` // visits of an enumeration
	C  int              `json:"c"` // position of the call that returns
}

// CacheHistory is performed by one goroutine per thread
type CacheHistory struct {
	ID      string       `json:"id"`
	Threads [][]CacheOp  `json:"threads"`
	Events  []CacheEvent `json:"events"`
}

func num(v dgo.Value) int64 {
	if n, ok := v.(dgo.Integer); ok {
		return n.GoInt()
	}
	return -2
}

func (h *CacheHistory) perform() {
	ss := []api.Session{session.New(context.Background(), nil, nil, nil), session.New(context.Background(), nil, nil, nil)}
	total := 0
	for _, t := range h.Threads {
		total += len(t)
	}
	evs := make([]CacheEvent, 2*total)
	var seq int64 = -1
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for t, ops := range h.Threads {
		ready.Add(1)
		done.Add(1)
		go func(t int, ops []CacheOp) {
			defer done.Done()
			scs := []api.ServerContext{ss[0].Invocation(nil, nil).ServerContext(nil), ss[1].Invocation(nil, nil).ServerContext(nil)}
			ready.Done()
			<-start
			for _, op := range ops {
				sc := scs[op.S]
				ev := CacheEvent{T: t + 1, E: "call", Op: op.Op, S: op.S + 1, K: op.K, V: op.V, M: op.M, R: -1}
				if ev.M == nil {
					ev.M = map[string]int64{}
				}
				c := atomic.AddInt64(&seq, 1)
				evs[c] = ev
				ev.E = "ret"
				ev.C = int(c) + 1
				switch op.Op {
				case "put":
					if old := sc.Cache(op.K, vf.Value(op.V)); old != nil {
						ev.R = num(old)
					}
				case "get":
					if v, ok := sc.CachedValue(op.K); ok {
						ev.R = num(v)
					}
				case "all":
					m := vf.MutableMap()
					for k, v := range op.M {
						m.Put(k, v)
					}
					sc.CacheAll(m)
				case "entries":
					m := map[string]int64{}
					sc.CachedEntries(func(k string, v dgo.Value) {
						m[k] = num(v)
						ev.N++
					})
					ev.M = m
				default:
					panic(fmt.Errorf("driver: %s", op.Op))
				}
				evs[atomic.AddInt64(&seq, 1)] = ev
			}
		}(t, ops)
	}
	ready.Wait()
	close(start)
	done.Wait()
	h.Events = evs
}

func cacheconc(in, out string) {
	f, err := os.Create(out)
	must(err)
	defer f.Close()
	for _, l := range readLines(in) {
		var h CacheHistory
		must(json.Unmarshal(l, &h))
		h.perform()
		bs, err := json.Marshal(&h)
		must(err)
		_, err = f.Write(append(bs, '\n'))
		must(err)
	}
}
