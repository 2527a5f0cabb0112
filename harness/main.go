// The conformance driver: performs scenarios on the real code and records what is observed.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// work performs the scenarios of the input file from the given index and appends a line per scenario to the output
func work(in, out, scratch string, from, count int) {
	debug.SetMaxStack(256 << 20)
	lines := readLines(in)
	f, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	defer f.Close()
	for i := from; i < len(lines) && i < from+count; i++ {
		var sc Scenario
		must(json.Unmarshal(lines[i], &sc))
		ok := run(&sc, filepath.Join(scratch, strconv.Itoa(i)))
		bs, err := json.Marshal(&sc)
		must(err)
		_, err = f.Write(append(bs, '\n'))
		must(err)
		if !ok {
			os.Exit(4) // goroutines hang
		}
	}
}

func readLines(in string) [][]byte {
	bs, err := os.ReadFile(in)
	must(err)
	var ls [][]byte
	for _, l := range bytes.Split(bs, []byte("\n")) {
		if len(bytes.TrimSpace(l)) > 0 {
			ls = append(ls, l)
		}
	}
	return ls
}

func countLines(out string) int {
	f, err := os.Open(out)
	if err != nil {
		return 0
	}
	defer f.Close()
	n := 0
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		n++
	}
	return n
}

// supervise runs work in child processes, so that a scenario that makes the process die is an observation and not
// the end. Such a scenario is performed twice, to make sure that it is the cause.
func supervise(in, out, scratch string) {
	total := len(readLines(in))
	_ = os.Remove(out)
	attempts := map[int]int{}
	hangs := 0
	for {
		n := countLines(out)
		if n >= total {
			return
		}
		count := total
		if attempts[n] > 0 {
			count = 1
		}
		var eb bytes.Buffer
		c := exec.Command(os.Args[0], "work", in, out, scratch, strconv.Itoa(n), strconv.Itoa(count))
		c.Stderr = &eb
		err := c.Run()
		if err == nil {
			continue
		}
		if c.ProcessState.ExitCode() == 4 {
			// an operation that hangs, recorded as such. After some of them there's no need to be as patient
			if hangs++; hangs == 2 && os.Getenv("OP_TIMEOUT") == "" {
				must(os.Setenv("OP_TIMEOUT", "7s"))
			}
			continue
		}
		n = countLines(out)
		if c.ProcessState.ExitCode() == 3 {
			fmt.Fprintf(os.Stderr, "driver failed at %d: %v\n%s\n", n, err, tail(eb.String()))
			os.Exit(3)
		}
		attempts[n]++
		// what concurrent operations do wrong needn't happen again
		if attempts[n] < 2 && !strings.Contains(eb.String(), "fatal error: concurrent map") {
			continue
		}
		var sc Scenario
		must(json.Unmarshal(readLines(in)[n], &sc))
		sc.Obs = []Obs{}
		sc.Ops = flat(sc.Ops)
		for range sc.Ops {
			sc.Obs = append(sc.Obs, Obs{R: "crash", Msg: head(eb.String()), Log: []LogEntry{}, Calls: []Call{}})
		}
		bs, _ := json.Marshal(&sc)
		f, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		must(err)
		_, _ = f.Write(append(bs, '\n'))
		f.Close()
	}
}

func head(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func tail(s string) string {
	if len(s) > 2000 {
		s = s[len(s)-2000:]
	}
	return s
}

func main() {
	plugin()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver run IN OUT SCRATCH")
		os.Exit(3)
	}
	a := os.Args
	switch a[1] {
	case "run":
		supervise(a[2], a[3], a[4])
	case "work":
		from, _ := strconv.Atoi(a[5])
		count, _ := strconv.Atoi(a[6])
		if t := os.Getenv("OP_TIMEOUT"); t != "" {
			if d, err := time.ParseDuration(t); err == nil {
				opTimeout = d
			}
		}
		work(a[2], a[3], a[4], from, count)
	case "cacheconc":
		cacheconc(a[2], a[3])
	case "registryconc":
		registryconc(a[2], a[3], a[4])
	case "configconc":
		configconc(a[2], a[3], a[4])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(3)
	}
}
