// Command zzverif searches for concrete inputs on which the real library
// breaks a property. It is overlaid into /repo as ./cmd/zzverif and uses the
// exported API only, so it runs whatever the code under test looks like inside.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type prop struct {
	gen   func(r *rand.Rand, size int) interface{} // a case; everything in it survives JSON
	fixed func() []interface{}
	check func(data []byte) error // nil when the property holds on the case
}

var props = map[string]*prop{}

var scratch string

const exitViolation = 3

func encode(c interface{}) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func main() {
	var (
		id     = flag.String("prop", "", "property")
		seed   = flag.Int64("seed", 1, "seed")
		budget = flag.Duration("budget", 20*time.Second, "time for random cases")
		jobs   = flag.Int("jobs", 4, "child processes")
		out    = flag.String("out", "", "where to write the failing case")
		cs     = flag.String("case", "", "replay this case file")
		child  = flag.String("child", "", "run as a child, current case goes to this file")
		tmp    = flag.String("tmp", "", "scratch directory")
	)
	flag.Parse()
	p := props[*id]
	if p == nil {
		fmt.Println("no such property:", *id)
		os.Exit(2)
	}
	scratch = *tmp
	if scratch == "" {
		d, err := os.MkdirTemp("", "zzverif")
		if err != nil {
			panic(err)
		}
		scratch = d
		defer os.RemoveAll(d)
	}
	switch {
	case *cs != "":
		replayMain(p, *cs)
	case *child != "":
		childMain(p, *seed, *budget, *child)
	default:
		parentMain(*id, *seed, *budget, *jobs, *out)
	}
}

type saved struct {
	Property string          `json:"property"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
}

func runCase(p *prop, data []byte, limit time.Duration) error {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Errorf("panic: %v\n%s", e, debug.Stack())
			}
		}()
		done <- p.check(data)
	}()
	select {
	case err := <-done:
		return err
	case <-time.After(limit):
		return fmt.Errorf("no answer within %v", limit)
	}
}

func replayMain(p *prop, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var s saved
	if err := json.Unmarshal(b, &s); err != nil {
		panic(err)
	}
	if err := runCase(p, s.Case, 60*time.Second); err != nil {
		fmt.Println("VIOLATED:", err)
		os.Exit(exitViolation)
	}
	fmt.Println("holds on this case")
}

func childMain(p *prop, seed int64, budget time.Duration, cur string) {
	f, err := os.Create(cur)
	if err != nil {
		panic(err)
	}
	n, distinct := 0, map[uint64]bool{}
	one := func(c interface{}) {
		data := encode(c)
		if _, err := f.WriteAt(append(data, 0), 0); err != nil {
			panic(err)
		}
		n++
		if len(distinct) < 1<<20 {
			distinct[hash(data)] = true
		}
		if err := runCase(p, data, 20*time.Second); err != nil {
			b, _ := json.MarshalIndent(saved{Case: data, Error: err.Error()}, "", " ")
			fmt.Printf("FAIL %d %d\n%s\n", n, len(distinct), b)
			os.Exit(exitViolation)
		}
	}
	if p.fixed != nil && seed&7 == 0 {
		for _, c := range p.fixed() {
			one(c)
		}
	}
	r := rand.New(rand.NewSource(seed))
	end := time.Now().Add(budget)
	for i := 0; time.Now().Before(end); i++ {
		size := 2 + i/40
		if size > 40 {
			size = 3 + r.Intn(38)
		}
		one(p.gen(r, size))
	}
	fmt.Printf("OK %d %d\n", n, len(distinct))
}

func hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func parentMain(id string, seed int64, budget time.Duration, jobs int, out string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	total, distinct := 0, 0
	var failure *saved
	var cmds []*exec.Cmd
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for j := 0; j < jobs; j++ {
		j := j
		dir := filepath.Join(scratch, fmt.Sprint("w", j))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		cur := filepath.Join(scratch, fmt.Sprint("cur", j))
		cmd := exec.Command(self, "-prop", id, "-seed", fmt.Sprint(seed*64+int64(j)), "-budget", budget.String(), "-child", cur, "-tmp", dir)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
		var so, se bytes.Buffer
		cmd.Stdout = &so
		cmd.Stderr = &limited{w: &se, n: 1 << 16}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			o := so.String()
			var a, b int
			switch {
			case strings.HasPrefix(o, "OK "):
				fmt.Sscanf(o, "OK %d %d", &a, &b)
			case strings.HasPrefix(o, "FAIL "):
				fmt.Sscanf(o, "FAIL %d %d", &a, &b)
				var s saved
				if e := json.Unmarshal([]byte(o[strings.IndexByte(o, '\n')+1:]), &s); e == nil && failure == nil {
					failure = &s
					kill(cmds)
				}
			case failure == nil && err != nil:
				// the process died: a panic in a goroutine of the library, a deadlock or no memory
				data, _ := os.ReadFile(cur)
				if i := bytes.IndexByte(data, 0); i >= 0 {
					msg := se.String()
					if len(msg) > 4000 {
						msg = msg[:4000]
					}
					s := &saved{Case: data[:i], Error: "the process died: " + err.Error() + "\n" + msg}
					if confirm(self, id, dir, s) {
						failure = s
						kill(cmds)
					} else {
						fmt.Println("note: unconfirmed crash:", s.Error)
					}
				}
			}
			total += a
			distinct += b
		}()
	}
	wg.Wait()
	if failure != nil && strings.HasPrefix(failure.Error, "no answer") && !confirm(self, id, scratch, failure) {
		fmt.Println("note: slow case, not confirmed")
		failure = nil
	}
	fmt.Printf("CASES %d %d\n", total, distinct)
	if failure != nil {
		failure.Property = id
		b, _ := json.MarshalIndent(failure, "", " ")
		if out != "" {
			if err := os.WriteFile(out, b, 0o644); err != nil {
				panic(err)
			}
		}
		fmt.Printf("VIOLATED %s\n", failure.Error)
		os.Exit(exitViolation)
	}
}

func kill(cmds []*exec.Cmd) {
	for _, c := range cmds {
		if c.Process != nil {
			_ = c.Process.Kill()
		}
	}
}

func confirm(self, id, dir string, s *saved) bool {
	f := filepath.Join(dir, "confirm.json")
	b, _ := json.Marshal(s)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return false
	}
	c := exec.Command(self, "-prop", id, "-case", f, "-tmp", dir)
	c.Dir = dir
	return c.Run() != nil
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	if len(b) <= l.n {
		l.n -= len(b)
		_, _ = l.w.Write(b)
	}
	return len(b), nil
}
