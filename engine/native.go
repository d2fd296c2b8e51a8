package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type natCase struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Values  []NatVal       `json:"values"`
	Repeat  int            `json:"repeat"`
}

type natResult struct {
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Obs   []NatObs `json:"obs"`
	Trc   string   `json:"trace"`
	Alloc uint64   `json:"alloc"`
}

// Native is the harness compiled by the Go compiler against /repo.
type Native struct {
	dir  string
	bin  string
	err  error
	wg   sync.WaitGroup
	seq  int
	mu   sync.Mutex
	runs int
}

func buildNative(harnessDir string) *Native {
	n := &Native{}
	d, err := os.MkdirTemp("", "verif-hrun")
	if err != nil {
		fatal("%v", err)
	}
	n.dir = d
	n.bin = filepath.Join(d, "hrun")
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		cmd := exec.Command("go", "build", "-o", n.bin, "./hrun")
		cmd.Dir = harnessDir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

func (n *Native) Close() {
	n.wg.Wait()
	if strings.HasPrefix(n.dir, os.TempDir()) {
		os.RemoveAll(n.dir)
	}
}

// run executes the cases in one process; results may be shorter than cases
// when the process died or was stopped; status describes the end.
func (n *Native) run(cases []natCase, timeout time.Duration) (res []natResult, status string) {
	n.wg.Wait()
	if n.err != nil {
		return nil, "nobuild"
	}
	n.mu.Lock()
	n.seq++
	n.runs += len(cases)
	base := filepath.Join(n.dir, fmt.Sprintf("c%d", n.seq))
	n.mu.Unlock()
	b, _ := json.Marshal(cases)
	os.WriteFile(base+".json", b, 0644)
	work := base + ".d"
	os.Mkdir(work, 0755)
	out, err := os.Create(base + ".out")
	if err != nil {
		fatal("%v", err)
	}
	errf, _ := os.Create(base + ".err")
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, base+".json")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "TMPDIR="+work)
	cmd.Stderr = errf
	cmd.ExtraFiles = []*os.File{out}
	err = cmd.Run()
	out.Close()
	errf.Close()
	status = "done"
	if ctx.Err() != nil {
		status = "hang"
	} else if err != nil {
		status = "crash"
		eb, _ := os.ReadFile(base + ".err")
		s := string(eb)
		switch {
		case strings.Contains(s, "stack overflow") || strings.Contains(s, "stack exceeds"):
			status = "stackoverflow"
		case strings.Contains(s, "out of memory") || strings.Contains(s, "cannot allocate memory"):
			status = "outofmemory"
		default:
			if len(s) > 600 {
				s = s[:600]
			}
			status = "crash: " + s
		}
	}
	f, _ := os.Open(base + ".out")
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 64<<20)
	for sc.Scan() {
		var r natResult
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			res = append(res, r)
		}
	}
	f.Close()
	os.RemoveAll(work)
	os.Remove(base + ".json")
	os.Remove(base + ".out")
	os.Remove(base + ".err")
	return
}

// confirm replays a violation; it returns whether the real code misbehaves.
func (n *Native) confirm(v *Violation, params map[string]int, repeat int) (bool, string) {
	tmo := 15 * time.Second
	c := natCase{v.Harness, params, v.Values, repeat}
	res, st := n.run([]natCase{c}, tmo)
	if st == "nobuild" {
		return false, n.err.Error()
	}
	if len(res) == 1 {
		r := res[0]
		switch r.Kind {
		case "assert":
			return true, r.Msg
		case "panic":
			return true, "panic: " + r.Msg + "\n" + trimTrace(r.Trc)
		}
		if v.Kind == "limit" && strings.HasPrefix(v.Msg, "memory") && r.Alloc > 64<<20 {
			return true, fmt.Sprintf("allocates %d bytes", r.Alloc)
		}
		return false, r.Kind + " " + r.Msg
	}
	switch {
	case st == "hang":
		return true, fmt.Sprintf("does not terminate (stopped after %v)", tmo)
	case st == "stackoverflow", st == "outofmemory", strings.HasPrefix(st, "crash"):
		return true, st
	}
	return false, st
}

func trimTrace(t string) string {
	var keep []string
	lines := strings.Split(t, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i], "github.com/rveen") {
			keep = append(keep, strings.TrimSpace(lines[i])+" "+strings.TrimSpace(lines[i+1]))
			i++
		}
		if len(keep) >= 6 {
			break
		}
	}
	return strings.Join(keep, "\n")
}
