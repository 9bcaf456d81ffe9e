package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Native runs harnesses compiled by the ordinary Go compiler from /repo's
// current source.
type Native struct {
	bin  string
	tier int
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  chan string
}

type NResult struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

type HInfo struct {
	Name  string `json:"name"`
	Prop  string `json:"prop"`
	Bound string `json:"bound"`
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func buildNative(dir, out string, race bool) error {
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, ".")
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

func (n *Native) start() error {
	n.cmd = exec.Command(n.bin, "serve", fmt.Sprint(n.tier))
	n.cmd.Env = append(os.Environ(), "GOTRACEBACK=none", "GOMEMLIMIT=4GiB")
	in, _ := n.cmd.StdinPipe()
	out, _ := n.cmd.StdoutPipe()
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.in = in
	ch := make(chan string, 1)
	n.out = ch
	go func() {
		r := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := r.ReadString('\n')
			if strings.HasPrefix(l, "R ") {
				ch <- l[2:]
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}()
	return nil
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) run(name string, draws []int64) NResult {
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return NResult{Outcome: "error", Msg: err.Error()}
		}
	}
	b, _ := json.Marshal(draws)
	if draws == nil {
		b = []byte("[]")
	}
	if _, err := fmt.Fprintf(n.in, "%s %s\n", name, b); err != nil {
		n.stop()
		return NResult{Outcome: "error", Msg: err.Error()}
	}
	select {
	case l, ok := <-n.out:
		if !ok {
			n.stop()
			return NResult{Outcome: "crash", Msg: "the process died (stack overflow or fatal error)"}
		}
		var w struct {
			Outcome string   `json:"outcome"`
			Msg     string   `json:"msg"`
			Obs     [][]byte `json:"obs"`
		}
		if err := json.Unmarshal([]byte(l), &w); err != nil {
			return NResult{Outcome: "error", Msg: err.Error()}
		}
		r := NResult{Outcome: w.Outcome, Msg: w.Msg}
		for _, o := range w.Obs {
			r.Obs = append(r.Obs, string(o))
		}
		return r
	case <-time.After(20 * time.Second):
		n.stop()
		return NResult{Outcome: "hang", Msg: "no result within 20 s"}
	}
}

// runOrder repeats a case whose outcome may depend on map iteration order: many
// times in one process, then in fresh processes (package initialisation).
func (n *Native) runOrder(name string, draws []int64) (nr NResult) {
	for i := 0; i < 300; i++ {
		if nr = n.run(name, draws); nr.failing() {
			return nr
		}
	}
	for i := 0; i < 80; i++ {
		n.stop()
		for j := 0; j < 3; j++ {
			if nr = n.run(name, draws); nr.failing() {
				return nr
			}
		}
	}
	return nr
}

func (r NResult) failing() bool {
	switch r.Outcome {
	case "assert", "panic", "hang", "crash":
		return true
	}
	return false
}

func listHarnesses(bin string) ([]HInfo, error) {
	out, err := exec.Command(bin, "list").Output()
	if err != nil {
		return nil, err
	}
	var hs []HInfo
	err = json.Unmarshal(out, &hs)
	return hs, err
}

func raceReplay(bin, name string, draws []int64) (bool, string) {
	b, _ := json.Marshal(draws)
	if draws == nil {
		b = []byte("[]")
	}
	c := exec.Command(bin, "race", name, string(b))
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	out, err := c.CombinedOutput()
	if err == nil {
		return false, ""
	}
	s := string(out)
	if strings.Contains(s, "DATA RACE") || strings.Contains(s, "concurrent map") || strings.Contains(s, "fatal error") || strings.Contains(s, "RACE-ASSERT") {
		if i := strings.Index(s, "==="); i > 0 {
			s = s[i:]
		}
		if len(s) > 1500 {
			s = s[:1500]
		}
		return true, s
	}
	return false, s
}

var _ = filepath.Join
