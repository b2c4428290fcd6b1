package main

// Long-lived z3 processes: starting one costs more than most queries, so a process is
// reset and used again.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	used int
}

var (
	procMu sync.Mutex
	procs  = map[string][]*proc{}
)

func getProc(name string) (*proc, error) {
	procMu.Lock()
	if l := procs[name]; len(l) > 0 {
		p := l[len(l)-1]
		procs[name] = l[:len(l)-1]
		procMu.Unlock()
		return p, nil
	}
	procMu.Unlock()
	cmd := exec.Command(name, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func putProc(name string, p *proc) {
	p.used++
	if p.used > 150 {
		p.kill()
		return
	}
	procMu.Lock()
	procs[name] = append(procs[name], p)
	procMu.Unlock()
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	go p.cmd.Wait()
}

const procMark = "--end-of-answer--"

// ask runs one script; "" when the process had to be stopped.
func (p *proc) ask(ctx context.Context, script string, ms int) (string, bool) {
	ch := make(chan string, 1)
	go func() {
		if _, err := io.WriteString(p.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(echo \"%s\")\n", ms, script, procMark)); err != nil {
			ch <- ""
			return
		}
		var sb strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- ""
				return
			}
			if strings.HasPrefix(l, procMark) {
				break
			}
			sb.WriteString(l)
		}
		ch <- sb.String() + " "
	}()
	t := time.NewTimer(time.Duration(ms+1500) * time.Millisecond)
	defer t.Stop()
	select {
	case s := <-ch:
		return s, s != ""
	case <-ctx.Done():
	case <-t.C:
	}
	return "", false
}
