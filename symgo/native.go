package main

// Native replay: the harness and the code under test are compiled as they are,
// except that (through a build overlay) package sync, go statements and channel
// operations go through vsync, so that a schedule can be imposed.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	at, end int
	text    string
}

// functions that make timers, which no schedule can control
var timed = map[string]bool{"After": true, "AfterFunc": true, "NewTimer": true, "NewTicker": true, "Tick": true}

// rewrite returns the instrumented text of f, or "" if nothing needs a change.
// ok is false when the file does something whose schedule cannot be imposed.
func rewrite(p *packages.Package, f *ast.File, src []byte) (text string, ok bool) {
	fset := p.Fset
	off := func(x token.Pos) int { return fset.Position(x).Offset }
	var eds []edit
	ins := func(at token.Pos, s string) { eds = append(eds, edit{off(at), off(at), s}) }
	rep := func(a, b token.Pos, s string) { eds = append(eds, edit{off(a), off(b), s}) }
	ok = true
	need := false
	isChan := func(e ast.Expr) bool {
		t := p.TypesInfo.TypeOf(e)
		if t == nil {
			return false
		}
		_, is := t.Underlying().(*types.Chan)
		return is
	}
	builtin := func(e ast.Expr, name string) bool {
		id, is := ast.Unparen(e).(*ast.Ident)
		if !is || id.Name != name {
			return false
		}
		_, is = p.TypesInfo.Uses[id].(*types.Builtin)
		return is
	}
	two := map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[ast.Unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[ast.Unparen(n.Values[0])] = true
			}
		case *ast.SelectStmt:
			ok = false
		case *ast.SelectorExpr:
			if id, is := n.X.(*ast.Ident); is {
				if pn, is := p.TypesInfo.Uses[id].(*types.PkgName); is && (pn.Imported().Path() == "context" || pn.Imported().Path() == "time" && timed[n.Sel.Name]) {
					ok = false
				}
			}
		case *ast.ImportSpec:
			switch n.Path.Value {
			case `"sync"`, `"sync/atomic"`:
				name, pkg := "sync", "vsync"
				if strings.HasSuffix(n.Path.Value, `atomic"`) {
					name, pkg = "atomic", "vatomic"
				}
				if n.Name != nil {
					name = n.Name.Name
				}
				rep(n.Pos(), n.End(), fmt.Sprintf("%s %q", name, "svharness/"+pkg))
			}
		case *ast.GoStmt:
			call := n.Call
			k := len(call.Args)
			sig, _ := p.TypesInfo.TypeOf(call.Fun).(*types.Signature)
			if builtin(call.Fun, "close") || sig == nil || sig.Variadic() || k > 5 || (sig.Results().Len() > 0 && k > 0) {
				ok = false
				return true
			}
			name := fmt.Sprintf("Go%d", k)
			if k == 0 && sig.Results().Len() == 0 {
				name = "Go"
			}
			rep(n.Go, call.Fun.Pos(), "svvsync."+name+"(")
			sep := ", "
			if k == 0 {
				sep = ""
			}
			rep(call.Lparen, call.Lparen+1, sep)
			need = true
		case *ast.SendStmt:
			ins(n.Pos(), "svvsync.Send(")
			rep(n.Arrow, n.Arrow+2, ",")
			ins(n.End(), ")")
			need = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				fn := "svvsync.Recv("
				if two[n] {
					fn = "svvsync.Recv2("
				}
				rep(n.OpPos, n.OpPos+2, fn)
				ins(n.End(), ")")
				need = true
			}
		case *ast.RangeStmt:
			if isChan(n.X) {
				ins(n.X.Pos(), "svvsync.Range(")
				ins(n.X.End(), ")")
				need = true
			}
		case *ast.CallExpr:
			if len(n.Args) == 1 && isChan(n.Args[0]) {
				for b, r := range map[string]string{"close": "svvsync.Close", "len": "svvsync.Len"} {
					if builtin(n.Fun, b) {
						rep(n.Fun.Pos(), n.Fun.End(), r)
						need = true
					}
				}
			}
		}
		return true
	})
	if len(eds) == 0 {
		return "", ok
	}
	if need {
		ins(f.Name.End(), "; import svvsync \"svharness/vsync\"")
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].at < eds[j].at })
	var b bytes.Buffer
	pos := 0
	for _, e := range eds {
		if e.at < pos {
			return "", false
		}
		b.Write(src[pos:e.at])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	return b.String(), ok
}

type native struct {
	tmp, repo string
	e         *Engine
	all       []string
	mod       string
	over      string // overlay with instrumentation
	plain     string // overlay with the registry only
	control   bool

	bin  string
	race string
	err  error
	done chan bool
}

// startNative prepares the overlay and builds the replay binary in the background.
func startNative(e *Engine, tmp, repo string, all []string) *native {
	n := &native{tmp: tmp, repo: repo, e: e, all: all, done: make(chan bool), control: true}
	n.mod = filepath.Join(tmp, "go.mod")
	reg := "package props\n\nvar All = map[string]func(){\n"
	for _, h := range all {
		reg += fmt.Sprintf("\t%q: %s,\n", h, h)
	}
	reg += "}\n"
	regFile := filepath.Join(tmp, "registry.go")
	n.err = os.WriteFile(regFile, []byte(reg), 0o644)
	repl := map[string]string{filepath.Join(verifDir, "harness", "props", "zz_registry.go"): regFile}
	n.plain = filepath.Join(tmp, "plain.json")
	writeJSON(n.plain, map[string]any{"Replace": repl})
	k := 0
	for _, p := range e.target {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				n.err = err
				continue
			}
			txt, ok := rewrite(p, f, src)
			if !ok {
				n.control = false
			}
			if txt != "" {
				k++
				nf := filepath.Join(tmp, fmt.Sprintf("over%d.go", k))
				os.WriteFile(nf, []byte(txt), 0o644)
				repl[name] = nf
			}
		}
	}
	n.over = filepath.Join(tmp, "over.json")
	writeJSON(n.over, map[string]any{"Replace": repl})
	go func() {
		defer close(n.done)
		if n.err != nil {
			return
		}
		bin := filepath.Join(tmp, "replay")
		if n.control {
			if err := n.build(bin, n.over, false); err != nil {
				fmt.Fprintln(os.Stderr, "note: instrumented build failed, schedules cannot be imposed:", err)
				n.control = false
			}
		}
		if !n.control {
			n.err = n.build(bin, n.plain, false)
		}
		n.bin = bin
	}()
	return n
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func (n *native) build(out, overlay string, race bool) error {
	args := []string{"build", "-modfile=" + n.mod, "-overlay=" + overlay, "-o", out}
	env := append(goEnv(), "CGO_ENABLED=0")
	if race {
		args = append(args, "-race")
		env = append(goEnv(), "CGO_ENABLED=1")
	} else {
		args = append(args, "-ldflags=-s -w")
	}
	cmd := exec.Command("go", append(args, "./cmd/replay")...)
	cmd.Dir = filepath.Join(verifDir, "harness")
	cmd.Env = env
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

func (n *native) raceBin() (string, error) {
	if n.race != "" {
		return n.race, nil
	}
	out := filepath.Join(n.tmp, "replay.race")
	err := n.build(out, n.over, true)
	if err != nil {
		err = n.build(out, n.plain, true)
	}
	if err != nil {
		return "", err
	}
	n.race = out
	return out, nil
}

type nrun struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Sched   []int             `json:"sched"`
	Control bool              `json:"control"`
	Repeat  int               `json:"repeat"`
}

type nfile struct {
	Property string `json:"property,omitempty"`
	What     string `json:"what,omitempty"`
	Where    string `json:"where,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Tier     string `json:"tier"`
	Jitter   bool   `json:"jitter"`
	Race     bool   `json:"race"`
	Runs     []nrun `json:"runs"`
}

type nresult struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Tries   int      `json:"tries"`
}

func (n *native) exec(f nfile, limit time.Duration) ([]nresult, string, error) {
	<-n.done
	if n.err != nil {
		return nil, "", n.err
	}
	bin := n.bin
	if f.Race {
		var err error
		if bin, err = n.raceBin(); err != nil {
			return nil, "", err
		}
	}
	file := filepath.Join(n.tmp, "runs.json")
	if err := writeJSON(file, f); err != nil {
		return nil, "", err
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, file)
	if !f.Race { // what does not return may also take memory
		cmd = exec.CommandContext(ctx, "bash", "-c", `ulimit -v 12000000; exec "$0" "$1"`, bin, file)
	}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var rs []nresult
	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var r nresult
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			rs = append(rs, r)
		}
	}
	return rs, errb.String(), err
}

// reproduce replays a violation against the real code.
func (n *native) reproduce(f *nfile) (bool, string) {
	<-n.done
	if f.Race {
		_, errs, err := n.exec(*f, 60*time.Second)
		if strings.Contains(errs, "WARNING: DATA RACE") {
			return true, "the race detector reports it"
		}
		if strings.Contains(errs, "concurrent map") || strings.Contains(errs, "fatal error") {
			return true, firstLine(errs)
		}
		if err != nil {
			return false, fmt.Sprint(err, " ", firstLine(errs))
		}
		return false, "the race detector reports nothing"
	}
	rs, errs, err := n.exec(*f, 60*time.Second)
	if len(rs) == len(f.Runs) && len(rs) > 0 {
		r := rs[len(rs)-1]
		switch r.Outcome {
		case "assert", "panic", "deadlock":
			return true, fmt.Sprintf("%s: %s (try %d)", r.Outcome, r.Msg, r.Tries)
		case "hang":
			if f.Kind == "deadlock" || f.Kind == "hang" {
				return true, "hang: " + r.Msg
			}
		}
		return false, r.Outcome
	}
	if err != nil {
		// the process died: a fatal error or a panic on another goroutine
		if strings.Contains(errs, "panic:") || strings.Contains(errs, "fatal error:") {
			return true, firstLine(errs)
		}
		return false, fmt.Sprint(err, " ", firstLine(errs))
	}
	return false, "no result"
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "====") {
			return l
		}
	}
	return ""
}
