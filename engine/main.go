package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---- harness discovery ----

type harnessDecl struct {
	prop, fn, pkg, file string
	quick, thorough     time.Duration
	native              string // "" (replay must reproduce), "stress", "off"
	doc                 string
}

type hfile struct {
	rel    string // relative to /verif/harness == relative to /repo/src
	data   []byte
	harn   []harnessDecl
	with   []string
	stubs  []stubDecl
	failed string
}

type stubDecl struct{ target, fn string }

func scanHarness(root string) (map[string]*hfile, error) {
	out := map[string]*hfile{}
	err := filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f := &hfile{rel: rel, data: b}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, cg := range af.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//gosym:with ") {
					f.with = append(f.with, strings.Fields(c.Text)[1:]...)
				}
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				w := strings.Fields(c.Text)
				switch {
				case strings.HasPrefix(c.Text, "//gosym:harness "):
					h := harnessDecl{prop: w[1], fn: fd.Name.Name, pkg: filepath.Dir(rel), file: rel, quick: 30 * time.Second, thorough: 300 * time.Second, doc: strings.TrimSpace(fd.Doc.Text())}
					for _, o := range w[2:] {
						kv := strings.SplitN(o, "=", 2)
						switch kv[0] {
						case "quick":
							h.quick, _ = time.ParseDuration(kv[1])
						case "thorough":
							h.thorough, _ = time.ParseDuration(kv[1])
						case "native":
							h.native = kv[1]
						}
					}
					f.harn = append(f.harn, h)
				case strings.HasPrefix(c.Text, "//gosym:stub "):
					f.stubs = append(f.stubs, stubDecl{strings.TrimSpace(strings.TrimPrefix(c.Text, "//gosym:stub ")), fd.Name.Name})
				}
			}
		}
		out[rel] = f
		return nil
	})
	return out, err
}

// applyStub rewrites the function target (e.g. "Name" or "(*T).Name") in package directory dir so
// that it calls fn instead; content of already rewritten files is taken from ov.
func applyStub(ov map[string][]byte, dir, target, fn string) error {
	recv, name := "", target
	if i := strings.LastIndex(target, ")."); i >= 0 {
		recv, name = strings.Trim(target[:i+1], "()*"), target[i+2:]
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		if m, err := build.Default.MatchFile(dir, e.Name()); err == nil && !m {
			continue
		}
		p := filepath.Join(dir, e.Name())
		src, ok := ov[p]
		if !ok {
			if src, err = os.ReadFile(p); err != nil {
				return err
			}
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != name || fd.Body == nil {
				continue
			}
			rt := ""
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if ix, ok := t.(*ast.IndexExpr); ok {
					t = ix.X
				}
				if id, ok := t.(*ast.Ident); ok {
					rt = id.Name
				}
			}
			if rt != recv {
				continue
			}
			type edit struct {
				off int
				del int
				ins string
			}
			var eds []edit
			var args []string
			k := 0
			field := func(f *ast.Field, variadic bool) {
				if len(f.Names) == 0 {
					n := fmt.Sprintf("zzv%d", k)
					k++
					eds = append(eds, edit{fs.Position(f.Type.Pos()).Offset, 0, n + " "})
					args = append(args, n)
					return
				}
				for _, id := range f.Names {
					n := id.Name
					if n == "_" {
						n = fmt.Sprintf("zzv%d", k)
						k++
						eds = append(eds, edit{fs.Position(id.Pos()).Offset, 1, n})
					}
					if _, ok := f.Type.(*ast.Ellipsis); ok {
						n += "..."
					}
					args = append(args, n)
				}
			}
			if fd.Recv != nil {
				field(fd.Recv.List[0], false)
			}
			for _, f := range fd.Type.Params.List {
				field(f, false)
			}
			call := fn + "(" + strings.Join(args, ", ") + ")"
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				call = "if true { return " + call + " }; "
			} else {
				call = "if true { " + call + "; return }; "
			}
			eds = append(eds, edit{fs.Position(fd.Body.Lbrace).Offset + 1, 0, " " + call})
			sort.Slice(eds, func(i, j int) bool { return eds[i].off > eds[j].off })
			b := append([]byte(nil), src...)
			for _, e := range eds {
				b = append(b[:e.off:e.off], append([]byte(e.ins), b[e.off+e.del:]...)...)
			}
			ov[p] = b
			return nil
		}
	}
	return fmt.Errorf("stub target %s not found in %s", target, dir)
}

// ---- known findings ----

type known struct{ prop, id, text string }

func readKnown(p string) []known {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var out []known
	re := regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

// ---- native replay ----

type nativeOut struct {
	Result   string // ok, assert, assume, panic, hang, error
	Msg      string
	Reach    []string
	Obs      []string
	Finding  []string
	Attempts int
	raw      string
}

type native struct {
	tmp, work string
	ov        map[string][]byte
	bins      map[string]string
	errs      map[string]string
	buildTime time.Duration
}

func (n *native) build(pkg string, fns []string, race bool) (string, error) {
	key := pkg
	if race {
		key += " -race"
	}
	if b, ok := n.bins[key]; ok {
		return b, nil
	}
	if e, ok := n.errs[key]; ok {
		return "", fmt.Errorf("%s", e)
	}
	st := time.Now()
	defer func() { n.buildTime += time.Since(st) }()
	mod := strings.SplitN(pkg, "/", 2)[0]
	dir := filepath.Join(n.tmp, "native-"+hash8(key))
	os.MkdirAll(dir, 0o755)
	rep := map[string]string{}
	i := 0
	put := func(target string, data []byte) {
		i++
		p := filepath.Join(dir, fmt.Sprintf("ov%d.go", i))
		os.WriteFile(p, data, 0o644)
		rep[target] = p
	}
	for t, d := range n.ov {
		put(t, d)
	}
	var mb bytes.Buffer
	fmt.Fprintf(&mb, "package main\nimport (\n\t\"common/verifrt\"\n\tp %q\n)\nfunc main() { verifrt.Main(map[string]func(){\n", pkg)
	for _, f := range fns {
		fmt.Fprintf(&mb, "\t%q: p.%s,\n", f, f)
	}
	mb.WriteString("}) }\n")
	md := "zzverifmain" + hash8(pkg)
	put(filepath.Join(repoDir, "src", mod, md, "main.go"), mb.Bytes())
	oj, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	bin := filepath.Join(dir, "native.bin")
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./src/"+mod+"/"+md)...)
	cmd.Dir = repoDir
	cmd.Env = goEnv(n.work)
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.errs[key] = string(out)
		return "", fmt.Errorf("%s", out)
	}
	n.bins[key] = bin
	return bin, nil
}

func hash8(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:4])
}

func (n *native) run(bin, fn, tier string, nd []Nondet, timeout time.Duration, finds bool) nativeOut {
	d, err := os.MkdirTemp(n.tmp, "run")
	if err != nil {
		return nativeOut{Result: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(d)
	in := filepath.Join(d, "in.json")
	b, _ := json.Marshal(map[string]any{"harness": fn, "tier": tier, "nondets": nd})
	os.WriteFile(in, b, 0o644)
	outp := filepath.Join(d, "out.json")
	scratch := filepath.Join(d, "s")
	os.MkdirAll(scratch, 0o755)
	cmd := exec.Command(bin)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+in, "VERIF_OUT="+outp, "VERIF_SCRATCH="+scratch)
	var sb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		return nativeOut{Result: "error", Msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var o nativeOut
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		return nativeOut{Result: "hang", Msg: "no result within " + timeout.String(), raw: sb.String()}
	}
	ob, e2 := os.ReadFile(outp)
	if e2 == nil && json.Unmarshal(ob, &o) == nil && o.Result != "" {
		o.raw = sb.String()
		return o
	}
	s := sb.String()
	o.raw = s
	if i := strings.Index(s, "all goroutines are asleep - deadlock"); i >= 0 {
		return nativeOut{Result: "hang", Msg: "deadlock"}
	}
	if i := strings.Index(s, "panic:"); i >= 0 {
		return nativeOut{Result: "panic", Msg: firstLine(s[i:]), raw: s}
	}
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		return nativeOut{Result: "panic", Msg: firstLine(s[i:]), raw: s}
	}
	return nativeOut{Result: "error", Msg: fmt.Sprintf("%v: %s", err, firstLine(s))}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func reproduces(v *Violation, o nativeOut) bool {
	switch v.Kind {
	case "assert":
		return o.Result == "assert" || o.Result == "panic" || o.Result == "hang"
	case "race":
		return raceConfirmed(v.Msg, o.raw)
	case "panic":
		return o.Result == "panic" || o.Result == "assert"
	case "deadlock", "steps":
		return o.Result == "hang" || o.Result == "panic" || o.Result == "assert"
	}
	return false
}

// ---- main ----

type harnessReport struct {
	Harness      string           `json:"harness"`
	Package      string           `json:"package"`
	What         string           `json:"what,omitempty"`
	Paths        int              `json:"paths"`
	Ends         map[string]int   `json:"path_ends"`
	Bounds       map[string]int   `json:"bounds"`
	Asserts      map[string]any   `json:"assertions"`
	Reach        map[string]int   `json:"reached"`
	Queries      int              `json:"solver_queries"`
	Unsat        int              `json:"solver_unsat"`
	Sat          int              `json:"solver_sat"`
	Unknown      int              `json:"solver_unknown"`
	SolverS      float64          `json:"solver_s"`
	WallS        float64          `json:"wall_s"`
	Steps        int64            `json:"ssa_instructions"`
	Decisions    int64            `json:"symbolic_decisions"`
	Complete     bool             `json:"complete_within_bounds"`
	Inconclusive []string         `json:"inconclusive,omitempty"`
	Functions    []string         `json:"functions_encoded"`
	Validated    int              `json:"paths_replayed_natively"`
	Mismatch     []string         `json:"replay_mismatches,omitempty"`
	Reported     []map[string]any `json:"violations,omitempty"`
	Unconfirmed  []map[string]any `json:"counterexamples_not_reproduced,omitempty"`
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check -prop ID [-tier quick|thorough] [-only FN]")
		os.Exit(0)
	}
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "property id")
	tier := fl.String("tier", "", "quick or thorough")
	only := fl.String("only", "", "only this harness")
	verif := fl.String("verif", "", "verification directory")
	nw := fl.Int("j", runtime.NumCPU(), "workers")
	verbose := fl.Bool("v", false, "verbose")
	keep := fl.Bool("keep", false, "keep temporary files")
	budget := fl.Duration("budget", 0, "total exploration budget")
	replay := fl.String("replay", "", "replay file to run natively")
	fl.Parse(os.Args[2:])
	if *tier == "" {
		*tier = "quick"
	}
	if *verif == "" {
		*verif = "/verif"
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("cannot create temporary directory:", err)
		os.Exit(2)
	}
	code := 0
	func() {
		defer func() {
			if !*keep {
				os.RemoveAll(tmp)
			} else {
				fmt.Println("kept", tmp)
			}
		}()
		code = runCheck(*prop, *tier, *only, *verif, tmp, *nw, *verbose, *budget, start, *replay)
	}()
	os.Exit(code)
}

func relevant(files map[string]*hfile, prop string) (sel map[string]*hfile, hs []harnessDecl) {
	sel = map[string]*hfile{}
	var add func(f *hfile)
	add = func(f *hfile) {
		if sel[f.rel] != nil || f.failed != "" {
			return
		}
		sel[f.rel] = f
		for _, w := range f.with {
			if o := files[w]; o != nil {
				add(o)
			} else {
				fmt.Println("warning: missing", w)
			}
		}
	}
	var rels []string
	for r := range files {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		f := files[r]
		if f.failed != "" {
			continue
		}
		if strings.HasPrefix(r, "common/verifrt/") {
			add(f)
			continue
		}
		for _, h := range f.harn {
			if h.prop == prop {
				add(f)
				hs = append(hs, h)
			}
		}
	}
	return
}

func runCheck(prop, tier, only, verif, tmp string, nw int, verbose bool, budget time.Duration, start time.Time, replayF string) int {
	files, err := scanHarness(filepath.Join(verif, "harness"))
	if err != nil {
		fmt.Println("harness scan:", err)
		return 2
	}
	work, err := writeWorkspace(filepath.Join(tmp, "ws"), verif, nil)
	if err != nil {
		fmt.Println("workspace:", err)
		return 2
	}
	var notes []string
	var pr *Program
	var hs []harnessDecl
	var ov map[string][]byte
	loadStart := time.Now()
	for attempt := 0; ; attempt++ {
		var sel map[string]*hfile
		sel, hs = relevant(files, prop)
		if only != "" {
			var k []harnessDecl
			for _, h := range hs {
				if h.fn == only {
					k = append(k, h)
				}
			}
			hs = k
		}
		if len(hs) == 0 {
			break
		}
		ov = map[string][]byte{}
		bad := ""
		for rel, f := range sel {
			ov[filepath.Join(repoDir, "src", rel)] = f.data
		}
		for rel, f := range sel {
			for _, s := range f.stubs {
				if err := applyStub(ov, filepath.Join(repoDir, "src", filepath.Dir(rel)), s.target, s.fn); err != nil && bad == "" {
					bad = rel
					files[rel].failed = err.Error()
				}
			}
		}
		var pats []string
		seen := map[string]bool{}
		for _, h := range hs {
			if !seen[h.pkg] {
				seen[h.pkg] = true
				pats = append(pats, "./src/"+h.pkg)
			}
		}
		if bad == "" {
			var errs []string
			pr, errs, err = loadProgram(work, pats, ov)
			if err != nil {
				fmt.Println("load:", err)
				notes = append(notes, "load: "+err.Error())
				hs = nil
				break
			}
			if len(errs) == 0 {
				break
			}
			for _, e := range errs {
				if verbose {
					fmt.Println("load error:", e)
				}
				for rel := range sel {
					if strings.Contains(e, filepath.Join(repoDir, "src", rel)+":") && !strings.HasPrefix(rel, "common/verifrt/") {
						files[rel].failed = e
						bad = rel
					}
				}
			}
			if bad == "" {
				notes = append(notes, "load errors outside the harness files: "+errs[0])
				if verbose {
					fmt.Println(errs)
				}
				hs = nil
				break
			}
		}
		notes = append(notes, "harness file "+bad+" does not fit the current tree: "+files[bad].failed)
		for rel, f := range files {
			for _, w := range f.with {
				if w == bad && files[rel].failed == "" {
					files[rel].failed = "depends on " + bad
				}
			}
		}
		if attempt > 8 {
			hs = nil
			break
		}
	}
	loadT := time.Since(loadStart)
	for _, n := range notes {
		fmt.Println("note:", firstLine(n))
	}
	kn := readKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	knownIDs := map[string]bool{}
	for _, k := range kn {
		if k.prop == prop {
			knownIDs[k.id] = true
		}
	}
	nat := &native{tmp: tmp, work: work, ov: ov, bins: map[string]string{}, errs: map[string]string{}}
	byPkg := map[string][]string{}
	for _, h := range hs {
		byPkg[h.pkg] = append(byPkg[h.pkg], h.fn)
	}
	if replayF != "" {
		return runReplay(replayF, nat, hs, byPkg, tier)
	}
	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if budget > 0 {
		limit = budget
	}
	hard := start.Add(limit)
	var reps []*harnessReport
	var violLines []string
	var evViol []map[string]any
	seenKnown := map[string]bool{}
	for _, h := range hs {
		d := h.quick
		if tier == "thorough" {
			d = h.thorough
		}
		dl := time.Now().Add(d)
		if dl.After(hard) {
			dl = hard
		}
		fn, err := pr.harness(h.pkg, h.fn)
		if err != nil {
			notes = append(notes, err.Error())
			continue
		}
		ex := &Explorer{prog: pr, harness: fn, name: h.fn, tier: tier, deadline: dl, knownIDs: knownIDs, sampleCap: 6, solverBin: solverBin()}
		t0 := time.Now()
		ex.Run(nw)
		wall := time.Since(t0)
		r := &harnessReport{Harness: h.fn, Package: h.pkg, What: h.doc, Paths: ex.paths, Ends: ex.ends, Bounds: ex.bounds, Reach: ex.reach, Queries: ex.stats.Queries, Unsat: ex.stats.Unsat, Sat: ex.stats.Sat, Unknown: ex.stats.Unknown, SolverS: ex.stats.Time.Seconds(), WallS: wall.Seconds(), Steps: ex.steps, Decisions: ex.decisions, Asserts: map[string]any{}}
		for f := range ex.funcs {
			r.Functions = append(r.Functions, f)
		}
		sort.Strings(r.Functions)
		for m, a := range ex.asserts {
			r.Asserts[m] = map[string]int{"holds_by_simplification": a.trivial, "unsat": a.unsat, "sat": a.sat, "unknown": a.unknown}
		}
		if ex.truncated != "" {
			r.Inconclusive = append(r.Inconclusive, ex.truncated)
		}
		for _, m := range sortedKeys(ex.endMsgs) {
			if !strings.HasPrefix(m, "violation") && !strings.HasPrefix(m, "exit") {
				r.Inconclusive = append(r.Inconclusive, fmt.Sprintf("%s (x%d)", m, ex.endMsgs[m]))
			}
		}
		r.Complete = len(r.Inconclusive) == 0 && ex.ends["done"]+ex.ends["exit"]+ex.ends["violation"] > 0
		if ex.ends["done"] == 0 && len(ex.viol) == 0 {
			r.Inconclusive = append(r.Inconclusive, "vacuous: no path reached the end of the harness")
		}
		// counterexamples
		for _, sig := range sortedKeys(ex.viol) {
			v := ex.viol[sig]
			if len(r.Reported) >= 5 {
				notes = append(notes, fmt.Sprintf("%s: further failures not listed", h.fn))
				break
			}
			confirmed := false
			how := ""
			var last nativeOut
			if h.native == "off" {
				confirmed, how = true, "interpreter trace only"
			} else {
				bin, err := nat.build(h.pkg, byPkg[h.pkg], v.Kind == "race")
				if err != nil {
					last = nativeOut{Result: "error", Msg: "native build failed: " + err.Error()}
				} else {
					tries := 1
					if h.native == "stress" || len(v.Sched) > 0 || v.Kind == "race" {
						tries = 40
					}
					to := 20 * time.Second
					for i := 0; i < tries && !confirmed; i++ {
						last = nat.run(bin, h.fn, tier, v.Nondets, to, true)
						if reproduces(v, last) {
							confirmed = true
							how = fmt.Sprintf("reproduced by native run %d: %s %s", i+1, last.Result, firstLine(last.Msg))
						}
						if last.Result == "hang" {
							break
						}
					}
				}
				if !confirmed && h.native == "stress" && v.Kind != "race" {
					confirmed, how = true, "schedule found by the solver-driven exploration; not hit by free-running native execution"
				}
			}
			desc := map[string]any{"harness": h.fn, "package": h.pkg, "kind": v.Kind, "message": v.Msg, "inputs": v.Nondets, "schedule": v.Sched, "stack": v.Stack, "observations": v.Obs, "native": last, "how": how}
			if !confirmed {
				r.Unconfirmed = append(r.Unconfirmed, desc)
				if verbose {
					fmt.Printf("UNCONFIRMED %s %s: %s (native: %s %s)\n  %s\n  %v\n", h.fn, v.Kind, v.Msg, last.Result, firstLine(last.Msg), inputsStr(v.Nondets), v.Stack)
				}
				continue
			}
			rp := filepath.Join(verif, "evidence", "replay", prop+"-"+h.fn+"-"+hash8(sig)+".json")
			os.MkdirAll(filepath.Dir(rp), 0o755)
			b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": h.fn, "package": h.pkg, "tier": tier, "kind": v.Kind, "message": v.Msg, "nondets": v.Nondets, "schedule": v.Sched, "stack": v.Stack, "how": how, "observations": v.Obs}, "", " ")
			os.WriteFile(rp, b, 0o644)
			r.Reported = append(r.Reported, desc)
			evViol = append(evViol, map[string]any{"harness": h.fn, "message": v.Msg, "kind": v.Kind, "replay": rp, "inputs": inputsStr(v.Nondets), "confirmation": how})
			violLines = append(violLines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
			fmt.Printf("%s: %s: %s\n  inputs: %s\n  %s\n  at %s\n", h.fn, v.Kind, v.Msg, inputsStr(v.Nondets), how, strings.Join(v.Stack, " < "))
			if verbose && len(v.Sched) > 0 {
				fmt.Println("  schedule:", v.Sched)
			}
		}
		for _, sig := range sortedKeys(ex.known) {
			seenKnown[ex.known[sig].Finding] = true
		}
		// validate sampled paths against the real build
		if h.native != "off" && h.native != "stress" && (len(ex.viol) == 0 || verbose) {
			var samps []*PathSample
			for _, l := range sortedKeys(ex.witness) {
				samps = append(samps, ex.witness[l])
			}
			samps = append(samps, ex.samples...)
			maxS := 10
			if tier == "thorough" {
				maxS = 40
			}
			if len(samps) > maxS {
				samps = samps[:maxS]
			}
			if len(samps) > 0 && time.Until(hard) > 30*time.Second {
				bin, err := nat.build(h.pkg, byPkg[h.pkg], false)
				if err != nil {
					r.Mismatch = append(r.Mismatch, "native build failed: "+firstLine(err.Error()))
					if verbose {
						fmt.Println("native build:", err)
					}
				} else {
					for si, s := range samps {
						o := nat.run(bin, h.fn, tier, s.Nondets, 20*time.Second, false)
						okv := o.Result == "ok"
						if okv && si >= len(ex.witness) && len(s.Obs) > 0 && strings.Join(o.Obs, "\n") != strings.Join(s.Obs, "\n") {
							okv = false
							o.Msg = fmt.Sprintf("observations differ: native %v, symbolic %v", o.Obs, s.Obs)
						}
						// a path inside a known finding fails natively as well
						if !okv && len(ex.known) > 0 && o.Result != "error" {
							okv = true
						}
						if okv {
							r.Validated++
						} else {
							r.Mismatch = append(r.Mismatch, fmt.Sprintf("%s %s [%s]", o.Result, o.Msg, inputsStr(s.Nondets)))
						}
					}
				}
			}
		}
		if verbose {
			printReport(r)
		} else {
			fmt.Printf("%s: %d paths, %d queries (%d unsat, %d sat, %d unknown), %.1fs%s\n", h.fn, r.Paths, r.Queries, r.Unsat, r.Sat, r.Unknown, r.WallS, map[bool]string{true: "", false: " [bounded further: " + strings.Join(r.Inconclusive, "; ") + "]"}[r.Complete])
		}
		reps = append(reps, r)
	}
	for _, k := range kn {
		if k.prop == prop && seenKnown[k.id] {
			fmt.Printf("KNOWN-FINDING: property=%s id=%s %s\n", k.prop, k.id, k.text)
		}
	}
	sort.Strings(violLines)
	for _, l := range violLines {
		fmt.Println(l)
	}
	writeEvidence(verif, prop, tier, reps, notes, evViol, seenKnown, loadT, nat.buildTime, time.Since(start))
	if len(violLines) > 0 {
		return 1
	}
	explored := false
	for _, r := range reps {
		if r.Ends["done"]+r.Ends["exit"] > 0 {
			explored = true
		}
	}
	if !explored {
		// the tree does not load, or no harness fits it: nothing was decided
		fmt.Printf("NO-ANSWER property=%s: nothing could be explored\n", prop)
		return 2
	}
	return 0
}

func solverBin() string {
	if b := os.Getenv("GOSYM_SOLVER"); b != "" {
		return b
	}
	return "z3"
}

func inputsStr(ns []Nondet) string {
	var s []string
	for i, n := range ns {
		if i >= 40 {
			s = append(s, "...")
			break
		}
		s = append(s, n.Name+"="+strconv.FormatInt(n.Val, 10))
	}
	return strings.Join(s, " ")
}

func printReport(r *harnessReport) {
	c := *r
	c.Functions = nil
	c.Reported, c.Unconfirmed = nil, nil
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Println(string(b))
	fmt.Println("functions:", len(r.Functions))
}

func runReplay(path string, nat *native, hs []harnessDecl, byPkg map[string][]string, tier string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v struct {
		Property, Harness, Package, Tier, Kind, Message string
		Nondets                                         []Nondet
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	bin, err := nat.build(v.Package, byPkg[v.Package], v.Kind == "race")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	o := nat.run(bin, v.Harness, v.Tier, v.Nondets, 20*time.Second, true)
	if v.Kind == "race" {
		for i := 0; i < 39 && !raceConfirmed(v.Message, o.raw); i++ {
			o = nat.run(bin, v.Harness, v.Tier, v.Nondets, 20*time.Second, true)
		}
		if !raceConfirmed(v.Message, o.raw) {
			fmt.Println("no data race reported")
			return 0
		}
		fmt.Println(o.raw)
		return 1
	}
	fmt.Printf("%s: %s %s\n", v.Harness, o.Result, o.Msg)
	for _, x := range o.Obs {
		fmt.Println("  ", x)
	}
	if o.Result == "ok" {
		return 0
	}
	return 1
}

func writeEvidence(verif, prop, tier string, reps []*harnessReport, notes []string, viol []map[string]any, kn map[string]bool, loadT, natT, wall time.Duration) {
	q, uns, sat, unk, paths, validated := 0, 0, 0, 0, 0, 0
	var st float64
	var dec int64
	fset := map[string]bool{}
	var incon []string
	var bounds []string
	var samples []any
	for _, r := range reps {
		q += r.Queries
		uns += r.Unsat
		sat += r.Sat
		unk += r.Unknown
		paths += r.Paths
		dec += r.Decisions
		st += r.SolverS
		validated += r.Validated
		for _, f := range r.Functions {
			fset[f] = true
		}
		for _, i := range r.Inconclusive {
			incon = append(incon, r.Harness+": "+i)
		}
		var bs []string
		for _, k := range sortedKeys(r.Bounds) {
			bs = append(bs, fmt.Sprintf("%s=%d", k, r.Bounds[k]))
		}
		bounds = append(bounds, r.Harness+": "+strings.Join(bs, " "))
		samples = append(samples, map[string]any{"harness": r.Harness, "paths": r.Paths, "assertions": r.Asserts, "reached": r.Reach})
	}
	funcs := []string{}
	for f := range fset {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	if samples == nil {
		samples = []any{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(),
		"coverage": map[string]any{
			"states": paths, "transitions": dec, "traces_validated_against_impl": validated, "samples": samples,
			"functions_encoded": funcs, "bounds": bounds, "solver": solverBin(), "queries": q, "unsat": uns, "sat": sat, "unknown": unk, "solver_s": st,
			"encoding_s": loadT.Seconds(), "native_build_s": natT.Seconds(),
			"inconclusive": incon, "notes": notes, "harnesses": reps, "known_findings_observed": sortedKeys(kn),
			"explanation": "states = symbolic paths of the SSA of the current tree (each stands for all inputs satisfying its path condition); transitions = solver-decided symbolic decisions on them; traces_validated_against_impl = path models replayed through the natively compiled real code",
		},
		"violations":  len(viol),
		"assumptions": []string{"SSA semantics as implemented by /verif/engine (integers as bit-vectors, memory as a path-concrete heap)", "environment models and stubs listed in DESIGN.md for this property", "bounds listed under coverage.bounds; nothing is claimed outside them"},
	}
	if len(viol) > 0 {
		ev["coverage"].(map[string]any)["violation_details"] = viol
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}
