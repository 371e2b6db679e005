package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/crimist/trakx"

// Harness is one entry function.
type Harness struct {
	Name        string
	Prop        string
	Pkg         string // import path
	Dir         string // package dir relative to the repository
	File        string
	Tier        string // quick or thorough
	Tags        string
	Time        int // seconds
	TTime       int // seconds, thorough tier
	Paths       int
	Spins       int
	Conc        int
	Steps       int
	Alloc       int
	Depth       int
	QueryMs     int
	Retry       int // native attempts
	Reach       []string
	RaceExclude []string
	Bounds      string
	Skip        bool
}

// rewrites maps import path -> identifier -> replacement in package zzw.
var rewrites = map[string]map[string]string{
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep",
		"After": "TimeAfter", "AfterFunc": "TimeAfterFunc", "NewTimer": "TimeNewTimer", "Timer": "Timer", "NewTicker": "TimeNewTicker", "Ticker": "Ticker", "Tick": "TimeTick"},
	"math/rand/v2": {"Int32N": "RandInt31n", "Int64N": "RandInt63n", "Int64": "RandInt63", "Int32": "RandInt31", "IntN": "RandIntn", "Int": "RandInt", "Uint32": "RandUint32", "Uint64": "RandUint64", "Uint32N": "RandUint32N", "New": "RandNew", "NewPCG": "RandNewPCG", "Rand": "Rand", "Source": "RandSource"},
	"crypto/rand":  {"Read": "CryptoRead", "Reader": "CryptoReader", "Int": "CryptoInt"},
	"math/rand":    {"Int31n": "RandInt31n", "Int63n": "RandInt63n", "Int63": "RandInt63", "Int31": "RandInt31", "Intn": "RandIntn", "Int": "RandInt", "Uint32": "RandUint32", "Uint64": "RandUint64", "Seed": "RandSeed", "New": "RandNew", "NewSource": "RandNewSource", "Rand": "Rand", "Source": "RandSource"},
	"os": {"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile", "Stat": "OsStat", "Truncate": "OsTruncate", "OpenFile": "OsOpenFile", "Create": "OsCreate",
		"CreateTemp": "OsCreateTemp", "Open": "OsOpen", "MkdirAll": "OsMkdirAll", "Remove": "OsRemove", "Rename": "OsRename", "FindProcess": "OsFindProcess",
		"Exit": "OsExit", "Getenv": "OsGetenv", "LookupEnv": "OsLookupEnv", "UserHomeDir": "OsUserHomeDir", "File": "File", "Process": "Process", "Stdout": "Stdout", "Stderr": "Stderr",
		"Lstat": "OsLstat", "Getpid": "OsGetpid", "ExpandEnv": "OsExpandEnv", "Setenv": "OsSetenv", "Unsetenv": "OsUnsetenv"},
	"io/ioutil": {"ReadFile": "OsReadFile", "WriteFile": "OsWriteFile"},
	"net": {"ListenUDP": "NetListenUDP", "Listen": "NetListen", "Dial": "NetDial", "DialTimeout": "NetDialTimeout", "UDPConn": "UDPConn",
		"ListenPacket": "NetListenPacket", "ListenConfig": "ListenConfig", "Dialer": "Dialer", "ResolveUDPAddr": "NetResolveUDPAddr"},
	"net/http":     {"Get": "HTTPGet", "NewServeMux": "NewServeMux", "ServeMux": "ServeMux", "Server": "HTTPServer", "ListenAndServe": "HTTPListenAndServe", "Client": "HTTPClient", "DefaultClient": "HTTPDefaultClient", "NewRequest": "HTTPNewRequest"},
	"os/exec":      {"Command": "ExecCommand", "CommandContext": "ExecCommandContext", "Cmd": "Cmd"},
	"os/signal":    {"Notify": "SignalNotify", "Stop": "SignalStop", "Ignore": "SignalIgnore", "Reset": "SignalReset"},
	"syscall":      {"Kill": "SyscallKill", "Umask": "SyscallUmask"},
	"database/sql": {"Open": "SQLOpen", "DB": "SQLDB", "Rows": "SQLRows", "Row": "SQLRow"},
	"sync":         {"Mutex": "Mutex", "RWMutex": "RWMutex", "Pool": "Pool"},
	"sync/atomic": {"Int64": "AInt64", "Int32": "AInt32", "Uint64": "AUint64", "Uint32": "AUint32", "Bool": "ABool", "Pointer": "APointer",
		"AddInt64": "AtomicAddInt64", "LoadInt64": "AtomicLoadInt64", "StoreInt64": "AtomicStoreInt64", "SwapInt64": "AtomicSwapInt64", "CompareAndSwapInt64": "AtomicCompareAndSwapInt64", "AddInt32": "AtomicAddInt32", "LoadInt32": "AtomicLoadInt32", "StoreInt32": "AtomicStoreInt32", "SwapInt32": "AtomicSwapInt32", "CompareAndSwapInt32": "AtomicCompareAndSwapInt32", "AddUint64": "AtomicAddUint64", "LoadUint64": "AtomicLoadUint64", "StoreUint64": "AtomicStoreUint64", "SwapUint64": "AtomicSwapUint64", "CompareAndSwapUint64": "AtomicCompareAndSwapUint64", "AddUint32": "AtomicAddUint32", "LoadUint32": "AtomicLoadUint32", "StoreUint32": "AtomicStoreUint32", "SwapUint32": "AtomicSwapUint32", "CompareAndSwapUint32": "AtomicCompareAndSwapUint32"},
	"fmt":                 {"Print": "FmtPrint", "Println": "FmtPrintln", "Printf": "FmtPrintf"},
	"log":                 {"Print": "LogPrint", "Println": "LogPrintln", "Printf": "LogPrintf", "Fatal": "LogFatal", "Fatalln": "LogFatalln", "Fatalf": "LogFatalf"},
	"expvar":              {"NewInt": "ExpvarNewInt", "Handler": "ExpvarHandler"},
	"encoding/gob":        {"NewEncoder": "GobNewEncoder", "NewDecoder": "GobNewDecoder", "Encoder": "GobEncoder", "Decoder": "GobDecoder"},
	"github.com/kkyr/fig": {"Load": "FigLoad"},
	"go.uber.org/zap":     {"New": "ZapNew"},
}

// rewriteFile replaces environment-dependent package members by the world
// model's. Line numbers are preserved.
func rewriteFile(path string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	names := map[string]string{} // local name -> import path
	specs := map[string]*ast.ImportSpec{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		n := p[strings.LastIndex(p, "/")+1:]
		if d := strings.TrimSuffix(p, "/"+n); len(n) > 1 && n[0] == 'v' && n[1] >= '0' && n[1] <= '9' && d != p {
			n = d[strings.LastIndex(d, "/")+1:]
		}
		if s.Name != nil {
			n = s.Name.Name
		}
		names[n] = p
		specs[n] = s
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	left := map[string]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := names[id.Name]
		if !ok {
			return true
		}
		if r, ok := rewrites[p][se.Sel.Name]; ok {
			edits = append(edits, edit{fset.Position(se.Pos()).Offset, fset.Position(se.End()).Offset, "zzw." + r})
		} else {
			left[id.Name]++
		}
		return true
	})
	// an embedded file system can be given other contents by a harness
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR || g.Doc == nil || len(g.Specs) != 1 {
			continue
		}
		dir := false
		for _, c := range g.Doc.List {
			dir = dir || strings.HasPrefix(c.Text, "//go:embed ")
		}
		v := g.Specs[0].(*ast.ValueSpec)
		se, ok := v.Type.(*ast.SelectorExpr)
		if !dir || !ok || len(v.Names) != 1 || se.Sel.Name != "FS" {
			continue
		}
		if id, ok := se.X.(*ast.Ident); !ok || names[id.Name] != "embed" {
			continue
		}
		n := v.Names[0]
		edits = append(edits, edit{fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset, n.Name + "_zz"})
		o := fset.Position(v.End()).Offset
		edits = append(edits, edit{o, o, "; var " + n.Name + " = zzw.NewEmbed(&" + n.Name + "_zz)"})
	}
	if len(edits) == 0 {
		return nil, nil
	}
	for n, s := range specs {
		if rewrites[names[n]] != nil && left[n] == 0 && n != "_" && n != "." {
			if s.Name != nil {
				edits = append(edits, edit{fset.Position(s.Name.Pos()).Offset, fset.Position(s.Name.End()).Offset, "_"})
			} else {
				o := fset.Position(s.Path.Pos()).Offset
				edits = append(edits, edit{o, o, "_ "})
			}
		}
	}
	o := fset.Position(f.Name.End()).Offset
	edits = append(edits, edit{o, o, `; import "` + modPath + `/zzw"`})
	sort.Slice(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var out bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.from < pos {
			continue
		}
		out.Write(src[pos:e.from])
		out.WriteString(e.text)
		pos = e.to
	}
	out.Write(src[pos:])
	return out.Bytes(), nil
}

// Overlay is the set of virtual files laid over the repository.
type Overlay struct {
	files     map[string][]byte
	harnesses []*Harness
	imports   []string
	excluded  map[string]string // harness files that do not compile
}

func buildOverlay(repo, verif string, exclude map[string]string, only func(*Harness) bool) (*Overlay, error) {
	ov := &Overlay{files: map[string][]byte{}, excluded: exclude}
	root := map[string][]byte{} // package main, as the importable package zzmain
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if b := fi.Name(); p != repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "zzw" || b == "zzvnd") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, err := rewriteFile(p, src)
		if err != nil {
			return err
		}
		if out != nil {
			ov.files[p] = out
		} else {
			out = src
		}
		if filepath.Dir(p) == filepath.Clean(repo) {
			f, err := parser.ParseFile(token.NewFileSet(), p, out, parser.PackageClauseOnly)
			if err != nil {
				return err
			}
			if n := int(f.Name.Pos() - f.FileStart); f.Name.Name == "main" {
				root[filepath.Base(p)] = append(append(append([]byte{}, out[:n]...), "zzmain"...), out[n+len("main"):]...)
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	hdir := filepath.Join(verif, "harness")
	reg := map[string][]*Harness{}
	pkgName := map[string]string{}
	err = filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		if _, bad := exclude[rel]; bad {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dir := filepath.Dir(rel)
		dst := filepath.Join(repo, dir, filepath.Base(rel))
		if dir == "zzvnd" || dir == "zzw" {
			ov.files[dst] = src
			return nil
		}
		hs, pn, err := parseHarness(p, rel, src)
		if err != nil {
			return err
		}
		if only != nil && len(hs) > 0 {
			keep := false
			for _, h := range hs {
				keep = keep || only(h)
			}
			if !keep {
				return nil
			}
		}
		ov.files[dst] = src
		pkgName[dir] = pn
		reg[dir] = append(reg[dir], hs...)
		return nil
	})
	if err != nil {
		return nil, err
	}
	if len(reg["zzmain"]) > 0 {
		for n, b := range root {
			ov.files[filepath.Join(repo, "zzmain", n)] = b
		}
	}
	var dirs []string
	for d := range reg {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"" + modPath + "/zzvnd\"\n")
	for _, d := range dirs {
		pn := pkgName[d]
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport \"%s/zzvnd\"\n\nfunc init() {\n", pn, modPath)
		for _, h := range reg[d] {
			fmt.Fprintf(&sb, "\tzzvnd.Register(%q, %s)\n", h.Name, h.Name)
			ov.harnesses = append(ov.harnesses, h)
		}
		sb.WriteString("}\n")
		if len(reg[d]) == 0 {
			continue
		}
		ov.files[filepath.Join(repo, d, "zz_register.go")] = []byte(sb.String())
		imp := modPath + "/" + d
		ov.imports = append(ov.imports, imp)
		main.WriteString("\t_ \"" + imp + "\"\n")
	}
	main.WriteString(")\n\nfunc main() { zzvnd.Main() }\n")
	ov.files[filepath.Join(repo, "zzreplay", "main.go")] = []byte(main.String())
	return ov, nil
}

func parseHarness(path, rel string, src []byte) ([]*Harness, string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	dir := filepath.Dir(rel)
	var hs []*Harness
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if !strings.HasPrefix(c.Text, "//verif:") {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Pkg: modPath + "/" + dir, Dir: dir, File: rel, Tier: "quick", Time: 60, Paths: 400000, Spins: 100000, Conc: 300, Steps: 30000000, Depth: 4000, QueryMs: 20000, Retry: 1}
			for _, kv := range splitDirective(c.Text[len("//verif:"):]) {
				k, v, _ := strings.Cut(kv, "=")
				n, _ := strconv.Atoi(v)
				switch k {
				case "prop":
					h.Prop = v
				case "tier":
					h.Tier = v
				case "tags":
					h.Tags = v
				case "time":
					h.Time = n
				case "ttime":
					h.TTime = n
				case "paths":
					h.Paths = n
				case "spins":
					h.Spins = n
				case "conc":
					h.Conc = n
				case "steps":
					h.Steps = n
				case "alloc":
					h.Alloc = n
				case "retry":
					h.Retry = n
				case "depth":
					h.Depth = n
				case "queryms":
					h.QueryMs = n
				case "reach":
					h.Reach = strings.Split(v, ",")
				case "raceexclude":
					h.RaceExclude = strings.Split(v, ",")
				case "bounds":
					h.Bounds = v
				default:
					return nil, "", fmt.Errorf("%s: unknown directive %q", rel, k)
				}
			}
			hs = append(hs, h)
		}
	}
	return hs, f.Name.Name, nil
}

// splitDirective splits on spaces outside double quotes.
func splitDirective(s string) []string {
	var out []string
	var cur strings.Builder
	q := false
	for _, r := range s {
		switch {
		case r == '"':
			q = !q
		case r == ' ' && !q:
			if cur.Len() > 0 {
				out = append(out, cur.String())
				cur.Reset()
			}
		default:
			cur.WriteRune(r)
		}
	}
	if cur.Len() > 0 {
		out = append(out, cur.String())
	}
	return out
}
