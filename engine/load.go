package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "engine: "+format+"\n", a...)
	os.Exit(3)
}

const (
	symPkgPath   = "verif/harness/sym"
	modelPkgPath = "verif/harness/model"
	harnPkgPath  = "verif/harness/h"
)

// modelFns maps library functions to their replacement in the model package.
var modelFns = map[string]string{
	"fmtInt":                       "FmtInt",
	"internal/strconv.atof64exact": "Atof64exact",

	"encoding/json.NewDecoder":           "JSONNewDecoder",
	"encoding/json.Unmarshal":            "JSONUnmarshal",
	"encoding/json.Valid":                "JSONValid",
	"(*encoding/json.Decoder).UseNumber": "JSONUseNumber",
	"(*encoding/json.Decoder).Decode":    "JSONDecode",
	"(*encoding/json.Decoder).More":      "JSONMore",

	"unicode/utf8.DecodeRune":         "DecodeRune",
	"unicode/utf8.DecodeRuneInString": "DecodeRuneInString",
	"utf8.DecodeRuneInString":         "DecodeRuneInString",

	"net.Listen":      "NetListen",
	"net.Dial":        "NetDial",
	"net.DialTimeout": "NetDialTimeout",

	"golang.org/x/text/transform.String": "TransformString",

	"os.OpenFile":            "OpenFile",
	"os.Open":                "Open",
	"os.Create":              "Create",
	"os.ReadFile":            "ReadFile",
	"os.WriteFile":           "WriteFile",
	"os.Truncate":            "Truncate",
	"(*os.File).Close":       "FileClose",
	"(*os.File).Sync":        "FileSync",
	"(*os.File).Name":        "FileName",
	"(*os.File).Seek":        "FileSeek",
	"(*os.File).Read":        "FileRead",
	"(*os.File).ReadAt":      "FileReadAt",
	"(*os.File).Write":       "FileWrite",
	"(*os.File).WriteString": "FileWriteString",
	"(*os.File).WriteAt":     "FileWriteAt",
	"(*os.File).Truncate":    "FileTruncate",
}

// concArgs lists library functions whose scalar arguments are enumerated (each
// feasible value on its own path) before the function is run.
var concArgs = map[string]bool{
	"internal/strconv.parseFloat64": true,
	"internal/strconv.atofHex":      true,
}

// LoadEngine loads the harness package and everything it depends on, from
// source, and builds the SSA form.
func LoadEngine(dir string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  goEnv(),
	}
	pkgs, err := packages.Load(cfg, harnPkgPath)
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if bad == "" && (strings.HasPrefix(p.PkgPath, "verif/") || strings.HasPrefix(p.PkgPath, "github.com/rveen")) {
				bad = e.Error()
			}
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("%s", bad)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{
		prog: prog, fset: prog.Fset,
		fns: map[*ssa.Function]*Fn{}, globIx: map[*ssa.Global]int{},
		repoPkgs: map[*ssa.Package]bool{}, built: map[*ssa.Package]bool{},
		models: map[string]*ssa.Function{}, pureFn: map[*ssa.Function]int{},
		symPath: symPkgPath, solverBin: "z3",
	}
	for _, p := range prog.AllPackages() {
		pp := p.Pkg.Path()
		if strings.HasPrefix(pp, "verif/") || strings.HasPrefix(pp, "github.com/rveen/ogdl") {
			e.repoPkgs[p] = true
		}
		switch pp {
		case harnPkgPath:
			e.harnPkg = p
		case modelPkgPath:
			e.modelPkg = p
		}
	}
	if e.harnPkg == nil {
		return nil, fmt.Errorf("no harness package")
	}
	e.anyType = types.NewInterfaceType(nil, nil)
	if p := prog.ImportedPackage("errors"); p != nil {
		e.errStrPtr = types.NewPointer(p.Type("errorString").Type())
	}
	if p := prog.ImportedPackage("unicode/utf8"); p != nil {
		e.models["utf8.DecodeRuneInString"] = p.Func("DecodeRuneInString")
	}
	e.linknames(pkgs, prog)
	if e.modelPkg != nil {
		for k, v := range modelFns {
			f := e.modelPkg.Func(v)
			if f == nil {
				return nil, fmt.Errorf("model %s missing", v)
			}
			e.models[k] = f
		}
	}
	return e, nil
}

// ensureInit runs the package's variable initialisers once (per path for the
// packages under test, per worker for the standard library).
func (w *W) ensureInit(p *ssa.Package) {
	if p == nil || w.initDone[p] {
		return
	}
	w.initDone[p] = true
	// Initialisation does not depend on the path: it runs outside of any
	// speculation, so that every worker merges the same regions.
	spec := w.spec
	w.spec = 0
	defer func() { w.spec = spec }()
	w.eng.ensureBuilt(p)
	f := p.Func("init")
	if f == nil {
		return
	}
	std := !w.eng.repoPkgs[p]
	if std && noInit[p.Pkg.Path()] {
		return
	}
	steps := w.steps
	defer func() {
		w.steps = steps
		if e := recover(); e != nil {
			if pa, ok := e.(*pathAbort); ok {
				pa.msg = "init of " + p.Pkg.Path() + ": " + pa.msg
				delete(w.initDone, p)
				w.eng.globMu.Lock()
				for i := range w.globs {
					if w.eng.globList[i].Pkg == p {
						w.globs[i] = nil
					}
				}
				w.eng.globMu.Unlock()
			}
			panic(e)
		}
	}()
	fn := w.eng.fnOf(f)
	if !fn.ready.Load() {
		fn.compile(w.eng)
	}
	stk, top := w.regStk, w.regTop
	fr := Frame{w: w, fn: fn, caller: w.topFrame}
	fr.regs = w.pushRegs(fn.nregs)
	w.frames++
	saveTop := w.topFrame
	w.topFrame = &fr
	w.exec(&fr, fn.blocks[0])
	w.topFrame = saveTop
	w.frames--
	w.regStk, w.regTop = stk, top
}

// packages whose initialisation touches the operating system and whose
// globals are only used through modelled functions
var noInit = map[string]bool{
	"os": true, "syscall": true, "net": true, "runtime": true, "internal/poll": true, "time": true, "log": true, "internal/syscall/unix": true, "internal/godebug": true, "internal/cpu": true, "reflect": true,
	"internal/bytealg": true,
}
