package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Packages from which functions are not passed through unless listed, because
// they would touch the real machine.
var strict = map[string]map[string]bool{
	"os":  set("IsExist IsNotExist IsPermission IsTimeout NewSyscallError IsPathSeparator Expand"),
	"net": set("ParseIP ParseCIDR ParseMAC SplitHostPort JoinHostPort IPv4 CIDRMask IPv4Mask TCPAddrFromAddrPort"),
	"net/http": set("StatusText Error NotFound NotFoundHandler Redirect DetectContentType CanonicalHeaderKey NewRequest " +
		"MaxBytesReader StripPrefix NewServeMux SetCookie ParseHTTPVersion ParseTime"),
	"os/user": {}, "io/ioutil": set("ReadAll NopCloser"), "os/signal": {},
	"runtime": {}, "runtime/debug": {}, "log": {}, "flag": {}, "context": {}, "time": set("ParseDuration Date Unix UnixMilli UnixMicro Parse ParseInLocation FixedZone LoadLocation"),
	"math/rand": set("New NewSource NewZipf"), "math/rand/v2": set("New NewPCG NewChaCha8 NewZipf"), "crypto/rand": {},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

// genShim copies the hand-written shim of a package and fills in aliases for
// the rest of the package's exported names.
func genShim(path string, imp types.Importer, shimDir, out string) {
	real, err := imp.Import(path)
	if err != nil {
		die("import %s: %v", path, err)
	}
	od := filepath.Join(out, "verifsim", "shim", path)
	if err := os.MkdirAll(od, 0o755); err != nil {
		die("%v", err)
	}
	have := map[string]bool{}
	ents, _ := os.ReadDir(filepath.Join(shimDir, path))
	fs := token.NewFileSet()
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(shimDir, path, e.Name()))
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fs, e.Name(), b, 0)
		if err != nil {
			die("shim %s: %v", path, err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
		txt := strings.ReplaceAll(string(b), "MODPATH", modPath)
		if err := os.WriteFile(filepath.Join(od, e.Name()), []byte(txt), 0o644); err != nil {
			die("%v", err)
		}
	}
	var names []string
	for _, n := range real.Scope().Names() {
		if token.IsExported(n) && !have[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport real__ %q\n\n", real.Name(), path)
	wrote := false
	for _, n := range names {
		switch o := real.Scope().Lookup(n).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real__.%s\n", n, n)
			wrote = true
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real__.%s\n", n, n)
			wrote = true
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real__.%s\n", n, n)
			wrote = true
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			if allow, ok := strict[path]; ok && !allow[n] {
				continue
			}
			fmt.Fprintf(&b, "var %s = real__.%s\n", n, n)
			wrote = true
		}
	}
	if !wrote {
		b.Reset()
		fmt.Fprintf(&b, "package %s\n", real.Name())
	}
	if err := os.WriteFile(filepath.Join(od, "zz_alias.go"), []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
}
