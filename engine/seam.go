package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

// A seam lets a harness stand in for a function of a dependency that reaches
// outside the process (the real terminal, say). A harness file asks for it with
//
//	// seam: github.com/gdamore/tcell NewScreen
//
// and sets tcell.ZzNewScreen. The repository itself is left as it is: the
// module is copied, the function calls the variable, and both the engine and
// the native replay load the copy through -modfile.
var seamRE = regexp.MustCompile(`(?m)^// seam: (\S+) (\w+)$`)

type seam struct{ pkg, fn string }

func seams(files map[string]string) []seam {
	var out []seam
	seen := map[seam]bool{}
	for _, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			continue
		}
		for _, m := range seamRE.FindAllStringSubmatch(string(b), -1) {
			s := seam{m[1], m[2]}
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

// makeSeams returns the path of a go.mod that replaces the modules of the
// seams by edited copies in dir.
func makeSeams(repo, dir string, ss []seam) (string, error) {
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	copied := map[string]string{}
	for _, s := range ss {
		cmd := exec.Command("go", "list", "-f", "{{.Dir}}\n{{.Module.Path}}\n{{.Module.Dir}}", s.pkg)
		cmd.Dir = repo
		b, err := cmd.Output()
		if err != nil {
			return "", fmt.Errorf("go list %s: %v", s.pkg, err)
		}
		f := strings.Split(strings.TrimSpace(string(b)), "\n")
		if len(f) != 3 {
			return "", fmt.Errorf("go list %s: %q", s.pkg, b)
		}
		to := copied[f[1]]
		if to == "" {
			to = filepath.Join(dir, fmt.Sprintf("mod%d", len(copied)))
			if err := copyTree(f[2], to); err != nil {
				return "", err
			}
			copied[f[1]] = to
			mod = append(mod, []byte("\nreplace "+f[1]+" => "+to+"\n")...)
		}
		rel, _ := filepath.Rel(f[2], f[0])
		if err := editSeam(filepath.Join(to, rel), s.fn); err != nil {
			return "", err
		}
	}
	out := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(out, mod, 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	return out, os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
}

// editSeam renames the function fn of the package in dir to Zz_fn and puts a
// function in its place that calls the variable Zzfn.
func editSeam(dir, fn string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != fn {
				continue
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			var args []string
			for _, par := range fd.Type.Params.List {
				if _, ok := par.Type.(*ast.Ellipsis); ok {
					return fmt.Errorf("seam: %s is variadic", fn)
				}
				for _, n := range par.Names {
					args = append(args, n.Name)
				}
			}
			ret := ""
			if fd.Type.Results != nil {
				ret = "return "
			}
			sig := string(src[off(fd.Type.Params.Pos()):off(fd.Body.Pos())])
			text := string(src[:off(fd.Name.Pos())]) + fn + sig + "{ " + ret + "Zz" + fn + "(" + strings.Join(args, ", ") + ") }\n\n" +
				"var Zz" + fn + " = zz_" + fn + "\n\nfunc zz_" + fn + string(src[off(fd.Type.Params.Pos()):])
			return os.WriteFile(p, []byte(text), 0o644)
		}
	}
	return fmt.Errorf("seam: no function %s in %s", fn, dir)
}
