package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Loaded is the SSA form of the packages under check plus the harnesses.
type Loaded struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	mu      sync.Mutex
	built   sync.Map
	initErr map[string]map[string]bool
	overlay map[string]string // repo path -> harness file
	modfile string            // go.mod with seams, if any
	scratch string            // of the seams
	dropped []string
}

func (ld *Loaded) noteInit(pkg, msg string) {
	ld.mu.Lock()
	defer ld.mu.Unlock()
	if ld.initErr[pkg] == nil {
		ld.initErr[pkg] = map[string]bool{}
	}
	ld.initErr[pkg][msg] = true
}

func (ld *Loaded) ensureBuilt(fn *ssa.Function) {
	if fn.Blocks != nil {
		// may be concurrently under construction unless its package is done
	}
	pkg := fn.Pkg
	if pkg == nil {
		if o := fn.Origin(); o != nil {
			pkg = o.Pkg
		}
	}
	if pkg != nil {
		if _, ok := ld.built.Load(pkg); !ok {
			pkg.Build()
			ld.built.Store(pkg, true)
		}
	}
}

const repoMod = "sigs.k8s.io/instrumentation-tools"

// harnessFiles maps overlay destinations to harness sources. The directory
// layout under harness/ mirrors the repository.
func harnessFiles(hdir, repo string, props map[string]bool) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		base := filepath.Base(rel)
		id := strings.SplitN(strings.TrimSuffix(base, ".go"), "_", 2)[0]
		dir := filepath.Dir(rel)
		if dir == "zzvsym" {
			out[filepath.Join(repo, rel)] = p
			return nil
		}
		if id != "common" && !props[id] {
			return nil
		}
		out[filepath.Join(repo, dir, "zz_verif_"+base)] = p
		return nil
	})
	return out, err
}

// Close removes what Load left on disk.
func (ld *Loaded) Close() {
	if ld.scratch != "" {
		os.RemoveAll(ld.scratch)
	}
}

// Load parses and type-checks the repository with the harness overlay.
func Load(repo, hdir string, props map[string]bool) (res *Loaded, err error) {
	ov, err := harnessFiles(hdir, repo, props)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	dirs := map[string]bool{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
		id := strings.TrimPrefix(filepath.Base(dst), "zz_verif_")
		if !strings.HasPrefix(id, "common") && !strings.Contains(dst, "/zzvsym/") {
			dirs[filepath.Dir(dst)] = true
		}
	}
	// common files only matter for packages that have a property harness
	for dst := range ov {
		if strings.HasPrefix(filepath.Base(dst), "zz_verif_common") && !dirs[filepath.Dir(dst)] {
			delete(ov, dst)
			delete(overlay, dst)
		}
	}
	if len(dirs) == 0 {
		return nil, fmt.Errorf("no harness files")
	}
	var pats []string
	for d := range dirs {
		rel, _ := filepath.Rel(repo, d)
		pats = append(pats, "./"+rel)
	}
	sort.Strings(pats)
	ld := &Loaded{pkgs: map[string]*ssa.Package{}, initErr: map[string]map[string]bool{}, overlay: ov}
	defer func() {
		if err != nil {
			ld.Close()
		}
	}()
	flags := []string{"-tags=purego"}
	if ss := seams(ov); len(ss) > 0 {
		if ld.scratch, err = os.MkdirTemp("", "vsym-seams-"); err != nil {
			return nil, err
		}
		if ld.modfile, err = makeSeams(repo, ld.scratch, ss); err != nil {
			return nil, err
		}
		flags = append(flags, "-modfile="+ld.modfile)
	}
	var initial []*packages.Package
	for try := 0; try < 6; try++ {
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repo,
			Overlay: overlay,
			Env:     append(os.Environ(), "CGO_ENABLED=0"),
			// portable variants instead of assembly, which cannot be encoded
			BuildFlags: flags,
			Fset:       token.NewFileSet(),
		}
		initial, err = packages.Load(cfg, append(pats, "runtime", "errors", "fmt")...)
		if err != nil {
			return nil, err
		}
		// drop harness files that no longer type-check
		bad := map[string]string{}
		other := []string{}
		packages.Visit(initial, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, repoMod) {
				return
			}
			for _, e := range p.Errors {
				f := strings.SplitN(e.Pos, ":", 2)[0]
				if strings.HasPrefix(filepath.Base(f), "zz_verif_") {
					bad[f] = e.Pos + ": " + e.Msg
				} else {
					other = append(other, e.Pos+": "+e.Msg)
				}
			}
		})
		if len(bad) == 0 {
			if len(other) > 0 {
				return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(other, "; "))
			}
			break
		}
		for f, msg := range bad {
			ld.dropped = append(ld.dropped, msg)
			if _, ok := overlay[f]; !ok {
				return nil, fmt.Errorf("cannot drop %s: %s", f, msg)
			}
			delete(overlay, f)
			delete(ov, f)
		}
	}
	prog := ssa.NewProgram(initial[0].Fset, ssa.InstantiateGenerics)
	created := map[*packages.Package]*ssa.Package{}
	packages.Visit(initial, nil, func(p *packages.Package) {
		if p.Types == nil || p.IllTyped && strings.HasPrefix(p.PkgPath, repoMod) {
			return
		}
		created[p] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
	})
	for p, s := range created {
		ld.pkgs[p.PkgPath] = s
	}
	ld.prog = prog
	_ = types.Universe
	return ld, nil
}
