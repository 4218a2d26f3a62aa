// Driver for C18 and C19: what a run of the tool reads and writes.
package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/frk/gosql/internal/command"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

const nworkers = 8

// tree is the contents of a directory by relative path; directories end in a slash, symbolic links
// start with "\x00->".
type tree map[string]string

func (t tree) clone() tree {
	o := tree{}
	for k, v := range t {
		o[k] = v
	}
	return o
}

func (t tree) write(dir string) error {
	if err := os.RemoveAll(dir); err != nil {
		return err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for p, c := range t {
		p = filepath.Join(dir, p)
		if strings.HasSuffix(p, "/") || c == "\x00dir" {
			if err := os.MkdirAll(p, 0o755); err != nil {
				return err
			}
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if strings.HasPrefix(c, "\x00->") {
			if err := os.Symlink(c[3:], p); err != nil {
				return err
			}
			continue
		}
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func readTree(dir string) (tree, error) {
	t := tree{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			t[rel] = "\x00->" + l
		case fi.IsDir():
			if es, _ := os.ReadDir(p); len(es) == 0 {
				t[rel] = "\x00dir"
			}
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			t[rel] = string(b)
		}
		return nil
	})
	return t, err
}

// diff lists the paths at which two trees differ.
func diff(a, b tree) (out []string) {
	for p, c := range a {
		d, ok := b[p]
		switch {
		case !ok:
			out = append(out, p+" removed")
		case c != d:
			out = append(out, p+" changed")
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out = append(out, p+" created")
		}
	}
	sort.Strings(out)
	return out
}

type driver struct {
	r   *vf.Run
	bin string
	dsn string
}

func (d *driver) must(err error) {
	if err != nil {
		d.r.Fatal("%v", err)
	}
}

// exec runs the built command.
func (d *driver) exec(dir string, env []string, args ...string) (ok bool, out string) {
	// a run takes about a second
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, d.bin, args...)
	c.WaitDelay = time.Second
	c.Dir = dir
	c.Env = append(append(os.Environ(), "PWD="+dir), env...)
	b, err := c.CombinedOutput()
	return err == nil, string(b)
}

// receivers gives the receiver types of the methods of generated code, in order, and what is wrong with it.
func receivers(src, pkg string) (out []string, bad string) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, "does not parse: " + err.Error()
	}
	if b, err := format.Source([]byte(src)); err != nil || !bytes.Equal(b, []byte(src)) {
		return nil, "is not formatted"
	}
	if f.Name.Name != pkg {
		return nil, "is of package " + f.Name.Name + ", want " + pkg
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv == nil || len(fd.Recv.List) != 1 {
			continue
		}
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok && (len(out) == 0 || out[len(out)-1] != id.Name) {
			out = append(out, id.Name)
		}
	}
	return out, ""
}

const goMod = "module example.com/m\n\ngo 1.23.0\n\nrequire github.com/frk/gosql v0.0.0\n\nreplace github.com/frk/gosql => %s\n"

func (d *driver) base() tree {
	sum, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "go.sum"))
	d.must(err)
	return tree{"go.mod": fmt.Sprintf(goMod, os.Getenv("VERIF_REPO")), "go.sum": string(sum)}
}

// child is the command with the file size signal ignored, so that writes fail instead.
func child() {
	signal.Ignore(syscall.SIGXFSZ)
	cfg := config.DefaultConfig
	cfg.ParseFlags(command.PrintUsage)
	err := cfg.ParseFile()
	if err == nil {
		var c *command.Command
		if c, err = command.New(cfg); err == nil {
			err = c.Run()
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

func main() {
	if os.Getenv("VF_TOOL_CHILD") != "" {
		child()
	}
	r := vf.Start()
	d := &driver{r: r, bin: filepath.Join(vf.Work(), "gosql")}
	c := exec.Command("go", "build", "-o", d.bin, "./cmd/gosql")
	c.Dir = os.Getenv("VERIF_REPO")
	if out, err := c.CombinedOutput(); err != nil {
		r.Fatal("building the command: %s", out)
	}
	pg := r.StartPG()
	d.dsn = pg.DSN("postgres")
	db := pg.Open(r, "postgres")
	r.Exec(db, `CREATE TABLE t (id int PRIMARY KEY, name text, num int NOT NULL)`)
	db.Close()
	switch r.Prop {
	case "C18":
		d.c18()
	case "C19":
		d.c19()
	default:
		r.Fatal("unknown property %s", r.Prop)
	}
	r.Finish()
}
