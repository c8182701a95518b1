package props

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/mc/engine"
)

// Programs for the fault checks are built with a package os whose file
// operations are counted and fail when told to (an overlay of the standard
// library; the code under test is compiled as it is).

var faultHooks = []struct{ sig, as string }{
	{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {", "func verifOpenFile(name string, flag int, perm FileMode) (*File, error) {"},
	{"func (f *File) Close() error {", "func (f *File) verifClose() error {"},
	{"func (f *File) Read(b []byte) (n int, err error) {", "func (f *File) verifRead(b []byte) (n int, err error) {"},
	{"func (f *File) ReadAt(b []byte, off int64) (n int, err error) {", "func (f *File) verifReadAt(b []byte, off int64) (n int, err error) {"},
	{"func (f *File) Seek(offset int64, whence int) (ret int64, err error) {", "func (f *File) verifSeek(offset int64, whence int) (ret int64, err error) {"},
	{"func (f *File) Stat() (FileInfo, error) {", "func (f *File) verifStat() (FileInfo, error) {"},
	{"func Mkdir(name string, perm FileMode) error {", "func verifMkdir(name string, perm FileMode) error {"},
	{"func (f *File) Write(b []byte) (n int, err error) {", "func (f *File) verifWrite(b []byte) (n int, err error) {"},
}

// faultBuild builds the reader (if wanted) and commands of the repository.
func faultBuild(reader bool, cmds ...string) func(root string) error {
	return func(root string) error {
		if err := faultTry(root, reader, cmds); err != nil {
			if os.Getenv("VERIF_DEGRADED") == "" {
				os.Setenv("VERIF_DEGRADED", err.Error())
			}
			fmt.Fprintln(os.Stderr, "not explored, the fault injector cannot be built:", err)
		}
		return nil
	}
}

func faultTry(root string, reader bool, cmds []string) error {
	src := filepath.Join(engine.VerifDir, "mc", "fault")
	dst := filepath.Join(root, "overlay")
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	out, err := exec.Command("go", "list", "-f", "{{.Dir}}\n{{range .GoFiles}}{{.}}\n{{end}}", "os").Output()
	if err != nil {
		return err
	}
	l := strings.Fields(string(out))
	replace := map[string]string{filepath.Join(l[0], "zz_verif.go"): filepath.Join(dst, "zz_verif.go")}
	b, err := os.ReadFile(filepath.Join(src, "os_fault.go.txt"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_verif.go"), b, 0644); err != nil {
		return err
	}
	done := 0
	for _, f := range l[1:] {
		b, err := os.ReadFile(filepath.Join(l[0], f))
		if err != nil {
			return err
		}
		s := string(b)
		for _, h := range faultHooks {
			if strings.Contains(s, "\n"+h.sig) {
				s = strings.Replace(s, "\n"+h.sig, "\n"+h.as, 1)
				done++
			}
		}
		if s != string(b) {
			if err := os.WriteFile(filepath.Join(dst, f), []byte(s), 0644); err != nil {
				return err
			}
			replace[filepath.Join(l[0], f)] = filepath.Join(dst, f)
		}
	}
	if done != len(faultHooks) {
		return fmt.Errorf("%d of %d operations of package os found", done, len(faultHooks))
	}
	o, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	overlay := filepath.Join(dst, "overlay.json")
	if err := os.WriteFile(overlay, o, 0644); err != nil {
		return err
	}
	build := func(dir, name, pkg string) error {
		cmd := exec.Command("go", "build", "-overlay", overlay, "-o", filepath.Join(root, name), pkg)
		cmd.Dir = dir
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%v: %s", err, out)
		}
		return nil
	}
	if reader {
		d := filepath.Join(root, "reader.src")
		os.MkdirAll(d, 0755)
		mod, err := os.ReadFile(filepath.Join(engine.VerifDir, "mc", "go.mod"))
		if err != nil {
			return err
		}
		os.WriteFile(filepath.Join(d, "go.mod"), mod, 0644)
		m, err := os.ReadFile(filepath.Join(src, "reader.go.txt"))
		if err != nil {
			return err
		}
		os.WriteFile(filepath.Join(d, "main.go"), m, 0644)
		if err := build(d, "reader", "."); err != nil {
			return err
		}
	}
	for _, c := range cmds {
		if err := build(filepath.Join(engine.VerifDir, "mc"), c, "github.com/pbnjay/grate/cmd/"+c); err != nil {
			return err
		}
	}
	return nil
}

// faultKinds are the ways an operation of a class may fail.
var faultKinds = map[string][]string{
	"open":  {"io", "mfile", "access"},
	"read":  {"io", "one", "half"},
	"pread": {"io", "half"},
	"seek":  {"io"},
	"stat":  {"io"},
	"close": {"io"},
	"mkdir": {"nospace", "access"},
	"write": {"nospace", "partial-nospace", "io"},
}
