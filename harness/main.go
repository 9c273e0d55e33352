// vp runs the check of one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"verif/checks"
	"verif/mc"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "run a single case")
	root := flag.String("root", "/verif", "root of the verification tree")
	dl := flag.Int("deadline", 0, "seconds")
	child := flag.Bool("child", false, "internal")
	prog := flag.String("progress", "", "internal")
	flag.Parse()
	c, ok := checks.All[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if *dl == 0 {
		*dl = 420
		if *tier == "thorough" {
			*dl = 800
		}
	}
	if !*child {
		os.Exit(parent(*prop, *tier, *only, *root, *dl))
	}
	debug.SetGCPercent(400)
	mc.Out = os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	r := mc.New(*prop, *tier)
	r.Only, r.Root = *only, *root
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		r.Seed = s
	}
	r.Deadline = time.Now().Add(time.Duration(*dl) * time.Second)
	r.LoadFindings(filepath.Join(*root, "KNOWN_FINDINGS.txt"))
	if *prog != "" {
		r.ProgressTo(*prog)
	}
	r.Watch()
	if err := mc.Guard(func() error { c(r); return nil }); err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(9)
	}
	r.Wait()
	ok = r.Finish()
	os.WriteFile(*prog+".done", []byte("x"), 0644)
	if ok {
		os.Exit(0)
	}
	os.Exit(1)
}

// parent runs the exploration in a child so that a fatal crash of the code
// under test (stack exhaustion, concurrent map access, os.Exit) is attributed
// to a case and reported.
func parent(prop, tier, only, root string, dl int) int {
	dir, err := os.MkdirTemp("", "vp")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	prog := filepath.Join(dir, "progress")
	args := []string{"-child", "-prop", prop, "-tier", tier, "-root", root, "-deadline", strconv.Itoa(dl), "-progress", prog}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VP_SCRATCH="+dir)
	var tail tailBuf
	cmd.Stdout = os.Stdout
	cmd.Stderr = &tail
	err = cmd.Run()
	_, derr := os.Stat(prog + ".done")
	if err == nil && derr == nil {
		return 0
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 1 && derr == nil {
		return 1
	}
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 9 && strings.Contains(tail.String(), "harness error:") {
		fmt.Fprintln(os.Stderr, tail.String())
		return 2
	}
	if err == nil {
		err = fmt.Errorf("exit status 0 before the exploration ended")
	}
	// fatal crash
	b, _ := os.ReadFile(prog)
	rep := filepath.Join(root, "replays", prop+"-crash.txt")
	os.MkdirAll(filepath.Dir(rep), 0755)
	os.WriteFile(rep, []byte(fmt.Sprintf("property: %s\nthe process died: %v\ncases in progress:\n%s\n\n%s\n", prop, err, b, tail.String())), 0644)
	r := mc.New(prop, tier)
	r.Root, r.Only = root, only
	r.Bound("the exploration was cut short by a fatal crash")
	fmt.Printf("  the process under test died (%v) while executing:\n%s\n%s\n", err, b, tail.crash())
	r.Report("crash|"+strings.SplitN(string(b), "\n", 2)[0], "process died: "+tail.crash())
	r.Finish()
	return 1
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }
func (t *tailBuf) crash() string {
	for _, l := range strings.Split(string(t.b), "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: ") || strings.HasPrefix(l, "unexpected fault") {
			return l
		}
	}
	return ""
}
