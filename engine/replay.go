package main

// Native re-execution of harnesses with the values of one model.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
)

type runner struct {
	pkg  string
	dir  string
	once sync.Once
	bin  string
	err  error
	race sync.Once
	rbin string
	rerr error
	wg   sync.WaitGroup
}

func newRunner(pkg string) *runner { return &runner{pkg: pkg} }

func (r *runner) close() {
	r.wg.Wait()
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *runner) buildAsync() {
	r.wg.Add(1)
	go func() { defer r.wg.Done(); r.build() }()
}

func (r *runner) build() error {
	r.once.Do(func() { r.bin, r.err = r.compile(false) })
	return r.err
}

func (r *runner) buildRace() error {
	r.race.Do(func() { r.rbin, r.rerr = r.compile(true) })
	return r.rerr
}

var mkdir sync.Mutex

func (r *runner) compile(race bool) (string, error) {
	mkdir.Lock()
	if r.dir == "" {
		d, err := os.MkdirTemp("", "gosmt-")
		if err != nil {
			mkdir.Unlock()
			return "", err
		}
		r.dir = d
	}
	mkdir.Unlock()
	ov, err := overlayFiles(repoDir, filepath.Join(verifDir, "harness"), []string{"v", "world", r.pkg})
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th \"%s%s\"\n\t\"%sv\"\n)\n\nfunc main() {\n\tv.Main(map[string]func(){\n", zzPrefix, r.pkg, zzPrefix)
	for _, h := range findHarnesses("all") {
		if h.pkg == r.pkg {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.fn, h.fn)
		}
	}
	sb.WriteString("\t})\n}\n")
	mainFile := filepath.Join(r.dir, "main.go")
	if err := os.WriteFile(mainFile, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep := map[string]string{filepath.Join(repoDir, "internal/zzverif/run_"+r.pkg, "main.go"): mainFile}
	for k, f := range ov {
		rep[k] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(r.dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, "native")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	cgo := "CGO_ENABLED=0"
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin}
		cgo = "CGO_ENABLED=1"
	}
	args = append(args, zzPrefix+"run_"+r.pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), cgo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

type nativeResult struct {
	out     string
	code    int
	timeout bool
	obs     []string
}

func (r *runner) run(bin, fn, tier string, cs []choiceVal, attempt int, limit time.Duration) (*nativeResult, error) {
	b, _ := json.Marshal(map[string]any{"fn": fn, "tier": tier, "choices": cs})
	f, err := os.CreateTemp(r.dir, "script-")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	f.Write(b)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	tmp := filepath.Join(r.dir, fmt.Sprintf("tmp-%s", filepath.Base(f.Name())))
	os.MkdirAll(tmp, 0o755)
	defer os.RemoveAll(tmp)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_SCRIPT="+f.Name(), fmt.Sprintf("VERIF_ATTEMPT=%d", attempt), "TMPDIR="+tmp,
		"GOTRACEBACK=single", "GOMEMLIMIT=4GiB", "GIN_MODE=release", "GORACE=halt_on_error=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = time.Second
	out, err := cmd.CombinedOutput()
	res := &nativeResult{out: string(out)}
	if ctx.Err() != nil {
		res.timeout = true
		return res, nil
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			res.code = ee.ExitCode()
		} else {
			return nil, err
		}
	}
	for _, l := range strings.Split(res.out, "\n") {
		if o, ok := strings.CutPrefix(l, "OBS "); ok {
			res.obs = append(res.obs, o)
		}
	}
	return res, nil
}

var vioRE = regexp.MustCompile(`(?m)^VERIF-VIOLATION.*$`)
var panicRE = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|WARNING: DATA RACE)$`)

// failed says whether a native run broke the property, and how.
func (res *nativeResult) failed() (bool, string) {
	if m := vioRE.FindString(res.out); m != "" {
		return true, "native run: " + m
	}
	if m := panicRE.FindString(res.out); m != "" {
		return true, "native run: " + m
	}
	return false, ""
}

// confirm replays a counterexample against the natively compiled code.
func (r *runner) confirm(v *violation) (bool, string) {
	if err := r.build(); err != nil {
		return false, err.Error()
	}
	bin := r.bin
	if v.Kind == "race" {
		if err := r.buildRace(); err == nil {
			bin = r.rbin
		}
	}
	attempts, limit := 1, 10*time.Second
	if v.Nondet {
		attempts = 60
	}
	t0 := time.Now()
	last := ""
	for i := 0; i < attempts && time.Since(t0) < 40*time.Second; i++ {
		res, err := r.run(bin, v.Fn, v.Tier, v.Choices, i, limit)
		if err != nil {
			return false, err.Error()
		}
		if res.timeout {
			if v.Kind == "hang" || v.Kind == "steps" {
				return true, fmt.Sprintf("native run does not end within %v", limit)
			}
			last = "native run timed out"
			if i >= 2 {
				break
			}
			continue
		}
		if ok, how := res.failed(); ok {
			return true, how
		}
		last = fmt.Sprintf("native run ended with %d: %s", res.code, tail(res.out))
	}
	return false, last
}

func tail(s string) string {
	if len(s) > 300 {
		return "…" + s[len(s)-300:]
	}
	return s
}

// validate re-runs sample paths natively and compares the observations.
func (r *runner) validate(x *Explorer) (int, []string, *violation) {
	if len(x.samples) == 0 {
		return 0, nil, nil
	}
	if err := r.build(); err != nil {
		return 0, []string{err.Error()}, nil
	}
	type out struct {
		ok  bool
		mm  string
		vio *violation
	}
	outs := make([]out, len(x.samples))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, s := range x.samples {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			one := func() (o out) {
				res, err := r.run(r.bin, x.name, x.tier, s.choices, 0, 20*time.Second)
				if err != nil {
					o.mm = err.Error()
				} else if bad, how := res.failed(); bad {
					o.vio = &violation{Fn: x.name, Kind: "native", Msg: how, Choices: s.choices, Tier: x.tier, Where: how}
				} else if strings.Join(res.obs, "\n") != strings.Join(s.obs, "\n") {
					o.mm = fmt.Sprintf("%s: native observations differ for %v: native %q symbolic %q (code %d %s)", x.name, s.choices, res.obs, s.obs, res.code, tail(res.out))
				} else {
					o.ok = true
				}
				return o
			}
			outs[i] = one()
			for again := 0; again < 2 && s.nondet && !outs[i].ok; again++ {
				outs[i] = one() // processes and ports of the machine may be busy
			}
		}()
	}
	wg.Wait()
	n := 0
	var mms []string
	var vio *violation
	for _, o := range outs {
		if o.ok {
			n++
		}
		if o.mm != "" {
			mms = append(mms, o.mm)
		}
		if o.vio != nil && vio == nil {
			vio = o.vio
		}
	}
	return n, mms, vio
}
