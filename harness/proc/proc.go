// Package proc: the whole program (C39). Natively it runs as a process of its own.
package proc

import (
	"bytes"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"syscall"
	"time"

	_ "recengine/internal/zzverif/api" // its model of the validator
	"recengine/internal/zzverif/app"
	"recengine/internal/zzverif/rootmain"
	"recengine/internal/zzverif/v"
	"recengine/internal/zzverif/world"
)

func init() {
	if os.Getenv("VERIF_CHILD") == "program" {
		rootmain.Main()
		os.Exit(0)
	}
}

// program is a running instance.
type program struct {
	ended chan int // exit code
	cmd   *exec.Cmd
	port  int
}

var current *program

//verif:subst os.Exit
func exit(code int) {
	current.ended <- code
	select {}
}

//verif:subst log.Fatalf
func fatalf(format string, args ...any) { exit(1) }

//verif:subst log.Fatal
func fatal(args ...any) { exit(1) }

//verif:subst log.Fatalln
func fatalln(args ...any) { exit(1) }

// start runs the program in the scratch directory until it listens or ends.
func start(port int) (p *program, code int, listens bool) { return launch(port, false) }

// startBusy runs the program when the address is in use.
func startBusy(port int) (p *program, code int, listens bool) { return launch(port, true) }

func launch(port int, busy bool) (p *program, code int, listens bool) {
	p = &program{ended: make(chan int, 2), port: port}
	current = p
	app.Expect(busy)
	if !v.Native() {
		os.Chdir(v.TempDir())
		go func() {
			rootmain.Main()
			p.ended <- 0
		}()
		select {
		case <-app.Up():
			return p, 0, true
		case code := <-p.ended:
			forget()
			return p, code, false
		}
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p.cmd = exec.Command(self)
	p.cmd.Dir = v.TempDir()
	for _, e := range os.Environ() {
		if len(e) < 4 || e[:4] != "REC_" {
			p.cmd.Env = append(p.cmd.Env, e)
		}
	}
	p.cmd.Env = append(p.cmd.Env, "VERIF_CHILD=program", "GIN_MODE=release")
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		p.cmd.Wait()
		p.ended <- p.cmd.ProcessState.ExitCode()
	}()
	for i := 0; i < 1500; i++ {
		if !busy {
			c, err := net.Dial("tcp", "127.0.0.1:"+strconv.Itoa(port))
			if err == nil {
				c.Close()
				return p, 0, true
			}
		}
		select {
		case code := <-p.ended:
			return p, code, false
		case <-time.After(10 * time.Millisecond):
		}
	}
	p.cmd.Process.Kill()
	return p, -1, false
}

// stop sends a signal and waits for the end.
func (p *program) stop(sig int) int {
	if v.Native() {
		p.cmd.Process.Signal(syscall.Signal(sig))
		select {
		case code := <-p.ended:
			return code
		case <-time.After(8 * time.Second):
			p.cmd.Process.Kill()
			return -1
		}
	}
	v.Assert(v.DeliverSignal(sig), "the signal is handled")
	code := <-p.ended
	forget()
	return code
}

// kill ends the program at once.
func (p *program) kill() {
	if v.Native() {
		p.cmd.Process.Kill()
		<-p.ended
	}
	forget()
}

// forget drops what the process leaves behind in this one.
func forget() {
	v.Abandon()
	for _, name := range []string{"REC_PATH", "REC_HOST", "REC_PORT"} {
		os.Unsetenv(name)
	}
}

func (p *program) send(method, path string, data []byte) (int, []byte) {
	if !v.Native() {
		return app.Send(method, path, data)
	}
	req, err := http.NewRequest(method, "http://127.0.0.1:"+strconv.Itoa(p.port)+path, bytes.NewReader(data))
	if err != nil {
		panic(err)
	}
	r, err := http.DefaultClient.Do(req)
	if err != nil {
		return 0, nil
	}
	defer r.Body.Close()
	b, _ := io.ReadAll(r.Body)
	return r.StatusCode, b
}

// freePort is a port nobody listens at.
func freePort() int {
	if !v.Native() {
		return 8123
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

type namespace struct {
	Name   string  `json:"name"`
	Type   string  `json:"type,omitempty"`
	Max    uint    `json:"maxSimilarProfiles"`
	Factor float32 `json:"dislikeFactor"`
}

func configure(port int, path string) {
	env := "REC_HOST=127.0.0.1\nREC_PORT=" + strconv.Itoa(port) + "\nREC_PATH=" + path + "\n"
	v.Assert(os.WriteFile(v.TempDir()+"/.env", []byte(env), 0644) == nil, "configured")
}

// limit is any of up to two digits.
func limit() uint {
	x := uint(v.U64("limit"))
	v.Assume(v.And(x > 0, x < 100))
	return x
}

const base = "/api/v1/namespaces"

// C39_Restart: what one run registers, the next one serves.
func C39_Restart() {
	v.Preemptions(0)
	v.Option("oneschedule", 1+v.Choose("schedule", v.Bound("schedules", 2, 3)))
	v.MapOrder(1)
	v.Option("latetimers", 1)
	v.Option("validate", 1)
	port := freePort()
	sub := []string{"", "data", "data/", v.TempDir() + "/data"}[v.Choose("REC_PATH", 4)]
	os.Mkdir(v.TempDir()+"/data", 0755)
	configure(port, sub)
	names := []string{"a", "b"}
	max := [2]uint{limit(), limit()}
	const factor = 0.5
	here := [2]bool{}
	runs := v.Bound("runs", 4, 5)
	for run := 0; run < runs; run++ {
		p, _, ok := start(port)
		v.Assert(ok, "the program starts")
		v.Assert(v.Native() || app.Addr() == "127.0.0.1:"+strconv.Itoa(port), "at the configured address")
		status, data := p.send("GET", base, nil)
		v.Assert(status == 200, "the API is served")
		var list []namespace
		v.Assert(json.Unmarshal(data, &list) == nil, "a list")
		n := 0
		for i, h := range here {
			if !h {
				continue
			}
			n++
			found := 0
			for _, x := range list {
				if x.Name == names[i] {
					found++
					v.Assert(x.Max == max[i], "with its settings")
				}
			}
			v.Assert(found == 1, "a namespace registered before is served")
			v.Reach("survived")
		}
		v.Obs("served", len(list))
		v.Assert(len(list) == n, "no other namespace is served")
		if run == runs-1 {
			v.Assert(p.stop(int(syscall.SIGTERM)) == 0, "the program ends")
			break
		}
		i := v.Choose("namespace", 2)
		if here[i] {
			max[i] = limit()
			old := names[i]
			if v.Choose("rename", 2) == 1 {
				names[i] += "x"
				v.Reach("renamed")
			}
			b, _ := json.Marshal(namespace{Name: names[i], Max: max[i], Factor: factor})
			status, _ = p.send("PUT", base+"/"+old, b)
			v.Assert(status == 200, "updated")
			v.Reach("updated")
		} else {
			b, _ := json.Marshal(namespace{names[i], "like", max[i], factor})
			status, _ = p.send("POST", base, b)
			v.Assert(status == 200 || status == 201, "created")
			here[i] = true
		}
		switch v.Choose("end", 3) {
		case 0:
			v.Assert(p.stop(int(syscall.SIGTERM)) == 0, "the program ends")
		case 1:
			v.Assert(p.stop(int(syscall.SIGINT)) == 0, "the program ends")
		default:
			p.kill()
			v.Reach("killed")
		}
	}
	for _, f := range world.Files() {
		dir := v.TempDir() + "/"
		if sub != "" {
			dir += "data/"
		}
		v.Assert(f == v.TempDir()+"/.env" || len(f) > len(dir) && f[:len(dir)] == dir, "files are written in the data directory only")
	}
	v.Reach("done")
}

// C39_FirstStart: without a usable registry the program starts with no namespaces.
func C39_FirstStart() {
	v.Preemptions(0)
	v.Option("latetimers", 1)
	v.Option("validate", 1)
	port := freePort()
	configure(port, "data")
	v.Assert(os.Mkdir(v.TempDir()+"/data", 0755) == nil, "prepared")
	file := v.TempDir() + "/data/namespaces.json"
	switch v.Choose("registry", 4) {
	case 0: // none
	case 1:
		v.Assert(os.WriteFile(file, nil, 0644) == nil, "prepared")
	case 2:
		v.Assert(os.WriteFile(file, []byte("{"), 0644) == nil, "prepared")
	default:
		b, _ := json.Marshal([]namespace{{"a", "unlike", 1, 1}})
		v.Assert(os.WriteFile(file, b, 0644) == nil, "prepared")
	}
	p, _, ok := start(port)
	v.Assert(ok, "the program starts")
	status, data := p.send("GET", base, nil)
	v.Assert(status == 200, "the API is served")
	var list []namespace
	v.Assert(json.Unmarshal(data, &list) == nil && len(list) == 0, "there are no namespaces")
	max := uint(v.U64("limit"))
	v.Assume(max > 0)
	b, _ := json.Marshal(namespace{"a", "like", max, 1})
	status, _ = p.send("POST", base, b)
	v.Assert(status == 200 || status == 201, "created")
	v.Assert(p.stop(int(syscall.SIGTERM)) == 0, "the program ends")
	p, _, ok = start(port)
	v.Assert(ok, "the program starts again")
	status, data = p.send("GET", base, nil)
	v.Assert(status == 200 && json.Unmarshal(data, &list) == nil, "a list")
	v.Obs("served", len(list))
	v.Assert(len(list) == 1 && list[0].Name == "a", "the namespace is served")
	v.Assert(list[0].Max == max, "with its settings")
	v.Assert(p.stop(int(syscall.SIGTERM)) == 0, "the program ends")
	v.Reach("done")
}

// C39_Unstartable: namespaces that cannot be started keep neither the program
// nor other namespaces from being served, and are kept.
func C39_Unstartable() {
	v.Preemptions(0)
	v.Option("latetimers", 1)
	v.Option("validate", 1)
	port := freePort()
	configure(port, "data")
	v.Assert(os.Mkdir(v.TempDir()+"/data", 0755) == nil, "prepared")
	max := uint(v.U64("limit"))
	v.Assume(max > 0)
	p, _, ok := start(port)
	v.Assert(ok, "the program starts")
	for _, name := range []string{"a", "b"} {
		b, _ := json.Marshal(namespace{name, "like", max, 1})
		status, _ := p.send("POST", base, b)
		v.Assert(status == 200 || status == 201, "created")
	}
	v.Assert(p.stop(int(syscall.SIGTERM)) == 0, "the program ends")
	// In place of its files
	which := []string{"a", "b"}[v.Choose("which", 2)]
	for _, suffix := range []string{".delta", ".index", ".recdb"} {
		os.RemoveAll(v.TempDir() + "/data/" + which + suffix)
		os.Mkdir(v.TempDir()+"/data/"+which+suffix, 0755)
	}
	for run := 0; run < 2; run++ {
		p, _, ok = start(port)
		v.Assert(ok, "the program starts")
		status, data := p.send("GET", base, nil)
		var list []namespace
		v.Assert(status == 200 && json.Unmarshal(data, &list) == nil, "a list")
		v.Obs("served", len(list))
		v.Assert(len(list) == 2, "the namespaces are served")
		for _, x := range list {
			v.Assert(x.Max == max, "with their settings")
		}
		v.Assert(p.stop(int(syscall.SIGTERM)) == 0, "the program ends")
	}
	v.Reach("done")
}

// C39_Failure: a program that cannot serve ends and says so.
func C39_Failure() {
	v.Preemptions(v.Bound("preemptions", 1, 2))
	v.Option("latetimers", 1)
	v.Option("validate", 1)
	port := freePort()
	if v.Choose("reason", 2) == 0 {
		_, code, ok := start(port)
		v.Obs("exit code", code)
		v.Assert(!ok && code != 0, "no configuration")
		v.Reach("no configuration")
		return
	}
	configure(port, "")
	var l net.Listener
	if v.Native() {
		var err error
		if l, err = net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(port)); err != nil {
			panic(err)
		}
		defer l.Close()
	}
	_, code, ok := startBusy(port)
	v.Obs("exit code", code)
	v.Assert(!ok && code != 0, "the address is in use")
	v.Reach("in use")
}
