package client

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

const patience = 40 * time.Second // real time

// nap sleeps in real time, also inside the bubble.
func nap(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	_ = syscall.Nanosleep(&ts, nil)
	pbt.Progress.Add(1)
}

func freePort() int {
	for {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			panic("HARNESS: no free port: " + err.Error())
		}
		p := l.Addr().(*net.TCPAddr).Port
		l.Close()
		if p != lastPort { // two in a row are used together
			lastPort = p
			return p
		}
	}
}

var lastPort int

// get is a plain HTTP request that leaves no goroutine behind.
func get(port int, path string) ([]byte, error) {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		return nil, err
	}
	defer c.Close()
	fmt.Fprintf(c, "GET %s HTTP/1.0\r\nHost: x\r\n\r\n", path)
	b, err := io.ReadAll(c)
	if err != nil {
		return nil, err
	}
	head, body, ok := bytes.Cut(b, []byte("\r\n\r\n"))
	if !ok || !bytes.Contains(head[:min(len(head), 20)], []byte(" 200")) {
		return nil, fmt.Errorf("answered %.60q", b)
	}
	return body, nil
}

type proc struct {
	cmd *exec.Cmd
	log *os.File
}

func launch(bin, cfg, dir, name string) (*proc, error) {
	p := &proc{cmd: exec.Command(bin, "-c", cfg)}
	p.cmd.Dir = dir
	f, err := os.Create(filepath.Join(dir, name+".log"))
	if err != nil {
		return nil, err
	}
	p.log = f
	p.cmd.Stdout, p.cmd.Stderr = f, f
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return p, p.cmd.Start()
}

// gone tells whether the process has ended.
func (p *proc) gone() bool {
	var ws syscall.WaitStatus
	pid, err := syscall.Wait4(p.cmd.Process.Pid, &ws, syscall.WNOHANG, nil)
	return err != nil || pid == p.cmd.Process.Pid
}

func (p *proc) kill() {
	if !p.gone() {
		_ = p.cmd.Process.Kill()
		for i := 0; i < 1000 && !p.gone(); i++ {
			nap(5 * time.Millisecond)
		}
	}
	p.log.Close()
}

func bothBinaries(c *pbt.C) {
	n := dict.IntRange(1, 6).Draw(c.T, "concurrency")
	ver := rapid.SampledFrom([]string{"2019", "2013"}).Draw(c.T, "version")
	plate := rapid.SampledFrom([]string{"京A[A-Z0-9]{5}", "粤[B-D][0-9]{6}"}).Draw(c.T, "plate")
	phone := rapid.SampledFrom([]string{"13[0-9]{9}", "[1-9][0-9]{10}"}).Draw(c.T, "phone")
	id := rapid.SampledFrom([]string{"[0-9]{7}", "[a-zA-Z0-9]{5,7}"}).Draw(c.T, "id")
	dir, err := os.MkdirTemp(pbt.OutDir(), "e2e")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	var server, cli *proc
	var tp, hp int
	for try := 0; ; try++ {
		tp, hp = freePort(), freePort()
		cfg := filepath.Join(dir, "server.yaml")
		_ = os.WriteFile(cfg, []byte(fmt.Sprintf("log:\n  consoleEnable: false\n  fileEnable: false\n  logLevel: ERROR\nserver:\n  name: t\n  port:\n    tcpPort: \"%d\"\n    httpPort: \"%d\"\n  banner:\n    enable: false\n", tp, hp)), 0o644)
		server, err = launch(os.Getenv("VERIF_SERVER_BIN"), cfg, dir, "server")
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		up := false
		for end := pbt.RealNow().Add(patience); pbt.RealNow().Before(end) && !up && !server.gone(); nap(10 * time.Millisecond) {
			_, err := get(hp, "/device")
			up = err == nil
		}
		if up {
			break
		}
		server.kill()
		if try == 10 {
			c.Fatalf("the server does not come up")
		}
	}
	defer server.kill()
	tmpl, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "test/client/configs/default.yaml"))
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	text := string(tmpl)
	set := func(key, val string) {
		re := regexp.MustCompile(`(?m)^(\s*)` + key + `:.*$`)
		if !re.MatchString(text) {
			panic("HARNESS: no setting " + key)
		}
		text = re.ReplaceAllString(text, "${1}"+key+": "+val)
	}
	set("remoteAddr", fmt.Sprintf("\"127.0.0.1:%d\"", tp))
	set("concurrency", fmt.Sprint(n))
	set("phoneReg", fmt.Sprintf("%q", phone))
	set("plateReg", fmt.Sprintf("%q", plate))
	set("idReg", fmt.Sprintf("%q", id))
	set("protocolVersion", fmt.Sprintf("%q", ver))
	set("keepalive", "1")
	set("locationReportInterval", "1")
	set("fileEnable", "false")
	set("consoleEnable", "false")
	cfg := filepath.Join(dir, "client.yaml")
	_ = os.WriteFile(cfg, []byte(text), 0o644)
	c.Tracef("server on %d/%d, %d clients version %s plate %s phone %s id %s", tp, hp, n, ver, plate, phone, id)
	cli, err = launch(os.Getenv("VERIF_CLIENT_BIN"), cfg, dir, "client")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer cli.kill()

	rePhone, rePlate, reID := regexp.MustCompile("^0*"+phone+"$"), regexp.MustCompile("^"+plate+"$"), regexp.MustCompile("^"+id+"$")
	vers := map[string]float64{"2013": 1, "2019": 2}[ver]
	var last string
	ready := func() bool {
		b, err := get(hp, "/device")
		if err != nil {
			last = err.Error()
			return false
		}
		last = string(b)
		var ds []map[string]any
		if json.Unmarshal(b, &ds) != nil || len(ds) != n {
			return false
		}
		for _, d := range ds {
			ph, _ := d["phone"].(string)
			if !rePhone.MatchString(ph) || !rePlate.MatchString(fmt.Sprint(d["plate"])) || !reID.MatchString(fmt.Sprint(d["id"])) || d["versionDesc"] != vers {
				c.Fatalf("the client registered %v, its configuration says phone %s plate %s id %s version %s", d, phone, plate, id, ver)
			}
			if d["status"] == 0.0 || d["authcode"] == "" {
				return false // not authenticated yet
			}
			if ver == "2019" && (len(fmt.Sprint(d["imei"])) != 15 || d["softwareVersion"] != "fakeyanss.github.io") {
				c.Fatalf("the client authenticated as %v", d)
			}
			g, err := get(hp, "/device/"+ph+"/geo")
			if err != nil || !strings.Contains(string(g), "latitude") {
				last = fmt.Sprintf("no location of %s: %s %v", ph, g, err)
				return false
			}
			var x struct {
				Gis struct {
					Location struct{ Latitude, Longitude, Altitude float64 }
					Drive    struct{ Speed, Direction float64 }
				}
			}
			if json.Unmarshal(g, &x) != nil || x.Gis.Location.Latitude > 90 || x.Gis.Location.Longitude > 180 || x.Gis.Location.Altitude > 5000 || x.Gis.Drive.Speed > 300 || x.Gis.Drive.Direction >= 360 {
				c.Fatalf("the client reported an impossible location: %s", g)
			}
		}
		return true
	}
	ok := false
	for end := pbt.RealNow().Add(patience); pbt.RealNow().Before(end) && !ok; nap(50 * time.Millisecond) {
		if cli.gone() {
			c.Fatalf("the client ended although the platform is there")
		}
		ok = ready()
	}
	if !ok {
		c.Fatalf("%d clients are not all registered, authenticated and located: %.600s", n, last)
	}
	server.kill()
	stopped := false
	for end := pbt.RealNow().Add(patience); pbt.RealNow().Before(end) && !stopped; nap(50 * time.Millisecond) {
		stopped = cli.gone()
	}
	if !stopped {
		c.Fatalf("the client goes on although the platform closed the connections")
	}
	c.NonTrivial("%d %s %s %s %s", n, ver, plate, phone, id)
}
