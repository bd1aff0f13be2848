// Package conf checks that configuration files take effect as written. The
// configuration is loaded once per process, so every case runs in a process of
// its own: this test binary again (loading, logging) or the server binary.
package conf

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/fakeyanss/jt808-server-go/internal/config"
	"github.com/fakeyanss/jt808-server-go/pkg/logger"
	"github.com/fakeyanss/jt808-server-go/verifharness/dict"
	"github.com/fakeyanss/jt808-server-go/verifharness/gen"
	"github.com/fakeyanss/jt808-server-go/verifharness/jt"
	"github.com/fakeyanss/jt808-server-go/verifharness/pbt"
)

const patience = 30 * time.Second

// ---- the process that loads ----

type report struct {
	Config any
	Log    map[string]any
}

// TestConfHelper is not a test: it is what the checks run in a process.
func TestConfHelper(t *testing.T) {
	path := os.Getenv("CONF_PATH")
	if path == "" {
		t.Skip()
	}
	cfg := config.Load(path)
	lc := cfg.ParseLogConf()
	out, err := json.Marshal(report{Config: cfg, Log: map[string]any{
		"consoleEnable": lc.ConsoleLoggingEnabled, "fileEnable": lc.FileLoggingEnabled, "printAsJson": lc.EncodeLogsAsJSON, "level": lc.LogLevel,
		"logDirectory": lc.Directory, "logFile": lc.Filename, "maxSizeOfRolling": lc.MaxSize, "maxBackupsOfRolling": lc.MaxBackups, "maxAgeOfRolling": lc.MaxAge,
	}})
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("CONF_OUT"), out, 0o644); err != nil {
		t.Fatal(err)
	}
	if os.Getenv("CONF_LOG") == "" {
		os.Exit(0)
	}
	l := logger.Configure(lc)
	// a line of each level; the fatal one ends the process
	pad := strings.Repeat("x", 1000)
	for i := 0; i < atoi(os.Getenv("CONF_BULK")); i++ {
		l.Error().Str("pad", pad).Msg("bulk")
	}
	if d := os.Getenv("CONF_DIR"); d != "" { // old files are removed in the background
		for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
			if ents, _ := os.ReadDir(d); len(ents) <= atoi(os.Getenv("CONF_FILES")) {
				break
			}
		}
		time.Sleep(100 * time.Millisecond)
	}
	l.Debug().Str("k", "v").Msg("marker-debug")
	l.Info().Str("k", "v").Msg("marker-info")
	l.Warn().Str("k", "v").Msg("marker-warn")
	l.Error().Str("k", "v").Msg("marker-error")
	l.Fatal().Str("k", "v").Msg("marker-fatal")
	os.Exit(0)
}

func atoi(s string) (n int) { fmt.Sscan(s, &n); return }

// envNoise are environment variables named like settings: they are not the
// file, and must not count.
func envNoise() (out []string) {
	for _, g := range [][]setting{logSettings, serverSettings, clientSettings} {
		for _, s := range g {
			v := map[kind]string{str: "environment", num: "77", flag: "true", port: "1", level: "FATAL"}[s.k]
			up := strings.ToUpper(s.path)
			out = append(out, up+"="+v, strings.ReplaceAll(up, ".", "_")+"="+v)
		}
	}
	return
}

func helper(c *pbt.C, dir, path string, env ...string) (report, []byte) {
	out := filepath.Join(dir, "loaded.json")
	_ = os.Remove(out)
	cmd := exec.Command(os.Args[0], "-test.run", "^TestConfHelper$")
	cmd.Dir = dir
	cmd.Env = append(append(append(os.Environ(), envNoise()...), "CONF_PATH="+path, "CONF_OUT="+out), env...)
	var stderr, stdout bytes.Buffer
	cmd.Stderr, cmd.Stdout = &stderr, &stdout
	err := cmd.Run()
	b, rerr := os.ReadFile(out)
	if rerr != nil {
		c.Fatalf("loading %s failed: %v\n%.1500s%.1500s", path, err, stdout.Bytes(), stderr.Bytes())
	}
	var r report
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&r); err != nil {
		panic("HARNESS: " + err.Error())
	}
	return r, stderr.Bytes()
}

// flat turns nested settings into paths with lower-case names; sections that
// are absent are left out.
func flat(x any, pre string, into map[string]string) {
	switch v := x.(type) {
	case map[string]any:
		for k, y := range v {
			flat(y, pre+"."+strings.ToLower(k), into)
		}
	case nil:
	default:
		into[pre] = fmt.Sprint(v)
	}
}

// ---- generated files ----

type kind int

const (
	str kind = iota
	num
	flag
	port
	level
)

type setting struct {
	path string
	k    kind
}

var logSettings = []setting{{"log.consoleEnable", flag}, {"log.fileEnable", flag}, {"log.printAsJson", flag}, {"log.logLevel", level}, {"log.logDirectory", str},
	{"log.logFile", str}, {"log.maxSizeOfRolling", num}, {"log.maxBackupsOfRolling", num}, {"log.maxAgeOfRolling", num}}

var serverSettings = []setting{{"server.name", str}, {"server.port.tcpPort", port}, {"server.port.udpPort", port}, {"server.port.httpPort", port},
	{"server.banner.enable", flag}, {"server.banner.bannerPath", str}}

var clientSettings = func() []setting {
	s := []setting{{"client.name", str}, {"client.concurrency", num}, {"client.conn.remoteAddr", str}, {"client.device.keepalive", num}, {"client.deviceGeo.locationReportInterval", num}}
	for _, n := range []string{"idReg", "imeiReg", "phoneReg", "plateReg", "protocolVersion", "transProto", "provinceIdReg", "cityIdReg", "plateColorReg"} {
		s = append(s, setting{"client.device." + n, str})
	}
	for _, n := range []string{"accStatusReg", "locationStatusReg", "latitudeTypeReg", "longitudeTypeReg", "operatingStatusReg", "geoEncryptionStatusReg", "loadStatusReg",
		"FuelSystemStatusReg", "AlternatorSystemStatusReg", "DoorLockedStatusReg", "frontDoorStatusReg", "midDoorStatusReg", "backDoorStatusReg", "driverDoorStatusReg",
		"customDoorStatusReg", "gpsLocationStatusReg", "beidouLocationStatusReg", "glonassLocationStatusReg", "galileoLocationStatusReg", "drivingStatusReg"} {
		s = append(s, setting{"client.deviceGeo.geo." + n, str})
	}
	for _, n := range []string{"location.latitudeReg", "location.longitudeReg", "location.altitudeReg", "drive.speedReg", "drive.directionReg"} {
		s = append(s, setting{"client.deviceGeo." + n, str})
	}
	return s
}()

var text = rapid.OneOf(
	rapid.SampledFrom([]string{"", "x", "0|1", "[0-9]{2}|1[0-7][0-9]|180", "京A[A-Z0-9]{5}", "./logs/", "localhost:8080", "null", "true", "12", "~", "${HOME}", "a: b", "# x", "'", "\"", "\\d+", " lead", "trail ", "a\tb", "x,y", "1,2,3"}),
	rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019 _-./:|[]{}()+*?#'\"\\,%$&!@京沪")), 0, 24, -1))

var levels = map[string]int{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3, "FATAL": 4}
var levelNames = []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}

func quote(t *rapid.T, s string) string {
	plain := s != ""
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_') {
			plain = false
		}
	}
	switch strings.ToLower(s) {
	case "null", "true", "false", "yes", "no", "on", "off", "y", "n", "x":
		plain = false
	}
	switch dict.IntRange(0, 2).Draw(t, "quote") {
	case 0:
		if plain {
			return s
		}
	case 1:
		if !strings.ContainsAny(s, "\t\n") {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
	}
	b, _ := json.Marshal(s)
	return string(b)
}

// file draws a configuration file; values is what must be loaded.
func file(t *rapid.T, settings []setting, fixed map[string]string) (yaml string, values map[string]string) {
	values = map[string]string{}
	tree := map[string]any{}
	for _, s := range settings {
		var v, wire string
		switch s.k {
		case str:
			v = text.Draw(t, s.path)
			wire = quote(t, v)
		case num:
			v = fmt.Sprint(rapid.OneOf(dict.IntRange(0, 200), dict.IntRange(-1<<31, 1<<31)).Draw(t, s.path))
			wire = v
		case flag:
			v = fmt.Sprint(rapid.Bool().Draw(t, s.path))
			wire = v
		case port:
			v = fmt.Sprint(dict.IntRange(0, 65535).Draw(t, s.path))
			wire = rapid.SampledFrom([]string{v, `"` + v + `"`, "'" + v + "'"}).Draw(t, "portq")
		case level:
			v = rapid.SampledFrom(levelNames).Draw(t, s.path)
			wire = quote(t, v)
		}
		if f, ok := fixed[s.path]; ok {
			v = f
			b, _ := json.Marshal(f)
			wire = string(b)
			if s.k == flag || s.k == num {
				wire = f
			}
		}
		values["."+strings.ToLower(s.path)] = v
		at := tree
		parts := strings.Split(s.path, ".")
		for _, p := range parts[:len(parts)-1] {
			if at[p] == nil {
				at[p] = map[string]any{}
			}
			at = at[p].(map[string]any)
		}
		at[parts[len(parts)-1]] = wire
	}
	var sb strings.Builder
	var emit func(m map[string]any, ind string)
	emit = func(m map[string]any, ind string) {
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		keys = rapid.Permutation(keys).Draw(t, "order")
		for _, k := range keys {
			if sub, ok := m[k].(map[string]any); ok {
				fmt.Fprintf(&sb, "%s%s:\n", ind, k)
				emit(sub, ind+"  ")
			} else {
				fmt.Fprintf(&sb, "%s%s: %s\n", ind, k, m[k])
			}
		}
	}
	emit(tree, "")
	return sb.String(), values
}

func scratch() string {
	dir, err := os.MkdirTemp(pbt.OutDir(), "conf")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return dir
}

func write(dir, yaml string) string {
	p := filepath.Join(dir, "c.yaml")
	if err := os.WriteFile(p, []byte(yaml), 0o644); err != nil {
		panic("HARNESS: " + err.Error())
	}
	return p
}

func sections(t *rapid.T) []setting {
	switch dict.IntRange(0, 2).Draw(t, "sections") {
	case 0:
		return append(append([]setting{}, logSettings...), serverSettings...)
	case 1:
		return append(append([]setting{}, logSettings...), clientSettings...)
	}
	return append(append(append([]setting{}, logSettings...), serverSettings...), clientSettings...)
}

func loading(c *pbt.C) {
	yaml, want := file(c.T, sections(c.T), nil)
	c.Tracef("%s", yaml)
	dir := scratch()
	defer os.RemoveAll(dir)
	r, _ := helper(c, dir, write(dir, yaml))
	got := map[string]string{}
	flat(r.Config, "", got)
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			c.Fatalf("setting %s is loaded as %q (present: %v), the file says %q", k[1:], g, ok, v)
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && v != "" && v != "0" && v != "false" {
			c.Fatalf("setting %s is loaded as %q, the file does not have it", k[1:], v)
		}
	}
	for k, v := range r.Log {
		g := fmt.Sprint(v)
		w := want[".log."+strings.ToLower(k)]
		if k == "level" {
			w = fmt.Sprint(levels[want[".log.loglevel"]])
		}
		if g != w {
			c.Fatalf("the logger gets %s = %s, the file says %s (level %s)", k, g, w, want[".log.loglevel"])
		}
	}
	c.NonTrivial("%s", yaml)
}

// defaults: the embedded files are the shipped ones.
func defaults(c *pbt.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	which := dict.IntRange(0, 1).Draw(c.T, "which")
	key := []string{config.DefaultServConfKey, config.DefaultCliConfKey}[which]
	path := []string{"configs/default.yaml", "test/client/configs/default.yaml"}[which]
	c.Tracef("%s = %s", key, path)
	a, _ := helper(c, dir, key)
	b, _ := helper(c, dir, filepath.Join(os.Getenv("VERIF_REPO"), path))
	fa, fb := map[string]string{}, map[string]string{}
	flat(a.Config, "", fa)
	flat(b.Config, "", fb)
	if len(fb) < 10 {
		panic("HARNESS: the shipped default configuration is empty")
	}
	for k, v := range fb {
		if fa[k] != v {
			c.Fatalf("embedded %s: %s is %q, the shipped file %s says %q", key, k[1:], fa[k], path, v)
		}
	}
	if len(fa) != len(fb) || fmt.Sprint(a.Log) != fmt.Sprint(b.Log) {
		c.Fatalf("embedded %s loads as %v, the shipped file %s as %v", key, a, path, b)
	}
	c.NonTrivial("%s", key)
}

// logging: the level and destinations written in the file are what is logged.
func logging(c *pbt.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	sub := rapid.SampledFrom([]string{"logs", "a/b", "x y"}).Draw(c.T, "dir")
	name := rapid.SampledFrom([]string{"s.log", "京.log", "noext"}).Draw(c.T, "name")
	roll := dict.IntRange(0, 7).Draw(c.T, "roll") == 0
	fixed := map[string]string{"log.logDirectory": filepath.Join(dir, sub), "log.logFile": name, "log.maxSizeOfRolling": "5", "log.maxBackupsOfRolling": "0", "log.maxAgeOfRolling": "0"}
	env := []string{"CONF_LOG=1"}
	if roll {
		fixed["log.maxSizeOfRolling"] = "1"
		fixed["log.fileEnable"] = "true"
		env = append(env, "CONF_BULK=1300")
	}
	yaml, want := file(c.T, logSettings, fixed)
	c.Tracef("%s", yaml)
	_, stderr := helper(c, dir, write(dir, yaml), env...)
	lvl := want[".log.loglevel"]
	var content []byte
	files := 0
	if ents, err := os.ReadDir(filepath.Join(dir, sub)); err == nil {
		for _, e := range ents {
			b, _ := os.ReadFile(filepath.Join(dir, sub, e.Name()))
			content = append(content, b...)
			files++
		}
		if _, err := os.Stat(filepath.Join(dir, sub, name)); err != nil && files > 0 {
			c.Fatalf("there is no log file %s", name)
		}
	}
	for i, n := range levelNames {
		marker := []byte("marker-" + strings.ToLower(n))
		on := i >= levels[lvl]
		if got, w := bytes.Contains(content, marker), on && want[".log.fileenable"] == "true"; got != w {
			c.Fatalf("level %s, file logging %s: the %s line is in the file: %v", lvl, want[".log.fileenable"], n, got)
		}
		if got, w := bytes.Contains(stderr, marker), on && want[".log.consoleenable"] == "true"; got != w {
			c.Fatalf("level %s, console logging %s: the %s line is on the console: %v", lvl, want[".log.consoleenable"], n, got)
		}
	}
	if want[".log.fileenable"] == "true" {
		for _, l := range bytes.Split(bytes.TrimSpace(content), []byte("\n")) {
			if isJSON := json.Valid(l); len(l) > 0 && isJSON != (want[".log.printasjson"] == "true") {
				c.Fatalf("printAsJson %s, but the log line is %.200s", want[".log.printasjson"], l)
			}
		}
		if rolled := files > 1; rolled != (roll && lvl != "FATAL") {
			c.Fatalf("%d log files with maxSizeOfRolling %s", files, fixed["log.maxSizeOfRolling"])
		}
		c.ClassIf(roll, "rolled")
	}
	c.Class("level " + lvl)
	c.NonTrivial("%s", yaml)
}

// retention: of the rolled files, those within the configured number and age stay.
func retention(c *pbt.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	logs := filepath.Join(dir, "logs")
	name := rapid.SampledFrom([]string{"s.log", "京.log", "noext", "a.b.log"}).Draw(c.T, "name")
	most := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5}).Draw(c.T, "backups")
	days := rapid.SampledFrom([]int{0, 1, 2, 7, 30, 365}).Draw(c.T, "days")
	fixed := map[string]string{"log.logDirectory": logs, "log.logFile": name, "log.fileEnable": "true", "log.logLevel": "ERROR",
		"log.maxSizeOfRolling": "1", "log.maxBackupsOfRolling": fmt.Sprint(most), "log.maxAgeOfRolling": fmt.Sprint(days)}
	if err := os.MkdirAll(logs, 0o755); err != nil {
		panic("HARNESS: " + err.Error())
	}
	ext := filepath.Ext(name)
	ages := rapid.SliceOfNDistinct(rapid.SampledFrom([]int{3, 4, 5, 6, 9, 20, 28, 32, 60, 300, 363, 367, 800}), 0, 6, rapid.ID[int]).Draw(c.T, "ages")
	sort.Ints(ages)
	want := map[string]bool{name: true}
	kept := 1 // the file this run rolls is the newest
	bulk := dict.IntRange(0, 2).Draw(c.T, "roll") > 0
	env := []string{"CONF_LOG=1", "CONF_BULK=1", "CONF_DIR=" + logs}
	if bulk {
		env[1] = "CONF_BULK=1300"
	} else {
		kept = 0
	}
	removed := 0
	for _, a := range ages {
		f := strings.TrimSuffix(name, ext) + "-" + time.Now().AddDate(0, 0, -a).Format("2006-01-02T15-04-05.000") + ext
		if err := os.WriteFile(filepath.Join(logs, f), []byte("old\n"), 0o644); err != nil {
			panic("HARNESS: " + err.Error())
		}
		if (most == 0 || kept < most) && (days == 0 || a < days) {
			want[f] = true
			kept++
		} else {
			removed++
		}
	}
	files := 1 + kept
	env = append(env, fmt.Sprintf("CONF_FILES=%d", files))
	yaml, _ := file(c.T, logSettings, fixed)
	c.Tracef("%s", yaml)
	c.Tracef("rolled files of %v days", ages)
	helper(c, dir, write(dir, yaml), env...)
	ents, err := os.ReadDir(logs)
	if err != nil {
		c.Fatalf("no log directory: %v", err)
	}
	var got []string
	for _, e := range ents {
		got = append(got, e.Name())
	}
	if len(got) != files {
		c.Fatalf("maxBackupsOfRolling %d, maxAgeOfRolling %d, rolled files of %v days: %d files left, expected %d: %v", most, days, ages, len(got), files, got)
	}
	for f := range want {
		if !slices.Contains(got, f) {
			c.Fatalf("maxBackupsOfRolling %d, maxAgeOfRolling %d, rolled files of %v days: %s was removed, left are %v", most, days, ages, f, got)
		}
	}
	c.ClassIf(removed > 0, "old files removed")
	c.NonTrivial("%s %v", yaml, ages)
}

// ---- the server process ----

func freePort() int {
	for {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			panic("HARNESS: no free port: " + err.Error())
		}
		p := l.Addr().(*net.TCPAddr).Port
		l.Close()
		if p != lastPort { // two in a row are used together
			lastPort = p
			return p
		}
	}
}

var lastPort int

// listening returns the TCP ports the process listens on.
func listening(pid int) map[int]bool {
	inodes := map[string]bool{}
	fds, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	for _, f := range fds {
		if l, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, f.Name())); err == nil && strings.HasPrefix(l, "socket:[") {
			inodes[l[8:len(l)-1]] = true
		}
	}
	out := map[int]bool{}
	for _, n := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, n))
		for _, line := range strings.Split(string(b), "\n") {
			f := strings.Fields(line)
			if len(f) > 9 && f[3] == "0A" && inodes[f[9]] {
				var p int
				fmt.Sscanf(f[1][strings.LastIndex(f[1], ":")+1:], "%X", &p)
				out[p] = true
			}
		}
	}
	return out
}

func get(port int, path string) (string, error) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err != nil {
		return "", err
	}
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(patience))
	fmt.Fprintf(c, "GET %s HTTP/1.0\r\nHost: x\r\n\r\n", path)
	b, err := io.ReadAll(c)
	return string(b), err
}

func serving(c *pbt.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	banner := rapid.Bool().Draw(c.T, "banner")
	withFile := rapid.Bool().Draw(c.T, "bannerfile")
	token := "BANNER-" + gen.Digits(8).Draw(c.T, "token")
	bpath := filepath.Join(dir, "banner.txt")
	if withFile {
		_ = os.WriteFile(bpath, []byte(token), 0o644)
	}
	for try := 0; ; try++ {
		tp, hp := freePort(), freePort()
		fixed := map[string]string{"server.port.tcpPort": fmt.Sprint(tp), "server.port.httpPort": fmt.Sprint(hp), "server.banner.enable": fmt.Sprint(banner),
			"server.banner.bannerPath": bpath, "log.logDirectory": filepath.Join(dir, "logs"), "log.logFile": "s.log", "log.maxSizeOfRolling": "5", "log.maxBackupsOfRolling": "1", "log.maxAgeOfRolling": "1"}
		yaml, _ := file(c.T, append(append([]setting{}, logSettings...), serverSettings...), fixed)
		c.Tracef("%s", yaml)
		if try > 10 {
			c.Fatalf("the server does not serve on the configured ports")
		}
		ok, taken := serveOnce(c, dir, write(dir, yaml), tp, hp, banner, withFile, token)
		if ok {
			break
		}
		if !taken {
			c.Fatalf("the server does not serve on the configured ports %d and %d", tp, hp)
		}
	}
	c.NonTrivial("%s %v %v", token, banner, withFile)
}

func serveOnce(c *pbt.C, dir, cfg string, tp, hp int, banner, withFile bool, token string) (ok, retry bool) {
	cmd := exec.Command(os.Getenv("VERIF_SERVER_BIN"), "-c", cfg)
	cmd.Dir = dir
	var out bytes.Buffer
	outPath := filepath.Join(dir, "out.txt")
	f, err := os.Create(outPath)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic("HARNESS: " + err.Error())
	}
	exit := make(chan error, 1)
	go func() { exit <- cmd.Wait() }()
	defer func() { _ = cmd.Process.Kill(); <-exit; exit <- nil }()
	deadline := time.Now().Add(patience)
	for {
		select {
		case err := <-exit:
			exit <- err
			b, _ := os.ReadFile(outPath)
			// somebody else took the port in between: not the server's fault
			return false, bytes.Contains(b, []byte("address already in use")) || !portFree(tp) || !portFree(hp)
		default:
		}
		if s, err := get(hp, "/device"); err == nil && strings.Contains(s, " 200 ") {
			break
		}
		if time.Now().After(deadline) {
			return false, false
		}
		time.Sleep(10 * time.Millisecond)
	}
	// the protocol is spoken on the TCP port
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", tp), patience)
	if err != nil {
		c.Fatalf("the configured TCP port %d is not served: %v", tp, err)
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(patience))
	reg := jt.Reg{Manu: "M", Mode: "D", ID: "1", Plate: "京A1"}
	if _, err := conn.Write(jt.New(0x0100, jt.V2019, 1, "00000000013800000000", 1, reg.Body(jt.V2019)).Frame()); err != nil {
		c.Fatalf("the configured TCP port %d is not served: %v", tp, err)
	}
	buf := make([]byte, 200)
	n, err := conn.Read(buf)
	if err != nil || n < 3 || buf[0] != 0x7e {
		c.Fatalf("no registration reply on the configured TCP port: %x %v", buf[:n], err)
	}
	got := listening(cmd.Process.Pid)
	if len(got) != 2 || !got[tp] || !got[hp] {
		c.Fatalf("the server listens on %v, configured are %d and %d", got, tp, hp)
	}
	b, _ := os.ReadFile(outPath)
	out.Write(b)
	if shown := bytes.Contains(b, []byte(token)); shown != (banner && withFile) {
		c.Fatalf("banner enabled %v, file present %v, shown %v", banner, withFile, shown)
	}
	return true, false
}

// taken: a server that cannot have one of its ports does not stay.
func taken(c *pbt.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	defer l.Close()
	tp, hp := l.Addr().(*net.TCPAddr).Port, freePort()
	which := "TCP"
	if rapid.Bool().Draw(c.T, "http") {
		tp, hp, which = hp, tp, "HTTP"
	}
	fixed := map[string]string{"server.port.tcpPort": fmt.Sprint(tp), "server.port.httpPort": fmt.Sprint(hp), "server.banner.enable": "false",
		"log.logDirectory": filepath.Join(dir, "logs"), "log.logFile": "s.log", "log.maxSizeOfRolling": "5", "log.maxBackupsOfRolling": "1", "log.maxAgeOfRolling": "1"}
	yaml, _ := file(c.T, append(append([]setting{}, logSettings...), serverSettings...), fixed)
	c.Tracef("%s", yaml)
	cmd := exec.Command(os.Getenv("VERIF_SERVER_BIN"), "-c", write(dir, yaml))
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic("HARNESS: " + err.Error())
	}
	exit := make(chan error, 1)
	go func() { exit <- cmd.Wait() }()
	select {
	case err := <-exit:
		if err == nil {
			c.Fatalf("the %s port is taken by somebody else, yet the server reports success", which)
		}
	case <-time.After(patience):
		_ = cmd.Process.Kill()
		<-exit
		c.Fatalf("the %s port is taken by somebody else, yet the server runs on", which)
	}
	c.Class(which)
	c.NonTrivial("%s %s", which, yaml)
}

// refused: a file that cannot be read as a configuration does not start a
// server that runs on other values.
func refused(c *pbt.C) {
	dir := scratch()
	defer os.RemoveAll(dir)
	fixed := map[string]string{"server.port.tcpPort": fmt.Sprint(freePort()), "server.port.httpPort": fmt.Sprint(freePort()), "server.banner.enable": "false",
		"log.logDirectory": filepath.Join(dir, "logs"), "log.logFile": "s.log", "log.maxSizeOfRolling": "5", "log.maxBackupsOfRolling": "1", "log.maxAgeOfRolling": "1"}
	settings := append(append([]setting{}, logSettings...), serverSettings...)
	yaml, _ := file(c.T, settings, fixed)
	lines := strings.Split(strings.TrimSpace(yaml), "\n")
	path := ""
	what := rapid.SampledFrom([]string{"missing", "broken", "broken", "type", "type", "type", "section"}).Draw(c.T, "what")
	switch what {
	case "missing":
		path = filepath.Join(dir, rapid.SampledFrom([]string{"none.yaml", "no/such/dir/c.yaml", "none"}).Draw(c.T, "name"))
	case "broken":
		at := dict.IntRange(0, len(lines)).Draw(c.T, "at")
		bad := rapid.SampledFrom([]string{"log: [", "x: 'y", "\tx: 1", "a: b: c", "}", "x: \"", "%", "- a\nb: c"}).Draw(c.T, "bad")
		yaml = strings.Join(append(append(append([]string{}, lines[:at]...), bad), lines[at:]...), "\n") + "\n"
	case "type": // a number or switch that is none
		var typed []int
		for i, l := range lines {
			k, v, _ := strings.Cut(strings.TrimSpace(l), ":")
			if v == "" {
				continue
			}
			for _, s := range settings {
				if (s.k == num || s.k == flag) && strings.HasSuffix(s.path, "."+k) {
					typed = append(typed, i)
				}
			}
		}
		i := rapid.SampledFrom(typed).Draw(c.T, "line")
		k, _, _ := strings.Cut(lines[i], ":")
		lines[i] = k + ": " + rapid.SampledFrom([]string{"abc", "'12x'", "[1, 2]", "{a: 1}", "\"- 5\""}).Draw(c.T, "value")
		yaml = strings.Join(lines, "\n") + "\n"
		what += lines[i]
	case "section":
		k := rapid.SampledFrom([]string{"log", "server"}).Draw(c.T, "section")
		yaml = k + ": " + rapid.SampledFrom([]string{"abc", "12", "true", "[a, b]"}).Draw(c.T, "value") + "\n"
	}
	if path == "" {
		path = write(dir, yaml)
		c.Tracef("%s", yaml)
	} else {
		c.Tracef("%s", path)
	}
	cmd := exec.Command(os.Getenv("VERIF_SERVER_BIN"), "-c", path)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic("HARNESS: " + err.Error())
	}
	exit := make(chan error, 1)
	go func() { exit <- cmd.Wait() }()
	select {
	case err := <-exit:
		if err == nil {
			c.Fatalf("an invalid configuration (%s), yet the server reports success", what)
		}
	case <-time.After(patience):
		ports := listening(cmd.Process.Pid)
		_ = cmd.Process.Kill()
		<-exit
		c.Fatalf("an invalid configuration (%s), yet the server runs (listening on %v)", what, ports)
	}
	c.Class(strings.Fields(what)[0])
	c.NonTrivial("%s %s", path, yaml)
}

func portFree(p int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
	if err != nil {
		return false
	}
	l.Close()
	return true
}

func TestC25(t *testing.T) {
	pbt.Watch(200 * time.Second)
	ok := pbt.Run("C25", "generated configuration files (all settings of the log, server and client sections, any order and quoting, arbitrary values) loaded in a process of their own and compared with the values written; the embedded defaults loaded and compared with the shipped files; log lines of every level with generated log settings; the server binary started with generated ports, with ports that are taken and with files that are missing, malformed or wrongly typed; non-trivial: every file; distinct by file", nil,
		pbt.Prop{Name: "loading", Quick: 1500, Thorough: 60000, Round: 100, F: loading},
		pbt.Prop{Name: "defaults", Quick: 12, Thorough: 60, F: defaults},
		pbt.Prop{Name: "logging", Quick: 600, Thorough: 20000, Round: 50, F: logging},
		pbt.Prop{Name: "retention", Quick: 150, Thorough: 4000, Round: 25, F: retention},
		pbt.Prop{Name: "serving", Quick: 60, Thorough: 3000, Round: 10, F: serving},
		pbt.Prop{Name: "taken", Quick: 30, Thorough: 600, Round: 10, F: taken},
		pbt.Prop{Name: "refused", Quick: 240, Thorough: 6000, Round: 40, F: refused},
	)
	if !ok {
		t.Fail()
	}
}
