package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"context"
	_ "embed"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf16"

	"verifsim/scn"
)

// The command-line tool on a simulated kernel: the real main.go, os, fmt,
// encoding/json and parser above package syscall, whose file calls are
// replaced.

//go:embed kernel.txt
var kernelSource string

// cliCase is one run of the tool.
type cliCase struct {
	Class string   `json:"class"`
	Mode  string   `json:"mode"` // json, format, beautify, version, help
	Args  []string `json:"args"` // {file} and {text} stand for path and content
	Text  []byte   `json:"text"`
	Path  string   `json:"path,omitempty"`
	// faults
	Mode32 int      `json:"statMode"`
	Size   int      `json:"size"`
	Opens  []int    `json:"opens,omitempty"`
	Stat   int      `json:"stat,omitempty"`
	Reads  [][2]int `json:"reads,omitempty"`
	RFail  [2]int   `json:"rfail"` // offset, errno; errno 0: none
	Writes [][2]int `json:"writes,omitempty"`
	WFail  [2]int   `json:"wfail"`
	WOnce  [2]int   `json:"wonce"`
	EFail  int      `json:"efail,omitempty"`
	CFail  int      `json:"cfail,omitempty"`
}

type cliRun struct {
	code   int
	signal string
	out    []byte
	errOut []byte
	events []string
}

type cliSim struct {
	prop string
	dir  string
	tool string
	ref  string
	refs chan *refProc
}

type refProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	dec *json.Decoder
	enc *json.Encoder
}

func buildCLI(prop string) (*cliSim, error) {
	dir := filepath.Join(verifDir, "build", prop)
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(filepath.Join(dir, "run"), 0o755); err != nil {
		return nil, err
	}
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src/syscall")
	overlay := map[string]string{}
	patch := func(file string, names []string, tail string) error {
		p := filepath.Join(src, file)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		t := string(b)
		for _, n := range names {
			pat := "\nfunc " + n + "("
			if strings.Count(t, pat) != 1 {
				return fmt.Errorf("%s: %d functions %s", p, strings.Count(t, pat), n)
			}
			t = strings.Replace(t, pat, "\nfunc zzReal"+strings.ToUpper(n[:1])+n[1:]+"(", 1)
		}
		dst := filepath.Join(dir, file)
		overlay[p] = dst
		return os.WriteFile(dst, []byte(t+tail), 0o644)
	}
	if err := patch("syscall_unix.go", []string{"Read", "Write", "Pread"}, kernelSource); err != nil {
		return nil, err
	}
	if err := patch("zsyscall_linux_amd64.go", []string{"openat", "Close", "Fstat", "fstatat", "Seek"}, ""); err != nil {
		return nil, err
	}
	if err := writeJSON(filepath.Join(dir, "overlay.json"), map[string]any{"Replace": overlay}); err != nil {
		return nil, err
	}
	c := &cliSim{prop: prop, dir: dir, tool: filepath.Join(dir, "tool"), ref: filepath.Join(dir, "cliref"), refs: make(chan *refProc, workers)}
	b := exec.Command("go", "build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", c.tool, ".")
	b.Dir, b.Env = repoDir, goEnv()
	if out, err := b.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the tool: %v\n%s", err, out)
	}
	args, err := withRepo([]string{"build", "-o", c.ref}, dir)
	if err != nil {
		return nil, err
	}
	b = exec.Command("go", append(args, "./cmd/cliref")...)
	b.Dir, b.Env = filepath.Join(verifDir, "sim"), goEnv()
	if out, err := b.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building cliref: %v\n%s", err, out)
	}
	for i := 0; i < workers; i++ {
		p := &refProc{cmd: exec.Command(c.ref)}
		if p.in, err = p.cmd.StdinPipe(); err != nil {
			return nil, err
		}
		o, err := p.cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := p.cmd.Start(); err != nil {
			return nil, err
		}
		p.dec, p.enc = json.NewDecoder(bufio.NewReaderSize(o, 1<<20)), json.NewEncoder(p.in)
		c.refs <- p
	}
	return c, nil
}

func (c *cliSim) close() {
	for i := 0; i < workers; i++ {
		p := <-c.refs
		p.in.Close()
		_ = p.cmd.Wait()
	}
}

type cliAns struct {
	Fail string `json:"fail"`
	Out  []byte `json:"out"`
}

// owed asks the library what the tool owes for a text.
func (c *cliSim) owed(text []byte, mode string) (*cliAns, error) {
	p := <-c.refs
	defer func() { c.refs <- p }()
	if err := p.enc.Encode(map[string]any{"text": text, "mode": mode}); err != nil {
		return nil, err
	}
	a := &cliAns{}
	return a, p.dec.Decode(a)
}

// path is the file's name.
func (k *cliCase) path() string {
	if k.Path == "" {
		return "/zz/in.sql"
	}
	return k.Path
}

// cliPaths are names a file may have. None exists outside the simulation.
var cliPaths = []string{"/zz/in", "in.sql", "./zz/../in.sql", "/zz/a b.sql", "-", "-f", "--", "/zz/in.sql.gz", "/zz/in.json", "/zz/$HOME.sql", "/zz/~/in.sql", "~/in.sql", "/zz/%s%d.sql", "/zz/é.sql", "/zz/*.sql", "/zz/in.sql,/zz/b.sql", "http://zz/in.sql", "/zz/SELECT 1", "@zz", "/zz/\xff.sql", "/dev/stdin.sql", "/zz/" + longName + ".sql"}

var longName = strings.Repeat("n", 200)

// run executes the tool once.
func (c *cliSim) run(k *cliCase, id string) (*cliRun, error) {
	base := filepath.Join(c.dir, "run", id)
	defer func() {
		for _, s := range []string{".plan", ".in", ".log"} {
			os.Remove(base + s)
		}
	}()
	if err := os.WriteFile(base+".in", k.Text, 0o644); err != nil {
		return nil, err
	}
	var p strings.Builder
	fmt.Fprintf(&p, "path %x\ncontent %s\nlog %s\nstat %d %d\n", k.path(), base+".in", base+".log", k.Mode32, k.Size)
	for _, o := range k.Opens {
		fmt.Fprintf(&p, "o %d\n", o)
	}
	if k.Stat != 0 {
		fmt.Fprintf(&p, "s %d\n", k.Stat)
	}
	for _, r := range k.Reads {
		fmt.Fprintf(&p, "r %d %d\n", r[0], r[1])
	}
	for _, r := range k.Writes {
		fmt.Fprintf(&p, "w %d %d\n", r[0], r[1])
	}
	for n, f := range map[string][2]int{"rfail": k.RFail, "wfail": k.WFail, "wonce": k.WOnce} {
		if f[1] != 0 {
			fmt.Fprintf(&p, "%s %d %d\n", n, f[0], f[1])
		}
	}
	if k.EFail != 0 {
		fmt.Fprintf(&p, "e %d\n", k.EFail)
	}
	if k.CFail != 0 {
		fmt.Fprintf(&p, "c %d\n", k.CFail)
	}
	if err := os.WriteFile(base+".plan", []byte(p.String()), 0o644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	var args []string
	for _, a := range k.Args {
		if a == "{text}" {
			a = string(k.Text)
		} else {
			a = strings.Replace(a, "{file}", k.path(), 1)
		}
		args = append(args, a)
	}
	cmd := exec.CommandContext(ctx, c.tool, args...)
	cmd.Dir = filepath.Join(c.dir, "run")
	cmd.Env = []string{"ZZ_PLAN=" + base + ".plan", "HOME=/nonexistent", "GOMAXPROCS=2"}
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	err := cmd.Run()
	r := &cliRun{out: out.Bytes(), errOut: errOut.Bytes()}
	if ctx.Err() != nil {
		return nil, fmt.Errorf("the tool did not end within two minutes: %s", mustJSON(k))
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return nil, err
		}
		r.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.signal = ws.Signal().String()
			if ws.Signal() == syscall.SIGKILL {
				return nil, fmt.Errorf("the tool was killed: %s", mustJSON(k))
			}
		}
		if r.code == 98 {
			return nil, fmt.Errorf("the simulated kernel could not write")
		}
	}
	if b, err := os.ReadFile(base + ".log"); err == nil {
		r.events = strings.Split(strings.TrimSpace(string(b)), "\n")
	}
	return r, nil
}

func mustJSON(v any) string {
	b, _ := json.Marshal(v)
	return cut(string(b), 3000)
}

// judge decides a run. It returns class and detail of a violation.
func (c *cliSim) judge(k *cliCase, r *cliRun, faults map[string]int) (class, detail string, err error) {
	usesFile := false
	for _, a := range k.Args {
		usesFile = usesFile || strings.HasSuffix(a, "{file}")
	}
	readFail, writeFail, wonce, shorts := false, false, false, false
	for _, e := range r.events {
		var what string
		var a, b int
		fmt.Sscanf(e, "%s %d %d", &what, &a, &b)
		eintr := a == int(syscall.EINTR)
		switch what {
		case "openfail", "readfail":
			if !eintr {
				readFail = true
			}
			faults[what+"-"+errName(a)]++
		case "writefail":
			if !eintr {
				writeFail = true
			}
			faults[what+"-"+errName(a)]++
		case "writeonce":
			wonce = true
			faults["write-fails-once-"+errName(a)]++
		case "short":
			faults["short-read"]++
			shorts = true
		case "wshort":
			faults["short-write"]++
			shorts = true
		case "errfail":
			faults["stderr-"+errName(a)]++
		case "fstat", "stat":
			if a != len(k.Text) {
				faults["wrong-size"]++
			}
			if b != 0 {
				faults["fstat-"+errName(b)]++
			}
		case "close":
			if b != 0 {
				faults["close-"+errName(b)]++
			}
		case "limit":
			return "endless", "the tool made 300000 system calls without ending", nil
		}
	}
	_ = shorts
	status := fmt.Sprintf("exit %d", r.code)
	if r.signal != "" {
		status = "killed by " + r.signal
	}
	ok := r.code == 0 && r.signal == ""
	show := func(s string) (string, string, error) {
		return "", "", fmt.Errorf("%s", s)
	}
	_ = show
	ctx := func(s string) string {
		ev := r.events
		if len(ev) > 25 {
			ev = append(append([]string{}, ev[:12]...), ev[len(ev)-12:]...)
		}
		return fmt.Sprintf("%s\n arguments: %q, %d bytes of input\n %s; standard output %d bytes; standard error %s\n kernel: %s", s, k.Args, len(k.Text), status, len(r.out), cut(fmt.Sprintf("%q", r.errOut), 300), strings.Join(ev, ", "))
	}
	if strings.Contains(string(r.errOut), "goroutine 1 [running]") && strings.Contains(string(r.errOut), "panic:") {
		return "panic", ctx("the tool panics: " + cut(string(r.errOut), 1500)), nil
	}
	if usesFile && readFail {
		switch {
		case ok:
			return "read-failure-ignored", ctx("opening or reading the file failed, yet the tool reports success"), nil
		case len(r.out) > 0:
			return "output-despite-read-failure", ctx("opening or reading the file failed, yet there is output: " + cut(fmt.Sprintf("%q", r.out), 300)), nil
		case len(r.errOut) == 0 && k.EFail == 0:
			return "failure-not-reported", ctx("the failure is not reported on standard error"), nil
		}
		return "", "", nil
	}
	a, err := c.owed(k.Text, k.Mode)
	if err != nil {
		return "", "", err
	}
	if strings.HasPrefix(a.Fail, "panic") {
		return "", "", nil // the library's affair (C10)
	}
	if k.Mode == "version" || k.Mode == "help" {
		clean, err := c.run(&cliCase{Mode: k.Mode, Args: k.Args, Text: k.Text, Mode32: 0o100644}, fmt.Sprintf("clean-%s-%d", k.Mode, procSeq.Add(1)))
		if err != nil {
			return "", "", err
		}
		a = &cliAns{Out: clean.out}
	}
	if a.Fail != "" {
		switch {
		case ok:
			return "bad-text-accepted", ctx("the text does not parse, yet the tool reports success"), nil
		case len(r.out) > 0:
			return "output-despite-parse-error", ctx("the text does not parse, yet there is output: " + cut(fmt.Sprintf("%q", r.out), 300)), nil
		case len(r.errOut) == 0 && k.EFail == 0:
			return "failure-not-reported", ctx("the parse error is not reported on standard error"), nil
		}
		return "", "", nil
	}
	full := bytes.Equal(r.out, a.Out)
	diff := func() string {
		i := 0
		for i < len(r.out) && i < len(a.Out) && r.out[i] == a.Out[i] {
			i++
		}
		return fmt.Sprintf("; got %d bytes, owed %d, first difference at %d: %s / %s", len(r.out), len(a.Out), i, cut(fmt.Sprintf("%q", r.out[i:]), 120), cut(fmt.Sprintf("%q", a.Out[i:]), 120))
	}
	switch {
	case ok && !full:
		if c.prop == "C07" && !writeFail && !wonce {
			return "wrong-output", ctx("the output is not that of exactly the bytes of the file" + diff()), nil
		}
		return "success-without-output", ctx("the tool reports success although not its whole output was written" + diff()), nil
	case writeFail && !bytes.HasPrefix(a.Out, r.out):
		return "output-not-a-prefix", ctx("after a failed write, what was written is not a leading part of the output" + diff()), nil
	case writeFail && ok && len(a.Out) > 0 && !full:
		return "write-failure-ignored", ctx("a write failed for good, yet the tool reports success"), nil
	case !writeFail && !wonce && k.CFail == 0 && k.Stat == 0 && !ok:
		return "spurious-failure", ctx("nothing failed for good, yet the tool fails"), nil
	case !writeFail && !wonce && !full && k.CFail == 0 && k.Stat == 0:
		return "wrong-output", ctx("the output is wrong" + diff()), nil
	case !ok && !full && (k.CFail != 0 || k.Stat != 0) && !writeFail && !wonce && len(r.out) > 0:
		return "output-despite-read-failure", ctx("the tool fails after a failed call on the file, yet there is output"), nil
	}
	return "", "", nil
}

func errName(e int) string {
	switch syscall.Errno(e) {
	case syscall.EINTR:
		return "EINTR"
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EPIPE:
		return "EPIPE"
	case syscall.EAGAIN:
		return "EAGAIN"
	case syscall.ENOENT:
		return "ENOENT"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.EISDIR:
		return "EISDIR"
	case syscall.EFBIG:
		return "EFBIG"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.ESTALE:
		return "ESTALE"
	case syscall.ELOOP:
		return "ELOOP"
	case syscall.EBADF:
		return "EBADF"
	case syscall.ENOMEM:
		return "ENOMEM"
	}
	return fmt.Sprint(e)
}

// cliGen makes the case of a seed.
func (c *cliSim) gen(seed uint64, corpus *scn.Corpus, all []string) *cliCase {
	r := scn.NewRand(scn.Mix(seed, scn.HashStr(c.prop)))
	k := &cliCase{Mode: scn.Pick(r, []string{"json", "format", "format", "beautify"}), Mode32: 0o100644}
	// the text
	switch r.Intn(20) {
	case 0:
		k.Class = "empty"
		k.Text = []byte(scn.Pick(r, []string{"", "\n", "-- nothing\n", "/* */", " ; "}))
	case 1, 2:
		k.Class = "large"
		target := scn.Pick(r, []int{4096, 8192, 32768, 65536, 70000, 131072, 300000})
		if k.Mode == "json" { // renders to some fifty times as much
			target = min(target, scn.Pick(r, []int{4096, 32768, 65536, 70000}))
		} else if c.prop == "C07" && r.P(5) {
			target = 1200000
		}
		var b strings.Builder
		for b.Len() < target {
			b.WriteString(scn.Pick(r, all))
			b.WriteString(scn.Pick(r, []string{";\n", ";", ";\r\n"}))
		}
		k.Text = []byte(b.String())
	case 3:
		k.Class = "long-line"
		if k.Mode == "json" { // indented by depth
			k.Text = []byte("SELECT 1" + strings.Repeat(", 1234567", r.Range(100, 5000)))
		} else {
			k.Text = []byte("SELECT 1" + strings.Repeat(" + 1234567", r.Range(100, 15000)))
		}
	case 4, 5:
		k.Class = "bad"
		k.Text = []byte(scn.Join(r, []string{scn.Pick(r, all), scn.MutateTokens(r, scn.Pick(r, all), scn.Pick(r, all))}))
	case 6:
		k.Class = "odd-bytes"
		k.Text = []byte(scn.Pick(r, []string{"\ufeff", "", "\x00", "\xff", "\r\n", "#!x\n"}) + scn.Pick(r, all) + scn.Pick(r, []string{"\x00", "\x1a", "\r\n", "\xfe", ";\x00\x00", "\n\n\n", "", " \t"}))
		if r.P(60) { // bytes that something on the way may take for something else
			odd := []string{"\r\n", "\r", "\n\r", "\x00", "\x1a", "\ufeff", "\xff\xfe", "$HOME", "${PATH}", "%s%d%", "\\n", "\t", "  ", "\v\f", "\u2028", "\u00a0", "\x1b[0m", "\xc3", "e\u0301", "\u00e9", "`", "\"", "<&>", "~", "{text}", "{file}", "\x7f", "\x1f\x8b", "\n-- x\n", "/*", "#", ";", "\n;\n", "@x", "!!"}
			q := scn.Pick(r, []string{"'", "'", "`", "\""})
			k.Text = []byte(scn.Pick(r, []string{"", scn.Pick(r, all) + ";\r\n"}) + "SELECT " + q + "a" + scn.Pick(r, odd) + scn.Pick(r, odd) + scn.Pick(r, []string{"", "b"}) + q + scn.Pick(r, []string{"", " /* " + scn.Pick(r, odd) + " */", " -- " + scn.Pick(r, odd)}) + scn.Pick(r, []string{"", ";", "\r\n", "\n", ";\n\n"}))
		}
	case 8:
		if r.P(25) {
			k.Class = "encoded"
			k.Text = encoded(r, scn.Pick(r, all)+scn.Pick(r, []string{"", "\n", ";\nSELECT 1\n"}))
			break
		}
		if !r.P(8) {
			k.Class = "usual"
			k.Text = []byte(scn.Pick(r, all))
			break
		}
		// far larger than any buffer, with little in it
		k.Class = "huge"
		n := 1 << r.Range(20, 25)
		n += r.Range(-2, 2)
		pad := scn.Pick(r, []string{" ", "\n", "\n\r\t ", "/* a comment */", "-- a comment\n", "/*" + strings.Repeat("x", 4000) + "*/\n"})
		a, b := scn.Pick(r, all)+";\n", "\n"+scn.Pick(r, all)
		fill := strings.Repeat(pad, max(1, n/len(pad)))
		if r.P(50) {
			fill = "SELECT '" + strings.Repeat("x", n) + "';\n"
			if k.Mode == "json" && r.P(50) {
				fill = "SELECT " + strings.Repeat("x", n) + ";\n"
			}
		}
		k.Text = []byte(a + fill + b)
	case 7:
		k.Class = "aligned"
		t := scn.Pick(r, all) + ";\n"
		n := scn.Pick(r, []int{511, 512, 513, 1024, 1536, 4095, 4096, 4097, 65535, 65536, 65537}) + r.Range(-1, 1)
		for len(t) < n-40 {
			t += "SELECT 'abcdefgh', 12345678;\n"
		}
		if len(t) < n {
			t += strings.Repeat(" ", n-len(t))
		}
		k.Text = []byte(t)
	default:
		k.Class = "usual"
		var ss []string
		for n := r.Range(1, 6); n > 0; n-- {
			ss = append(ss, scn.Pick(r, all))
		}
		if r.P(20) {
			ss = []string{scn.Pick(r, corpus.Files).Text}
		}
		k.Text = []byte(scn.Join(r, ss))
	}
	var flags []string
	switch k.Mode {
	case "format":
		flags = append(flags, "-format")
	case "beautify":
		flags = append(flags, "-beautify")
		if r.P(30) {
			flags = append(flags, "-format")
		}
	}
	byArg := c.prop == "C08" && r.P(50) && len(k.Text) < 100000 && len(k.Text) > 0 && k.Text[0] != '-' && !bytes.Contains(k.Text, []byte{0})
	if byArg {
		k.Args = append(flags, "{text}")
	} else {
		if r.P(35) {
			k.Path = scn.Pick(r, cliPaths)
		}
		f := []string{"-f", "{file}"}
		switch r.Intn(8) {
		case 0:
			f = []string{"-f={file}"}
		case 1:
			f = []string{"--f", "{file}"}
		case 2:
			f = []string{"--f={file}"}
		}
		k.Args = append(append([]string{}, flags...), f...)
		if r.P(30) {
			k.Args = append(f, flags...)
		}
		if r.P(20) { // the file is named, whatever else there is
			k.Args = append(k.Args, scn.Pick(r, []string{"SELECT 2", "x.sql", "/zz/other.sql", "", "SELEC", "1"}))
		}
	}
	if c.prop == "C08" && r.P(6) {
		k.Class, k.Text = "no-input", nil
		switch r.Intn(3) {
		case 0:
			k.Mode, k.Args = "version", []string{"-v"}
		case 1:
			k.Mode, k.Args = "help", []string{"-h"}
		default:
			k.Mode, k.Args = "help", nil
		}
	}
	k.Size = len(k.Text)
	// the way the file is delivered
	if r.P(60) {
		k.Size = scn.Pick(r, []int{0, 0, len(k.Text), 1, len(k.Text) / 2, len(k.Text) + 1, len(k.Text) * 2, r.Intn(len(k.Text) + 1), 4096})
		if r.P(30) {
			k.Mode32 = scn.Pick(r, []int{0o010644, 0o020644, 0o140644, 0o060644})
			k.Size = 0
		}
	}
	n := len(k.Text)
	spot := func(n int) int {
		return max(0, min(n, scn.Pick(r, []int{0, 1, n, n - 1, n / 2, r.Intn(n + 1), r.Intn(n + 1), r.Intn(n + 1), 511, 512, 513, 4096, 32768, 65536})))
	}
	if r.P(60) {
		for i := scn.Pick(r, []int{1, 3, 20, 200}); i > 0; i-- {
			m := scn.Pick(r, []int{1, 1, 2, 7, 100, 511, 512, 513, 1024, 4096, r.Range(1, n+1)})
			e := 0
			if r.P(15) {
				e = int(syscall.EINTR)
			}
			k.Reads = append(k.Reads, [2]int{m, e})
		}
	}
	if r.P(15) {
		for i := r.Range(1, 3); i > 0; i-- {
			k.Opens = append(k.Opens, int(syscall.EINTR))
		}
		k.Opens = append(k.Opens, 0)
	}
	if c.prop == "C07" {
		switch r.Intn(10) {
		case 0:
			k.Opens = append(k.Opens, int(scn.Pick(r, []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.ELOOP, syscall.EIO, syscall.ENOMEM})))
			if len(k.Opens) > 1 && k.Opens[len(k.Opens)-2] == 0 {
				k.Opens = append(k.Opens[:len(k.Opens)-2], k.Opens[len(k.Opens)-1])
			}
		case 1, 2, 3, 4:
			k.RFail = [2]int{spot(n), int(scn.Pick(r, []syscall.Errno{syscall.EIO, syscall.EIO, syscall.EISDIR, syscall.EAGAIN, syscall.ESTALE, syscall.EBADF, syscall.ENOMEM}))}
		case 5:
			k.Stat = int(syscall.EIO)
		case 6:
			k.CFail = int(syscall.EIO)
		}
		if r.P(8) {
			k.EFail = int(scn.Pick(r, []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EBADF}))
		}
		return k
	}
	// C08: the way the output is accepted
	k.WFail = [2]int{-1, 0}
	if r.P(40) {
		for i := scn.Pick(r, []int{1, 3, 20, 300}); i > 0; i-- {
			m := scn.Pick(r, []int{1, 1, 2, 7, 100, 512, 4096, r.Range(1, n+1)})
			e := 0
			if r.P(15) {
				e = int(syscall.EINTR)
			}
			k.Writes = append(k.Writes, [2]int{m, e})
		}
	}
	// offsets are drawn relative to the output by cliCheck (negative: permille)
	at := -1 - scn.Pick(r, []int{0, 1000, 999, 500, r.Intn(1001), r.Intn(1001), r.Intn(1001), r.Intn(1001)})
	if r.P(20) {
		at = r.Skew(80)
	}
	errno := int(scn.Pick(r, []syscall.Errno{syscall.ENOSPC, syscall.ENOSPC, syscall.EIO, syscall.EPIPE, syscall.EAGAIN, syscall.EFBIG, syscall.EDQUOT, syscall.EBADF}))
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4, 5:
		k.WFail = [2]int{at, errno}
	case 6, 7:
		if errno == int(syscall.EPIPE) {
			errno = int(syscall.ENOSPC)
		}
		k.WOnce = [2]int{at, errno}
	}
	if r.P(8) {
		k.EFail = int(scn.Pick(r, []syscall.Errno{syscall.EIO, syscall.ENOSPC}))
	}
	return k
}

// place turns relative offsets into absolute ones.
func (c *cliSim) place(k *cliCase) error {
	for _, f := range []*[2]int{&k.WFail, &k.WOnce} {
		if f[1] == 0 || f[0] >= 0 {
			continue
		}
		n := 60
		if k.Mode != "version" && k.Mode != "help" {
			a, err := c.owed(k.Text, k.Mode)
			if err != nil {
				return err
			}
			n = len(a.Out)
		}
		f[0] = min(n, (-1-f[0])*n/1000)
		if (-1-f[0]) == 999 && n > 0 {
			f[0] = n - 1
		}
	}
	return nil
}

func cliCheck(prop, tier string, seed uint64, runs int) int {
	start := time.Now()
	c, err := buildCLI(prop)
	if err != nil {
		die("%s: %v", prop, err)
	}
	built := time.Since(start)
	defer c.close()
	corpus, err := scn.LoadCorpus(filepath.Join(verifDir, "corpus"))
	if err != nil {
		die("%v", err)
	}
	all := corpus.All()
	all = append(all, newDocs(corpus, seed, 20000, len(all)/2)...)
	if runs == 0 {
		runs = 30000
		if tier == "thorough" {
			runs = 600000
		}
	}
	type hit struct {
		i             int
		k             *cliCase
		class, detail string
	}
	var mu sync.Mutex
	var hits []hit
	var firstErr error
	faults, classes, modes := map[string]int{}, map[string]int{}, map[string]int{}
	distinct := map[uint64]bool{}
	var samples []any
	done, calls, bytesOut := 0, 0, 0
	limit := start.Add(420 * time.Second)
	if tier == "thorough" {
		limit = start.Add(3 * time.Hour)
	}
	t0 := time.Now()
	parallel(runs, workers, func(i int) bool {
		if time.Now().After(limit) {
			return false
		}
		s := scn.Mix(seed, 0x5eed)<<32 | uint64(uint32(i))
		k := c.gen(s, corpus, all)
		err := c.place(k)
		var r *cliRun
		f := map[string]int{}
		var class, detail string
		if err == nil {
			if r, err = c.run(k, fmt.Sprint(i)); err == nil {
				class, detail, err = c.judge(k, r, f)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			firstErr = err
			return false
		}
		done++
		classes[k.Class]++
		modes[k.Mode]++
		for n, v := range f {
			faults[n] += v
		}
		calls += len(r.events)
		bytesOut += len(r.out)
		if len(f) > 0 {
			distinct[scn.Mix(scn.HashStr(strings.Join(r.events, "\n")), scn.HashStr(string(k.Text)), scn.HashStr(k.Mode))] = true
		}
		if len(samples) < 3 && len(f) > 1 && len(k.Text) < 300 {
			samples = append(samples, map[string]any{"case": k, "exit": r.code, "signal": r.signal, "kernel": r.events})
		}
		if class != "" {
			hits = append(hits, hit{i, k, class, detail})
			return false
		}
		return true
	})
	took := time.Since(t0)
	if firstErr != nil {
		die("%s: %v", prop, firstErr)
	}
	code := 0
	if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
		h := hits[0]
		k, detail, tries := c.minimise(h.k, h.class, h.detail)
		code = writeReplay(&replayFile{Property: prop, VerifSeed: seed, Seed: uint64(h.i), Class: h.class, Detail: detail, Found: cut(mustJSON(h.k), 3000), CLI: k}, tries)
	}
	ev := map[string]any{
		"evaluations": done, "distinct_nontrivial": len(distinct),
		"rule":    "a case is one run of the real tool (main.go, os, fmt, encoding/json, parser) on the simulated kernel, drawn from the seed: text, mode, arguments, how the kernel delivers the file and accepts the output; non-trivial: at least one fault or oddity really reached the tool; distinct by the sequence of kernel events, the text and the mode",
		"samples": samples, "runs_per_hour": perHour(done, took), "simulated_time": fmt.Sprintf("%d simulated kernel calls", calls),
		"faults_injected": faults, "classes": classes, "modes": modes, "bytes_written_by_tool": bytesOut,
		"real":     "main.go and everything above package syscall",
		"stub":     "open, read, pread, seek, fstat, stat, write and close of package syscall for the input file and standard output",
		"build_s":  built.Seconds(),
		"search_s": took.Seconds(),
	}
	writeEvidence(prop, tier, seed, ev, []string{"the oracle for the right output is the library itself, called directly in another process on the same text",
		"the Go standard library reports what the kernel told it"}, time.Since(start), code)
	return code
}

// minimise shrinks a failing case.
func (c *cliSim) minimise(k *cliCase, class, detail string) (*cliCase, string, int) {
	tries := 0
	stop := time.Now().Add(45 * time.Second)
	bad := func(n *cliCase) bool {
		if time.Now().After(stop) {
			return false
		}
		tries++
		r, err := c.run(n, fmt.Sprintf("min-%d", procSeq.Add(1)))
		if err != nil {
			return false
		}
		cl, d, err := c.judge(n, r, map[string]int{})
		if err == nil && cl == class {
			k, detail = n, d
			return true
		}
		return false
	}
	dup := func() *cliCase {
		b, _ := json.Marshal(k)
		n := &cliCase{}
		_ = json.Unmarshal(b, n)
		return n
	}
	for _, f := range []func(n *cliCase){
		func(n *cliCase) { n.Reads = nil }, func(n *cliCase) { n.Writes = nil }, func(n *cliCase) { n.Opens = nil }, func(n *cliCase) { n.RFail = [2]int{} },
		func(n *cliCase) { n.WFail = [2]int{} }, func(n *cliCase) { n.WOnce = [2]int{} }, func(n *cliCase) { n.EFail = 0 }, func(n *cliCase) { n.CFail = 0 }, func(n *cliCase) { n.Stat = 0 },
		func(n *cliCase) { n.Mode32, n.Size = 0o100644, len(n.Text) }, func(n *cliCase) { n.Path = "" },
	} {
		n := dup()
		f(n)
		bad(n)
	}
	for size := len(k.Text) / 2; size >= 1000 && len(k.Text) > 20000; size /= 2 {
		for i := 0; i+size <= len(k.Text) && len(k.Text) > 20000; i += size {
			n := dup()
			n.Text = append(append([]byte{}, k.Text[:i]...), k.Text[i+size:]...)
			if k.Size == len(k.Text) {
				n.Size = len(n.Text)
			}
			if bad(n) {
				i -= size
			}
		}
	}
	toks := scn.Tokens(string(k.Text))
	for size := (len(toks) + 1) / 2; size >= 1; {
		ok := false
		for i := 0; i < len(toks) && !ok && time.Now().Before(stop); i += size {
			n := dup()
			t := append(append([]string{}, toks[:i]...), toks[min(i+size, len(toks)):]...)
			n.Text = []byte(strings.Join(t, ""))
			if k.Size == len(k.Text) {
				n.Size = len(n.Text)
			}
			if bad(n) {
				toks, ok = t, true
			}
		}
		if ok && size <= len(toks) {
			continue
		}
		size /= 2
	}
	for i := 0; i < 12 && len(k.Reads)+len(k.Writes) > 1; i++ {
		n := dup()
		n.Reads, n.Writes = n.Reads[:len(n.Reads)/2], n.Writes[:len(n.Writes)/2]
		if !bad(n) {
			break
		}
	}
	return k, detail, tries
}

func cliReplay(rf *replayFile) int {
	c, err := buildCLI(rf.Property)
	if err != nil {
		die("%v", err)
	}
	defer c.close()
	r, err := c.run(rf.CLI, "replay")
	if err != nil {
		die("%v", err)
	}
	class, detail, err := c.judge(rf.CLI, r, map[string]int{})
	if err != nil {
		die("%v", err)
	}
	if class == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", class, detail)
	if class == rf.Class && detail == rf.Detail {
		fmt.Println("the same violation as recorded")
	}
	fmt.Printf("VIOLATION property=%s\n", rf.Property)
	return 1
}

// encoded is a text in a form some programs undo by themselves.
func encoded(r *scn.Rand, s string) []byte {
	var b bytes.Buffer
	wide := func(bom bool, order binary.AppendByteOrder, size int) {
		if bom {
			s = "\ufeff" + s
		}
		for _, c := range s {
			if size == 4 {
				b.Write(order.AppendUint32(nil, uint32(c)))
				continue
			}
			for _, u := range utf16.Encode([]rune{c}) {
				b.Write(order.AppendUint16(nil, u))
			}
		}
	}
	switch r.Intn(14) {
	case 0, 1:
		wide(false, binary.LittleEndian, 2)
	case 2:
		wide(true, binary.LittleEndian, 2)
	case 3:
		wide(r.P(50), binary.BigEndian, 2)
	case 4:
		if r.P(50) {
			wide(r.P(50), binary.LittleEndian, 4)
		} else {
			wide(r.P(50), binary.BigEndian, 4)
		}
	case 5, 6:
		w := gzip.NewWriter(&b)
		io.WriteString(w, s)
		w.Close()
	case 7:
		w := zlib.NewWriter(&b)
		io.WriteString(w, s)
		w.Close()
	case 8:
		b.WriteString(base64.StdEncoding.EncodeToString([]byte(s)))
	case 9:
		b.WriteString(strings.ReplaceAll(s, "\n", "\r\n"))
	case 10:
		b.WriteString(strings.ReplaceAll(s, "\n", "\r"))
	case 11:
		b.WriteString("```sql\n" + s + "\n```\n")
	case 12:
		b.WriteString(strconv.Quote(s))
	case 13:
		b.WriteString(url.QueryEscape(s))
	}
	return b.Bytes()
}
