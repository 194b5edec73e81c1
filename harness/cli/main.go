// Check of the command line (C31).
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fatih/color"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd"
	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"verif/vh"
)

// site is a server that notes who asks for what.
type site struct {
	mu   sync.Mutex
	log  []string
	url  [3]string // of its three hosts
	tls  [3]string // of the same hosts, encrypted
	ca   string
	bin  string
	home string
}

const payload = "m%d 1\nm%d{a=\"x\",b=\"y\"} 2\nshared{from=\"%d\"} 3\n"

func newSite() *site {
	s := &site{}
	for i := range s.url {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		s.url[i] = "http://" + l.Addr().String()
		handler := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s.mu.Lock()
			s.log = append(s.log, fmt.Sprintf("%s host %d %s auth %q", r.Method, i, r.URL.RequestURI(), r.Header.Get("Authorization")))
			s.mu.Unlock()
			if strings.Contains(r.URL.Path, "broken") {
				w.WriteHeader(500)
			}
			fmt.Fprintf(w, payload, i, i, i)
		})
		go http.Serve(l, handler)
		enc := httptest.NewUnstartedServer(handler)
		enc.Config.ErrorLog = log.New(io.Discard, "", 0)
		enc.StartTLS()
		s.tls[i] = enc.URL
		s.ca = base64.StdEncoding.EncodeToString(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: enc.Certificate().Raw}))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	s.bin = filepath.Join(filepath.Dir(exe), "promq")
	if s.home, err = os.MkdirTemp(os.Getenv("VH_DIR"), "home"); err != nil {
		panic(err)
	}
	return s
}

func (s *site) requests() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.log
	s.log = nil
	return l
}

// request is how a request for the URL is noted.
func (s *site) request(target string) string {
	for i := range s.url {
		for _, u := range []string{s.url[i], s.tls[i]} {
			if rest, ok := strings.CutPrefix(target, u+"/"); ok {
				return fmt.Sprintf("GET host %d /%s", i, rest)
			}
		}
	}
	return "nothing like " + target
}

// fill puts the hosts' addresses in.
func (s *site) fill(text string) string {
	for i, u := range s.url {
		text = strings.ReplaceAll(text, fmt.Sprintf("@%d", i), u)
		text = strings.ReplaceAll(text, fmt.Sprintf("@T%d", i), s.tls[i])
	}
	return strings.ReplaceAll(text, "@CA", s.ca)
}

// settings are what a command line asks for.
type settings struct {
	flags cli.PromQFlags
	bad   bool
	help  bool
}

// chunk is one or more words of a command line with what they mean.
type chunk struct {
	words []string
	does  func(s *settings)
}

func (c chunk) String() string { return strings.Join(c.words, "␣") }

func q(v string) func(*settings)  { return func(s *settings) { s.flags.PromQuery = v } }
func o(v string) func(*settings)  { return func(s *settings) { s.flags.Output = v } }
func l(v bool) func(*settings)    { return func(s *settings) { s.flags.List = v } }
func cont(v bool) func(*settings) { return func(s *settings) { s.flags.Continuous = v } }
func bad(s *settings)             { s.bad = true }
func t(v string) func(*settings) {
	return func(s *settings) { s.flags.HostNames = append(s.flags.HostNames, v) }
}
func both(fs ...func(*settings)) func(*settings) {
	return func(s *settings) {
		for _, f := range fs {
			f(s)
		}
	}
}

var chunks = []chunk{
	{[]string{"-l"}, l(true)}, {[]string{"--list"}, l(true)}, {[]string{"-l=false"}, l(false)}, {[]string{"--list=true"}, l(true)},
	{[]string{"-q", "m0"}, q("m0")}, {[]string{"-qm1"}, q("m1")}, {[]string{"-q=m2"}, q("m2")}, {[]string{"--query", "sum(shared) by (from)"}, q("sum(shared) by (from)")},
	{[]string{"--query=m0{a=\"x\",b!=\"z\"}"}, q("m0{a=\"x\",b!=\"z\"}")}, {[]string{"--query="}, q("")}, {[]string{"-q", "-1"}, q("-1")}, {[]string{"-q", "m{"}, q("m{")},
	{[]string{"-o", "yaml"}, o("yaml")}, {[]string{"-oyaml"}, o("yaml")}, {[]string{"-o=json"}, o("json")}, {[]string{"--output", "prometheus"}, o("prometheus")}, {[]string{"--output=bogus"}, o("bogus")}, {[]string{"-o", "YAML"}, o("YAML")},
	{[]string{"-t", "@0/metrics"}, t("@0/metrics")}, {[]string{"-t@1/metrics"}, t("@1/metrics")}, {[]string{"--targets=@2/metrics"}, t("@2/metrics")},
	{[]string{"--targets", "@1/x?a=1,2&b=\"c,d\""}, t("@1/x?a=1,2&b=\"c,d\"")}, {[]string{"-t=@2/a;b=[c]"}, t("@2/a;b=[c]")}, {[]string{"-t", "@0/broken"}, t("@0/broken")},
	{[]string{"-lt", "@0/metrics"}, both(l(true), t("@0/metrics"))}, {[]string{"-lo", "yaml"}, both(l(true), o("yaml"))}, {[]string{"-lqm1"}, both(l(true), q("m1"))},
	{[]string{"-c=false"}, cont(false)}, {[]string{"--continuous=false"}, cont(false)},
	{[]string{"--nope"}, bad}, {[]string{"-z"}, bad}, {[]string{"--list=maybe"}, bad}, {[]string{"-l=2"}, bad}, {[]string{"--help"}, func(s *settings) { s.help = true }},
}

// ends can only be last.
var ends = []chunk{{[]string{"-q"}, bad}, {[]string{"--query"}, bad}, {[]string{"-t"}, bad}, {[]string{"-o"}, bad}, {[]string{"--targets"}, bad}, {[]string{"-lo"}, bad}, {[]string{"-h"}, func(s *settings) { s.help = true }}}

func (s *site) read(cs []chunk) (st settings, args []string) {
	st.flags.Output = "json"
	for _, c := range cs {
		if !st.bad {
			c.does(&st)
		}
		for _, w := range c.words {
			args = append(args, s.fill(w))
		}
	}
	for i, t := range st.flags.HostNames {
		st.flags.HostNames[i] = s.fill(t)
	}
	return
}

// kubeconfig is a configuration with the server that counts.
type kubeconfig struct {
	name   string
	files  []string // contents; "-" is a file that doesn't exist
	server string   // what the current context leads to; "" if it's unusable
	auth   string
}

// (credentials only go over encrypted connections)
func kube(server, user, current string) string {
	return fmt.Sprintf(`{"apiVersion":"v1","kind":"Config","clusters":[{"name":"other","cluster":{"server":"@T2","insecure-skip-tls-verify":true}},{"name":"c","cluster":{"server":%q%s}}],`+
		`"users":[{"name":"nobody","user":{"token":"wrong"}},{"name":"u","user":{%s}}],"contexts":[{"name":"else","context":{"cluster":"other","user":"nobody"}},{"name":"x","context":{"cluster":"c","user":"u"}}],"current-context":%q}`, server, map[bool]string{true: `,"certificate-authority-data":"@CA"`}[strings.HasPrefix(server, "@T")], user, current)
}

var configs = []kubeconfig{
	{"a token", []string{kube("@T0", `"token":"s3cret"`, "x")}, "@T0", "Bearer s3cret"},
	{"a password", []string{kube("@T1", `"username":"me","password":"pw"`, "x")}, "@T1", "Basic bWU6cHc="},
	{"nobody in particular", []string{kube("@T0", ``, "x")}, "@T0", ""},
	{"a path", []string{kube("@T0/k8s/clusters/c-1", `"token":"t"`, "x")}, "@T0/k8s/clusters/c-1", "Bearer t"},
	{"the other context", []string{kube("@T0", `"token":"t"`, "else")}, "@T2", "Bearer wrong"},
	{"two files", []string{`{"apiVersion":"v1","kind":"Config","current-context":"x"}`, kube("@T1", `"token":"t"`, "else")}, "@T1", "Bearer t"},
	{"a missing file and another", []string{"-", kube("@T1", `"token":"t"`, "x")}, "@T1", "Bearer t"},
	{"an unencrypted server", []string{kube("@1", `"token":"t"`, "x")}, "@1", ""},
	{"an unknown context", []string{kube("@0", ``, "nope")}, "", ""},
	{"garbage", []string{"{"}, "", ""},
}

func (s *site) write(k kubeconfig) string {
	var paths []string
	for i, f := range k.files {
		p := filepath.Join(s.home, fmt.Sprintf("config%d", i))
		os.Remove(p)
		if f != "-" {
			if err := os.WriteFile(p, []byte(s.fill(f)), 0o600); err != nil {
				panic(err)
			}
		}
		paths = append(paths, p)
	}
	return strings.Join(paths, ":")
}

var instants = regexp.MustCompile(`\b\d{10}(\.\d+)?\b|\b\d{13}\b`)

// canon makes output comparable: the order of results isn't specified, and time goes by.
func canon(out string) string {
	ls := strings.Split(instants.ReplaceAllString(out, "T"), "\n")
	for i, l := range ls {
		ls[i] = strings.Trim(l, " ,-")
	}
	sort.Strings(ls)
	return strings.Join(ls, "\n")
}

// judge compares what came of the command line with what the settings say.
func (s *site) judge(c *vh.C, st settings, k kubeconfig, out, errOut string, failed bool) {
	got := s.requests()
	switch {
	case st.bad || !st.help && k.server == "":
		if !failed || out != "" || errOut == "" || len(got) > 0 {
			c.Failf("neither usable nor refused: failed=%v, prints %q, complains %q, asks for %q", failed, out, errOut, got)
		}
		c.Outcome("refused")
		return
	case st.help:
		for _, f := range []string{"targets", "query", "list", "output", "continuous"} {
			if !strings.Contains(out, "--"+f) {
				c.Failf("help doesn't tell of --%s: %q", f, out)
			}
		}
		if failed || len(got) > 0 {
			c.Failf("help: failed=%v, asks for %q", failed, got)
		}
		c.Outcome("help")
		return
	}
	// the same settings, put in directly
	var want bytes.Buffer
	rc := &rest.Config{Host: s.fill(k.server)}
	switch how, what, _ := strings.Cut(k.auth, " "); how {
	case "Bearer":
		rc.BearerToken = what
	case "Basic":
		rc.Username, rc.Password = "me", "pw"
	}
	if strings.HasPrefix(k.server, "@T") {
		rc.CAData, _ = base64.StdEncoding.DecodeString(s.ca)
	}
	mc := metrics.MetricsCommand{PromQCommand: cli.PromQCommand{RestConfig: rc, Streams: genericclioptions.IOStreams{In: strings.NewReader(""), Out: &want, ErrOut: io.Discard}}, Period: time.Second, Window: time.Minute}
	flags := st.flags
	flags.HostNames = slices.Clone(flags.HostNames)
	err := mc.Run(flags)
	exp := s.requests()
	if len(exp) == 0 {
		c.Die("nothing was asked for")
	}
	if failed != (err != nil) || failed && (out != "" || errOut == "") {
		c.Failf("failed=%v, prints %q, complains %q; the settings give %v", failed, out, errOut, err)
	}
	if !slices.Equal(got, exp) {
		c.Failf("asks for %q, the settings give %q", got, exp)
	}
	// each round asks every target in turn, a failing one ends it
	targets := st.flags.HostNames
	if len(targets) == 0 {
		targets = []string{s.fill(k.server) + "/metrics"}
	}
	for i, g := range got {
		if want := s.request(targets[i%len(targets)]); !strings.HasPrefix(g, want+" auth ") || len(st.flags.HostNames) == 0 && g != fmt.Sprintf("%s auth %q", want, k.auth) {
			c.Failf("asks for %q, but for %q as number %d", got, want, i)
		}
	}
	if !failed && len(got)%len(targets) != 0 {
		c.Failf("asks for %q, not for all of %q", got, targets)
	}
	if canon(out) != canon(want.String()) {
		c.Failf("prints %q, the settings give %q", out, want.String())
	}
	c.Outcome(fmt.Sprint(failed), canon(out))
}

// inside runs the command in this process.
func (s *site) inside(c *vh.C, k kubeconfig, cs []chunk) {
	st, args := s.read(cs)
	os.Setenv("KUBECONFIG", s.write(k))
	var out, errOut bytes.Buffer
	root := cmd.NewCmdPromQ(genericclioptions.IOStreams{In: strings.NewReader(""), Out: &out, ErrOut: &errOut})
	root.SetArgs(args)
	root.SetOut(&out)
	root.SetErr(&errOut)
	err := root.Execute()
	s.judge(c, st, k, out.String(), errOut.String(), err != nil)
	c.Trans(len(cs))
	c.Trace()
	c.State(fmt.Sprint(st.bad, st.help, st.flags.List, st.flags.PromQuery, st.flags.Output, len(st.flags.HostNames)))
}

// outside runs the command itself.
func (s *site) outside(c *vh.C, k kubeconfig, cs []chunk) {
	st, args := s.read(cs)
	p := exec.Command(s.bin, args...)
	p.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + s.home, "KUBECONFIG=" + s.write(k)}
	p.Dir = s.home
	var out, errOut bytes.Buffer
	p.Stdout, p.Stderr = &out, &errOut
	err := p.Run()
	if ee, ok := err.(*exec.ExitError); err != nil && (!ok || !ee.Exited()) {
		c.Failf("the command ended with %v: %s", err, errOut.String())
	}
	if strings.Contains(errOut.String(), "goroutine ") {
		c.Failf("the command crashed: %s", errOut.String())
	}
	s.judge(c, st, k, out.String(), errOut.String(), err != nil)
	c.Trans(len(cs))
	c.Trace()
}

func boundsC31(q bool) string {
	return fmt.Sprintf("every command line of <=%d out of %d spellings of the options (short, long, joined, grouped, repeated, unknown, without value) in process, and of <=%d as a process of its own, each against three servers; %d kubeconfigs x every command line of <=%d; the requests (with credentials), both output streams and the exit status compared with a run of exactly the settings meant",
		map[bool]int{true: 3, false: 4}[q], len(chunks)+len(ends), map[bool]int{true: 1, false: 2}[q], len(configs), map[bool]int{true: 1, false: 2}[q])
}

func runC31(h *vh.H) {
	s := newSite()
	defer os.RemoveAll(s.home)
	os.Setenv("HOME", s.home)
	color.NoColor = true
	words := func(cs []chunk) string {
		var ls []string
		for _, c := range cs {
			ls = append(ls, c.String())
		}
		return strings.Join(ls, " ")
	}
	lines := func(hi int, f func(cs []chunk)) {
		vh.Seqs(len(chunks)+len(ends), 0, hi, func(ix []int) {
			if h.Stop() {
				return
			}
			var cs []chunk
			for j, i := range ix {
				if i < len(chunks) {
					cs = append(cs, chunks[i])
				} else if j == len(ix)-1 {
					cs = append(cs, ends[i-len(chunks)])
				} else {
					return
				}
			}
			f(cs)
		})
	}
	for _, k := range configs {
		lines(h.Pick(1, 2), func(cs []chunk) {
			h.Case(func() string { return fmt.Sprintf("kubeconfig with %s: promq %s", k.name, words(cs)) }, func(c *vh.C) { s.inside(c, k, cs) })
		})
		for _, cs := range [][]chunk{nil, {chunks[0]}, {chunks[4]}, {chunks[18]}} {
			h.Case(func() string { return fmt.Sprintf("kubeconfig with %s: a process promq %s", k.name, words(cs)) }, func(c *vh.C) { s.outside(c, k, cs) })
		}
	}
	lines(h.Pick(1, 2), func(cs []chunk) {
		h.Case(func() string { return "a process promq " + words(cs) }, func(c *vh.C) { s.outside(c, configs[0], cs) })
	})
	lines(h.Pick(3, 4), func(cs []chunk) {
		h.Case(func() string { return "promq " + words(cs) }, func(c *vh.C) { s.inside(c, configs[0], cs) })
	})
}

func main() {
	vh.Main(vh.Check{ID: "C31", Bounds: boundsC31, Run: runC31})
}
