package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"gopkg.in/yaml.v2"
	"k8s.io/cli-runtime/pkg/genericclioptions"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd"
	"sigs.k8s.io/instrumentation-tools/cmd/cli"
	"sigs.k8s.io/instrumentation-tools/cmd/metrics"
	"verif/vh"
)

// payload is what a target exposes.
type payload struct {
	text    string
	samples []line
}

// The bubble's clock stands at 2000-01-01.
var c10Now = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano() / 1e6

func mkPayload(ls ...line) payload {
	var p payload
	for _, l := range ls {
		p.text += l.text + "\n"
		if l.lbls != nil {
			p.samples = append(p.samples, l)
		}
	}
	return p
}

func sampleLine(name string, v float64, ts *int64, kvs ...string) line {
	l := line{lbls: []kv{{"__name__", name}}, v: v, ts: ts}
	text := name
	for i := 0; i < len(kvs); i += 2 {
		l.lbls = append(l.lbls, kv{kvs[i], kvs[i+1]})
		text += map[bool]string{true: "{", false: ","}[i == 0] + fmt.Sprintf("%s=%q", kvs[i], kvs[i+1])
	}
	if len(kvs) > 0 {
		text += "}"
	}
	text += fmt.Sprintf(" %g", v)
	if ts != nil {
		text += fmt.Sprintf(" %d", *ts)
	}
	l.text = text
	return l
}

var c10Payloads = []payload{
	mkPayload(sampleLine("m", 1, nil), sampleLine("n", 2, nil, "a", "x", "b", "y")),
	mkPayload(),
	mkPayload(line{text: "# HELP m text"}, line{text: "# TYPE m gauge"}, sampleLine("m", 3, nil), sampleLine("m", 4, nil, "b", "z", "a", "é"), sampleLine("m_total", math.Inf(1), nil, "a", "1"), sampleLine("m_total", math.NaN(), nil, "a", "2")),
	mkPayload(sampleLine("m", 5, nil, "instance", "own", "z", "1"), sampleLine("n", 6, nil, "instance", "own")),
	mkPayload(sampleLine("m", 7, i64(c10Now-1500), "a", "fresh"), sampleLine("m", 8, i64(c10Now-301000), "a", "stale"), sampleLine("o", 9, i64(c10Now+60000))),
	hugePayload(),
	mkPayload(line{text: "# nothing"}),
}

var errTransport = errors.New("no route")

// answer is how a target answers.
type answer struct {
	name    string
	payload int
	status  int
	err     bool // transport error
	cut     bool // the body breaks off with an error
	bad     string
	from    int  // faulty from this fetch on
	pieces  int  // how many bytes at a time the body comes in, if not all at once
	sized   bool // the length of the body is told
}

func (a answer) faulty(fetch int) bool {
	return fetch >= a.from && (a.err || a.cut || a.bad != "" || a.status != 0)
}

var c10Answers = []answer{
	{name: "ok0", payload: 0}, {name: "ok2", payload: 2}, {name: "ok3", payload: 3}, {name: "ok1", payload: 1}, {name: "ok4", payload: 4},
	{name: "refused", err: true}, {name: "500", status: 500, payload: 0}, {name: "malformed", payload: 0, bad: "m{ 1\n"}, {name: "cut", payload: 2, cut: true},
	{name: "404", status: 404}, {name: "503", status: 503, payload: 3}, {name: "301", status: 301}, {name: "400", status: 400, payload: 2}, {name: "unfinished line", payload: 0, bad: "m"},
	{name: "refused later", err: true, from: 1}, {name: "500 later", status: 500, payload: 0, from: 1}, {name: "malformed later", payload: 2, bad: "{\n", from: 1}, {name: "cut later", payload: 2, cut: true, from: 1},
}

type cutReader struct {
	r io.Reader
}

func (c *cutReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}

// fakeNet is the network of targets.
type fakeNet struct {
	mu      sync.Mutex
	answers map[string]answer
	fetches map[string]int
	failed  bool
	other   string
	open    int
}

func newNet(m map[string]answer) *fakeNet {
	return &fakeNet{answers: m, fetches: map[string]int{}}
}

type trackedBody struct {
	io.Reader
	n *fakeNet
}

func (t trackedBody) Close() error {
	t.n.mu.Lock()
	defer t.n.mu.Unlock()
	t.n.open--
	return nil
}

func (f *fakeNet) RoundTrip(r *http.Request) (*http.Response, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	u := r.URL.String()
	a, ok := f.answers[u]
	if !ok || r.Method != "GET" {
		f.other = r.Method + " " + u
		return nil, errTransport
	}
	n := f.fetches[u]
	f.fetches[u]++
	text := c10Payloads[a.payload].text
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r, Header: http.Header{}}
	var body io.Reader = strings.NewReader(text)
	if a.faulty(n) {
		f.failed = true
		switch {
		case a.err:
			return nil, errTransport
		case a.status != 0:
			resp.StatusCode, resp.Status = a.status, fmt.Sprint(a.status, " Nope")
		case a.cut:
			body = &cutReader{body}
		default:
			body = strings.NewReader(text + a.bad)
		}
	}
	if a.pieces > 0 {
		body = &pieceReader{body, a.pieces}
	}
	resp.ContentLength = -1
	if a.sized {
		resp.ContentLength = int64(len(text))
	}
	f.open++
	resp.Body = trackedBody{body, f}
	return resp, nil
}

var c10Queries = []string{"", "m", "sum(m)", "m{", "n + on() m", "{instance=\"http://t0/metrics\"}", "m or n", "1", "count({__name__=~\"m.*\"}) by (instance)", "m[1m]", "topk(1, m)", "\"s\"", "m{instance=\"own\"}", "rate("}
var c10Formats = []string{"json", "yaml", "prometheus", "xml", ""}

func boundsC10(q bool) string {
	return fmt.Sprintf("every combination of 0-3 targets over %d answers (5 payloads; refused, 5 statuses, malformed, cut off; from the first or only from the second fetch on), times listing, %d queries and %d formats (all combinations for <=1 target (thorough: 2); for more, every query and format with rotating partners), under a virtual clock; %d answers more (a body of 5 MB, bodies arriving in pieces, ...) alone and with another target; 4 to 65 targets, one of them failing; plus every combination of flags through the command line parser against loopback servers",
		len(c10Answers), len(c10Queries), len(c10Formats), len(c10Special))
}

func runC10(h *vh.H) {
	mode := func(targets []int, none, list bool, q, f int) {
		targets = append([]int(nil), targets...)
		h.Case(func() string {
			s := ""
			for _, t := range targets {
				s += " " + answerNo(t).name
			}
			if none {
				s += " (default target)"
			}
			return fmt.Sprintf("targets[%s] list=%v query=%q format=%q", strings.TrimSpace(s), list, c10Queries[q], c10Formats[f])
		}, func(c *vh.C) {
			var fail string
			done := false
			synctest.Test(theT, func(t *testing.T) {
				defer func() { done = true }()
				defer vh.Recover(&fail)
				caseC10(c, targets, none, list, q, f)
			})
			if fail != "" {
				c.Failf("%s", fail)
			}
			if !done {
				c.Failf("bubble ended early")
			}
		})
	}
	cnt := 0
	for n := 0; n <= 3; n++ {
		k := len(c10Answers)
		m := n
		if n == 0 {
			m = 1
		}
		vh.Seqs(k, m, m, func(ix []int) {
			if h.Stop() {
				return
			}
			if n <= 1 || n == 2 && !h.Quick() {
				for q := range c10Queries {
					for f := range c10Formats {
						mode(ix, n == 0, false, q, f)
					}
				}
				mode(ix, n == 0, true, 0, 0)
				mode(ix, n == 0, true, 3, 3)
				return
			}
			cnt++
			for q := range c10Queries {
				if n == 3 && h.Quick() && (q+cnt)%3 != 0 {
					continue
				}
				mode(ix, false, false, q, (cnt+q)%3)
			}
			mode(ix, false, false, cnt%2, 3+cnt%2)
			mode(ix, false, true, 0, 0)
		})
	}
	// bodies of any size that arrive in any pieces
	for i := range c10Special {
		for q := range c10Queries {
			for f := range c10Formats {
				mode([]int{-1 - i}, false, false, q, f)
			}
			mode([]int{-1 - i, 0}, false, false, q, q%3)
			mode([]int{1, -1 - i}, false, false, q, q%3)
		}
		mode([]int{-1 - i}, false, true, 0, 0)
		mode([]int{0, -1 - i}, false, true, 0, 0)
	}
	// many targets, one of them failing
	for _, n := range []int{4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 65} {
		all := make([]int, n)
		for i := range all {
			all[i] = i % 5
		}
		for q := range c10Queries {
			mode(all, false, false, q, q%3)
		}
		mode(all, false, true, 0, 0)
		for at := range all {
			if n > 17 && h.Quick() && at%8 > 1 {
				continue
			}
			for bad := 5; bad < len(c10Answers); bad++ {
				if n > 9 && h.Quick() && (bad+at)%3 != 0 {
					continue
				}
				ts := append([]int(nil), all...)
				ts[at] = bad
				cnt++
				mode(ts, false, cnt%7 == 0, cnt%2, cnt%3)
			}
		}
	}
	runCLI(h)
}

// answerNo gives the answers that are in every combination and the special ones.
func answerNo(i int) answer {
	if i < 0 {
		return c10Special[-1-i]
	}
	return c10Answers[i]
}

func hugePayload() payload {
	ls := []line{sampleLine("m", 1, nil)}
	for i := 0; i < 300; i++ {
		ls = append(ls, line{text: "# " + strings.Repeat("x", 1<<14)})
	}
	ls = append(ls, sampleLine("m", 2, nil, "a", strings.Repeat("y", 70000)))
	for i := 0; i < 2000; i++ {
		ls = append(ls, sampleLine("n", float64(i), nil, "i", fmt.Sprint(i)))
	}
	return mkPayload(append(ls, sampleLine("o", 3, nil))...)
}

var c10Special = []answer{
	{name: "huge", payload: 5}, {name: "huge in pieces", payload: 5, pieces: 1000}, {name: "byte by byte", payload: 2, pieces: 1}, {name: "3 bytes at a time", payload: 4, pieces: 3},
	{name: "huge, cut", payload: 5, cut: true}, {name: "cut byte by byte", payload: 0, cut: true, pieces: 1}, {name: "huge, malformed", payload: 5, bad: "m{ 1\n"},
	{name: "nothing but a comment", payload: 6}, {name: "known size", payload: 2, sized: true},
}

// pieceReader reads n bytes at a time.
type pieceReader struct {
	r io.Reader
	n int
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return p.r.Read(b)
}

func caseC10(c *vh.C, targets []int, none, list bool, q, f int) {
	c.Trans(1)
	c.Trace()
	flags := cli.PromQFlags{List: list, PromQuery: c10Queries[q], Output: c10Formats[f]}
	answers := map[string]answer{}
	var urls []string
	if none {
		answers["http://kube:8080/metrics"] = c10Answers[targets[0]]
		urls = []string{"http://kube:8080/metrics"}
	} else {
		for i, t := range targets {
			u := fmt.Sprintf("http://t%d/metrics", i)
			answers[u] = answerNo(t)
			urls = append(urls, u)
		}
		flags.HostNames = append([]string(nil), urls...)
	}
	net := newNet(answers)
	var out, errOut bytes.Buffer
	color.NoColor = q%2 == 0
	mc := metrics.MetricsCommand{
		PromQCommand: cli.PromQCommand{
			RestConfig: &rest.Config{Host: "http://kube:8080", Transport: net},
			Streams:    genericclioptions.IOStreams{In: strings.NewReader(""), Out: &out, ErrOut: &errOut},
		},
		Period: time.Hour,
		Window: time.Minute,
	}
	err := mc.Run(flags)
	color.NoColor = true
	if net.other != "" {
		c.Failf("unexpected request %s", net.other)
	}
	if net.open != 0 {
		c.Failf("%d response bodies left open", net.open)
	}
	c.State(fmt.Sprint(err), out.String())
	judge(c, out.String(), err, net.failed, list, flags, urls, answers, time.Now())
}

// judge compares the command's output and error with what they should be.
func judge(c *vh.C, out string, err error, failed, list bool, flags cli.PromQFlags, urls []string, answers map[string]answer, now time.Time) {
	if failed {
		if err == nil || out != "" {
			c.Failf("a target failed, but the command returns %v and prints %q", err, out)
		}
		c.Outcome("target failed")
		return
	}
	if list {
		set := map[string]bool{}
		for _, a := range answers {
			for _, s := range c10Payloads[a.payload].samples {
				var keys []string
				for _, l := range s.lbls[1:] {
					if l[0] != "instance" {
						keys = append(keys, l[0])
					}
				}
				sort.Strings(keys)
				set[fmt.Sprintf("--%s { %s }\n", s.lbls[0][1], strings.Join(keys, ", "))] = true
			}
		}
		var ls []string
		for l := range set {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		if got := ansi.ReplaceAllString(out, ""); err != nil || got != strings.Join(ls, "") {
			c.Failf("listing: %v\n%s\nwant\n%s", err, got, strings.Join(ls, ""))
		}
		c.Outcome("listed", fmt.Sprint(len(ls)))
		return
	}
	// what the query gives over the union of the samples
	ref := &refStore{}
	for _, u := range urls {
		for _, s := range c10Payloads[answers[u].payload].samples {
			m := map[string]string{}
			for _, l := range s.lbls {
				m[l[0]] = l[1]
			}
			m["instance"] = u
			ts := now.UnixNano() / 1e6
			if s.ts != nil {
				ts = *s.ts
			}
			ref.add(labels.FromMap(m), ts, s.v)
		}
	}
	q := flags.PromQuery
	if q == "" {
		q = `{__name__=~".+"}`
	}
	var res *promql.Result
	iq, qerr := promql.NewEngine(promql.EngineOpts{Timeout: time.Hour, MaxSamples: 1000000}).NewInstantQuery(ref, q, now)
	if qerr == nil {
		defer iq.Close()
		res = iq.Exec(context.Background())
		qerr = res.Err
	}
	known := flags.Output == "json" || flags.Output == "yaml" || flags.Output == "prometheus"
	if qerr != nil || !known {
		if err == nil || out != "" {
			c.Failf("query error %v, format %q: the command returns %v and prints %q", qerr, flags.Output, err, out)
		}
		c.Outcome("rejected")
		return
	}
	if err != nil {
		c.Failf("the command failed: %v", err)
	}
	got := canonOut(c, ansi.ReplaceAllString(out, ""), flags.Output, res.Value, false)
	want := canonRef(c, res, flags.Output)
	if !reflect.DeepEqual(got, want) {
		c.Failf("printed\n%s\n= %q\nwant\n%q", out, got, want)
	}
	c.Outcome("printed", fmt.Sprint(len(got)))
}

// canonRef is the canonical form of the expected output.
func canonRef(c *vh.C, res *promql.Result, format string) []string {
	switch format {
	case "prometheus":
		v, ok := res.Value.(promql.Vector)
		if !ok {
			return []string{strings.TrimSuffix(res.String(), "\n")}
		}
		var ls []string
		for _, s := range v {
			ls = append(ls, promLine(s))
		}
		sort.Strings(ls)
		return ls
	case "json":
		b, err := json.Marshal(res.Value)
		if err != nil {
			c.Failf("marshal: %v", err)
		}
		return canonOut(c, string(b), "json", res.Value, true)
	default:
		b, err := yaml.Marshal(res.Value)
		if err != nil {
			c.Failf("marshal: %v", err)
		}
		return canonOut(c, string(b), "yaml", res.Value, true)
	}
}

// canonOut decodes output into a list, sorted where the order isn't specified.
func canonOut(c *vh.C, out, format string, v parser.Value, ours bool) []string {
	if !ours {
		if !strings.HasSuffix(out, "\n") {
			c.Failf("output doesn't end its line: %q", out)
		}
		out = strings.TrimSuffix(out, "\n")
	}
	var ls []string
	switch format {
	case "prometheus":
		if _, ok := v.(promql.Vector); !ok {
			return []string{strings.TrimSuffix(out, "\n")}
		}
		if out != "" {
			ls = strings.Split(out, "\n")
		}
	case "json":
		x := decode(c, "output", out)
		l, ok := x.([]interface{})
		if _, vec := v.(promql.Vector); !ok || !vec {
			l = []interface{}{x}
		}
		for _, e := range l {
			b, _ := json.Marshal(e)
			ls = append(ls, string(b))
		}
	case "yaml":
		if _, vec := v.(promql.Vector); !vec {
			var x interface{}
			if err := yaml.Unmarshal([]byte(out), &x); err != nil {
				c.Failf("output isn't YAML: %v\n%s", err, out)
			}
			return []string{fmt.Sprint(x)}
		}
		var l []interface{}
		if err := yaml.Unmarshal([]byte(out), &l); err != nil {
			c.Failf("output isn't a YAML list: %v\n%s", err, out)
		}
		for _, e := range l {
			ls = append(ls, fmt.Sprint(e))
		}
	}
	sort.Strings(ls)
	return ls
}

func promLine(s promql.Sample) string {
	var ls []string
	name := ""
	for _, l := range s.Metric {
		if l.Name == "__name__" {
			name = l.Value
		} else {
			ls = append(ls, fmt.Sprintf("%s=%q", l.Name, l.Value))
		}
	}
	return fmt.Sprintf("%s{%s} => %s", name, strings.Join(ls, ", "), s.Point.String())
}

// runCLI goes through the command line and real HTTP.
func runCLI(h *vh.H) {
	short := []bool{true, false}
	vh.Product([]int{3, 2, 2, 4, 5, 3}, func(ix []int) {
		nt, list, longOpts, q, f, a := ix[0], ix[1] == 1, short[ix[2]], ix[3], ix[4], ix[5]
		if h.Stop() {
			return
		}
		h.Case(func() string {
			return fmt.Sprintf("command line: %d targets list=%v long options=%v query %d format %d answers %d", nt, list, longOpts, q, f, a)
		}, func(c *vh.C) { caseCLI(c, nt, list, longOpts, q, f, a) })
	})
}

func caseCLI(c *vh.C, nt int, list, longOpts bool, q, f, a int) {
	c.Trans(1)
	c.Trace()
	dir, err := os.MkdirTemp("", "c10")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	kinds := [][]int{{0, 1}, {2, 0}, {0, 9}}[a] // answers: fine, fine, second 404
	answers := map[string]answer{}
	var urls []string
	var mu sync.Mutex
	failed := false
	n := nt
	if n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		an := c10Answers[kinds[(i+n-1)%2]]
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path != "/metrics" {
				w.WriteHeader(404)
				return
			}
			if an.status != 0 {
				mu.Lock()
				failed = true
				mu.Unlock()
				w.WriteHeader(an.status)
			}
			io.WriteString(w, c10Payloads[an.payload].text)
		}))
		defer srv.Close()
		u := srv.URL + "/metrics"
		answers[u] = an
		urls = append(urls, u)
	}
	host := strings.TrimSuffix(urls[0], "/metrics")
	if nt > 0 {
		host = "http://127.0.0.1:1"
	}
	kc := filepath.Join(dir, "config")
	os.WriteFile(kc, []byte(fmt.Sprintf(`{"apiVersion":"v1","kind":"Config","clusters":[{"name":"c","cluster":{"server":%q}}],"contexts":[{"name":"x","context":{"cluster":"c"}}],"current-context":"x"}`, host)), 0o600)
	os.Setenv("KUBECONFIG", kc)
	query := []string{"", "m", "sum(n)", "m{"}[q]
	format := []string{"", "json", "yaml", "prometheus", "bogus"}[f]
	args := []string{}
	opt := func(s, l, v string) {
		if longOpts {
			args = append(args, "--"+l+"="+v)
		} else {
			args = append(args, "-"+s, v)
		}
	}
	if nt > 0 {
		for _, u := range urls {
			opt("t", "targets", u)
		}
	}
	if q > 0 {
		opt("q", "query", query)
	}
	if f > 0 {
		opt("o", "output", format)
	} else {
		format = "json"
	}
	if list {
		if longOpts {
			args = append(args, "--list")
		} else {
			args = append(args, "-l")
		}
	}
	var out, errOut bytes.Buffer
	color.NoColor = true
	root := cmd.NewCmdPromQ(genericclioptions.IOStreams{In: strings.NewReader(""), Out: &out, ErrOut: &errOut})
	root.SetArgs(args)
	root.SetOut(&errOut)
	root.SetErr(&errOut)
	before := time.Now()
	err = root.Execute()
	after := time.Now()
	mu.Lock()
	defer mu.Unlock()
	flags := cli.PromQFlags{List: list, PromQuery: query, Output: format}
	got := out.String()
	// the clock is the real one: put the times of evaluation at one instant
	ref := time.UnixMilli(after.UnixMilli())
	if !list && err == nil {
		in := func(ms float64) bool {
			return ms >= float64(before.UnixMilli())-0.5 && ms <= float64(after.UnixMilli())+0.5
		}
		got = regexp.MustCompile(`\b\d{10}(\.\d+)?\b|\b\d{13}\b`).ReplaceAllStringFunc(got, func(s string) string {
			v, _ := strconv.ParseFloat(s, 64)
			switch {
			case in(v):
				return fmt.Sprint(ref.UnixMilli())
			case in(v * 1000):
				b, _ := json.Marshal(float64(ref.UnixMilli()) / 1000)
				return string(b)
			}
			return s
		})
	}
	judge(c, got, err, failed, list, flags, urls, answers, ref)
}
