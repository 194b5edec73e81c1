package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/promql/parser"
	"github.com/prometheus/prometheus/storage"
	"gopkg.in/yaml.v2"

	"sigs.k8s.io/instrumentation-tools/promq/prom"
	"verif/vh"
)

var c09Labels = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "1"),
	labels.FromStrings("__name__", "m"),
	labels.FromStrings(),
	labels.FromStrings("a", "1", "b", "x y"),
	labels.FromStrings("__name__", "n:x", "a", "q\"\\\n\t{}=,", "z", "é世\u2028"),
	labels.FromStrings("__name__", "m", "a", "<&>true", "b", "1e3", "c", "~", "d", "null"),
	labels.FromStrings("__name__", "m", "A", "", "_", "- x: y # z"),
	labels.FromStrings("__name__", "m", "a", "\x1b[31mred\x1b[0m\x00\x7f"),
	labels.FromStrings("__name__", "m", "a", "%s%d%!"),
}

var c09Values = []float64{1, 0, math.NaN(), math.Inf(1), math.Inf(-1), -2.5, 1e21, 1e-9, 123456789.123, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993, math.Copysign(0, -1)}
var c09Times = []int64{1600000000123, 0, -1500, 1, 9223372036854775, 1599999999999}

func boundsC09(q bool) string {
	return fmt.Sprintf("every vector of <=%d samples and matrix of <=2 series over %d label sets x %d values x %d timestamps (length 3: strided values), scalars, strings, 15 commonly used label names, vectors, matrices, series and metrics of every size up to %d and up to %d, every list of <=%d of 6 warnings, texts of up to %d bytes and with each of 384 characters, nil and errored results, x 4 formats x colour on/off x terminal colouring on/off", map[bool]int{true: 2, false: 3}[q], len(c09Labels), len(c09Values), len(c09Times), map[bool]int{true: 12, false: 40}[q], map[bool]int{true: 257, false: 1025}[q], map[bool]int{true: 3, false: 4}[q], map[bool]int{true: 4097, false: 70000}[q])
}

func runC09(h *vh.H) {
	one := func(name string, mk func() *promql.Result) {
		h.Case(func() string { return name }, func(c *vh.C) { caseC09(c, mk) })
	}
	nl, nv, nt := len(c09Labels), len(c09Values), len(c09Times)
	pt := func(v, t int) promql.Point { return promql.Point{T: c09Times[t%nt], V: c09Values[v%nv]} }
	one("empty vector", func() *promql.Result { return &promql.Result{Value: promql.Vector{}} })
	one("nil vector", func() *promql.Result { return &promql.Result{Value: promql.Vector(nil)} })
	one("empty matrix", func() *promql.Result { return &promql.Result{Value: promql.Matrix{}} })
	one("nothing", func() *promql.Result { return &promql.Result{} })
	one("error", func() *promql.Result { return &promql.Result{Err: errors.New("boom"), Value: promql.Vector{}} })
	one("error nil value", func() *promql.Result { return &promql.Result{Err: errors.New("boom")} })
	for v := 0; v < nv; v++ {
		for t := 0; t < nt; t++ {
			v, t := v, t
			one(fmt.Sprintf("scalar %v@%d", c09Values[v], c09Times[t]), func() *promql.Result {
				return &promql.Result{Value: promql.Scalar{T: c09Times[t], V: c09Values[v]}}
			})
			for l := 0; l < nl; l++ {
				l := l
				one(fmt.Sprintf("vector %s %v@%d", c09Labels[l], c09Values[v], c09Times[t]), func() *promql.Result {
					return &promql.Result{Value: promql.Vector{{Metric: c09Labels[l], Point: pt(v, t)}}}
				})
			}
		}
	}
	for t := 0; t < nt; t++ {
		for i, s := range []string{"", "x", "q\"\\\n", "é世<&>", "1", "true", "~", "- a", "%d", "\x00"} {
			t, s := t, s
			one(fmt.Sprintf("string #%d@%d", i, c09Times[t]), func() *promql.Result {
				return &promql.Result{Value: promql.String{T: c09Times[t], V: s}}
			})
		}
	}
	// two and more samples: order, independence
	vh.Product([]int{nl, nl, nv, nv}, func(ix []int) {
		a, b, v, w := ix[0], ix[1], ix[2], ix[3]
		one(fmt.Sprintf("vector2 %s %v, %s %v", c09Labels[a], c09Values[v], c09Labels[b], c09Values[w]), func() *promql.Result {
			return &promql.Result{Value: promql.Vector{{Metric: c09Labels[a], Point: pt(v, a+w)}, {Metric: c09Labels[b], Point: pt(w, b+v)}}}
		})
		one(fmt.Sprintf("matrix2 %s %v, %s %v", c09Labels[a], c09Values[v], c09Labels[b], c09Values[w]), func() *promql.Result {
			return &promql.Result{Value: promql.Matrix{
				{Metric: c09Labels[a], Points: []promql.Point{pt(v, a), pt(w, a+1), pt(v+w, b)}},
				{Metric: c09Labels[b], Points: []promql.Point{pt(w, b)}}}}
		})
	})
	// label names that are special elsewhere but not here
	for _, n := range []string{"instance", "job", "le", "quantile", "code", "__address__", "__tmp", "name", "value", "timestamp", "Metric", "Point", "T", "V", "a"} {
		for _, ls := range []labels.Labels{labels.FromStrings(n, "1"), labels.FromStrings("__name__", "m", n, "x"), labels.FromStrings("__name__", "m", "a", "1", n, "y", "zz", "2")} {
			one("vector "+ls.String(), func() *promql.Result {
				return &promql.Result{Value: promql.Vector{{Metric: ls, Point: pt(0, 0)}, {Metric: labels.FromStrings("b", "2"), Point: pt(1, 1)}, {Metric: ls, Point: pt(2, 0)}}}
			})
			one("matrix "+ls.String(), func() *promql.Result {
				return &promql.Result{Value: promql.Matrix{{Metric: ls, Points: []promql.Point{pt(0, 0), pt(1, 1)}}}}
			})
		}
	}
	// more of everything
	for _, n := range sizes(h.Pick(12, 40), h.Pick(257, 1025)) {
		one(fmt.Sprintf("vector of %d", n), func() *promql.Result {
			v := promql.Vector{}
			for i := 0; i < n; i++ {
				v = append(v, promql.Sample{Metric: manyLabels(n - i), Point: pt(i, i/2)})
			}
			return &promql.Result{Value: v}
		})
		one(fmt.Sprintf("matrix of %d series", n), func() *promql.Result {
			v := promql.Matrix{}
			for i := 0; i < n; i++ {
				v = append(v, promql.Series{Metric: manyLabels(n - i), Points: []promql.Point{pt(i, 0), pt(i+1, 1)}[:1+i%2]})
			}
			return &promql.Result{Value: v}
		})
		one(fmt.Sprintf("matrix of %d points", n), func() *promql.Result {
			s := promql.Series{Metric: c09Labels[0]}
			for i := 0; i < n; i++ {
				s.Points = append(s.Points, promql.Point{T: int64(i), V: c09Values[i%nv]})
			}
			return &promql.Result{Value: promql.Matrix{s}}
		})
		one(fmt.Sprintf("metric of %d labels", n), func() *promql.Result {
			m := map[string]string{"__name__": "m"}
			for i := 0; i < n; i++ {
				m[fmt.Sprint("l", i)] = fmt.Sprint(n - i)
			}
			return &promql.Result{Value: promql.Vector{{Metric: labels.FromMap(m), Point: pt(0, 0)}}}
		})
	}
	texts := []string{"w1", "100%d %s%%%", "two\nlines", "", "trailing \n", "é世<&>\x1b[31m"}
	vh.Seqs(len(texts), 0, h.Pick(3, 4), func(ix []int) {
		ix = append([]int(nil), ix...)
		ws := storage.Warnings{}
		for _, i := range ix {
			ws = append(ws, errors.New(texts[i]))
		}
		for j, v := range []parser.Value{promql.Vector{}, promql.Vector{{Metric: c09Labels[0], Point: pt(0, 0)}}, promql.Matrix{}, promql.Scalar{T: 1, V: 2}, promql.String{T: 1, V: "s"}} {
			for _, err := range []error{nil, errors.New("boom")} {
				if len(ix) == 3 && (j > 1 || err != nil) || len(ix) == 4 && (j != 1 || err != nil) {
					continue // long lists with two kinds of value only
				}
				one(fmt.Sprintf("warnings %v value #%d err=%v", ix, j, err), func() *promql.Result {
					return &promql.Result{Value: v, Warnings: ws, Err: err}
				})
			}
		}
	})
	// texts of every length, and with every character
	long := func(what, s string) {
		one("string "+what, func() *promql.Result { return &promql.Result{Value: promql.String{T: 1, V: s}} })
		one("label "+what, func() *promql.Result {
			return &promql.Result{Value: promql.Vector{{Metric: labels.FromStrings("__name__", "m", "a", s), Point: pt(0, 0)}}}
		})
		one("series label "+what, func() *promql.Result {
			return &promql.Result{Value: promql.Matrix{{Metric: labels.FromStrings("__name__", "m", "a", s), Points: []promql.Point{pt(0, 0)}}}}
		})
		one("warning "+what, func() *promql.Result {
			return &promql.Result{Value: promql.Vector{}, Warnings: storage.Warnings{errors.New(s)}}
		})
	}
	for _, n := range sizes(40, h.Pick(4097, 70000)) {
		long(fmt.Sprintf("of %d bytes", n), strings.Repeat("abcdefghij", n/10+1)[:n])
		if n <= h.Pick(300, 4097) {
			long(fmt.Sprintf("of %d words", n), strings.Repeat("ab ", n))
		}
	}
	for _, t := range []string{`\u003c`, `\n`, `\\`, `\"`, `\x1b[31m`, "null", "0x1f", "1_000", "0o7", "~", "yes", "off", "2020-01-01", "1:30", "? x", ": x", "- x", "&a", "*a", "!t", "|", "> x", "@x", "`x", "# x", "x #y", "x: y", "{x}", "[x]", "'x'", "%x", "<<", "=", ".inf", ".nan", "+1", "--- x", "...", "  x", "x  ", "\tx", "x\n", "\n\nx", "x\n y\n  z\n", "\r\n"} {
		long(fmt.Sprintf("%q", t), t)
	}
	for r := rune(0); r < 0x180; r++ {
		long(fmt.Sprintf("with %U", r), "x"+string(r)+"y")
		long(fmt.Sprintf("starting with %U", r), string(r)+" y")
		long(fmt.Sprintf("ending with %U", r), "x"+string(r))
	}
	if !h.Quick() {
		vh.Product([]int{nl, nl, nl, nv, 3}, func(ix []int) {
			a, b, d, v, t := ix[0], ix[1], ix[2], ix[3], ix[4]
			one(fmt.Sprintf("vector3 %v", ix), func() *promql.Result {
				return &promql.Result{Value: promql.Vector{{Metric: c09Labels[a], Point: pt(v, t)}, {Metric: c09Labels[b], Point: pt(v+1, t+1)}, {Metric: c09Labels[d], Point: pt(v+3, t)}}}
			})
		})
	}
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func decode(c *vh.C, what, s string) interface{} {
	var v interface{}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		c.Failf("%s is not JSON: %v\n%q", what, err, s)
	}
	return v
}

func caseC09(c *vh.C, mk func() *promql.Result) {
	res := mk()
	before := resultStrOrdered(res)
	wantErr := res.Err
	c.State(before)
	for _, format := range []string{"json", "yaml", "prometheus", "bogus", "", "JSON"} {
		for _, colorized := range []bool{false, true} {
			for _, noColor := range []bool{true, false} {
				color.NoColor = noColor
				var out *string
				var err error
				printed := stdout(c, res.Warnings != nil, func() { out, err = prom.ToPrettyFormat(res, format, colorized) })
				c.Trans(1)
				c.Trace()
				what := fmt.Sprintf("format %q colorized=%v", format, colorized)
				if format == "bogus" || format == "" || format == "JSON" {
					if err == nil || out != nil {
						c.Failf("%s: unknown format accepted: %v %v", what, out, err)
					}
					continue
				}
				if wantErr != nil {
					if err == nil || out != nil {
						c.Failf("%s: errored result gives %v, %v", what, out, err)
					}
					continue
				}
				if err != nil || out == nil {
					c.Failf("%s: %v", what, err)
				}
				c.StateHash(vh.Hash(*out))
				for _, w := range res.Warnings {
					line := w.Error() + "\n"
					if !strings.HasPrefix(printed, line) {
						c.Failf("%s: prints %q for the warnings %q", what, printed, res.Warnings)
					}
					printed = printed[len(line):]
				}
				if printed != "" {
					c.Failf("%s: prints also %q", what, printed)
				}
				switch format {
				case "json":
					s := *out
					if colorized {
						s = ansi.ReplaceAllString(s, "")
					} else if strings.Contains(s, "\x1b") {
						c.Failf("%s: colour codes in uncoloured output", what)
					}
					b, err := json.Marshal(res.Value)
					if err != nil {
						c.Failf("marshal: %v", err)
					}
					g, w := decode(c, what, s), decode(c, "reference", string(b))
					if !reflect.DeepEqual(g, w) {
						c.Failf("%s: got %s\nwant %s", what, s, b)
					}
				case "yaml":
					checkYaml(c, what, *out, res.Value)
				case "prometheus":
					checkPrometheus(c, what, *out, res)
				}
				if after := resultStrOrdered(res); after != before {
					c.Failf("%s: formatting changed the result from %s to %s", what, before, after)
				}
			}
		}
	}
	color.NoColor = true
	c.Outcome(before)
}

// stdout returns what f prints, if that's wanted.
func stdout(c *vh.C, wanted bool, f func()) string {
	if !wanted {
		f()
		return ""
	}
	t, err := os.CreateTemp("", "c09")
	if err != nil {
		c.Die("%v", err)
	}
	defer os.Remove(t.Name())
	defer t.Close()
	was := os.Stdout
	os.Stdout = t
	defer func() { os.Stdout = was }()
	f()
	b, err := os.ReadFile(t.Name())
	if err != nil {
		c.Die("%v", err)
	}
	return string(b)
}

func resultStrOrdered(r *promql.Result) string {
	switch v := r.Value.(type) {
	case promql.Vector:
		s := "v"
		for _, x := range v {
			s += fmt.Sprintf(";%s %x %d", x.Metric, math.Float64bits(x.V), x.T)
		}
		return s
	}
	return resultStr(r)
}

func sameF(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func checkYaml(c *vh.C, what, out string, v parser.Value) {
	type point struct {
		T int64
		V float64
	}
	fail := func(err error) { c.Failf("%s: cannot read back: %v\n%s", what, err, out) }
	lblsEq := func(m map[string]string, l labels.Labels) bool {
		return reflect.DeepEqual(m, l.Map()) || len(m) == 0 && len(l) == 0
	}
	switch v := v.(type) {
	case promql.Vector:
		var got []struct {
			Point  point
			Metric map[string]string
		}
		if err := yaml.Unmarshal([]byte(out), &got); err != nil {
			fail(err)
		}
		if len(got) != len(v) {
			c.Failf("%s: %d samples, want %d\n%s", what, len(got), len(v), out)
		}
		for i := range got {
			if got[i].Point.T != v[i].T || !sameF(got[i].Point.V, v[i].V) || !lblsEq(got[i].Metric, v[i].Metric) {
				c.Failf("%s: sample %d is %v, want %v\n%s", what, i, got[i], v[i], out)
			}
		}
	case promql.Matrix:
		var got []struct {
			Metric map[string]string
			Points []point
		}
		if err := yaml.Unmarshal([]byte(out), &got); err != nil {
			fail(err)
		}
		if len(got) != len(v) {
			c.Failf("%s: %d series, want %d\n%s", what, len(got), len(v), out)
		}
		for i := range got {
			ok := len(got[i].Points) == len(v[i].Points) && lblsEq(got[i].Metric, v[i].Metric)
			for j := range got[i].Points {
				ok = ok && got[i].Points[j].T == v[i].Points[j].T && sameF(got[i].Points[j].V, v[i].Points[j].V)
			}
			if !ok {
				c.Failf("%s: series %d is %v, want %v\n%s", what, i, got[i], v[i], out)
			}
		}
	case promql.Scalar:
		var got point
		if err := yaml.Unmarshal([]byte(out), &got); err != nil {
			fail(err)
		}
		if got.T != v.T || !sameF(got.V, v.V) {
			c.Failf("%s: %v want %v", what, got, v)
		}
	case promql.String:
		var got struct {
			T int64
			V string
		}
		if err := yaml.Unmarshal([]byte(out), &got); err != nil {
			fail(err)
		}
		if got.T != v.T || got.V != v.V {
			c.Failf("%s: %v want %v", what, got, v)
		}
	}
}

func checkPrometheus(c *vh.C, what, out string, res *promql.Result) {
	v, ok := res.Value.(promql.Vector)
	if !ok {
		if out != res.String() {
			c.Failf("%s: %q want %q", what, out, res.String())
		}
		return
	}
	var lines []string
	for _, s := range v {
		var ls []string
		name := ""
		for _, l := range s.Metric {
			if l.Name == "__name__" {
				name = l.Value
			} else {
				ls = append(ls, l.Name+"="+strconv.Quote(l.Value))
			}
		}
		lines = append(lines, fmt.Sprintf("%s{%s} => %s @[%d]", name, strings.Join(ls, ", "), strconv.FormatFloat(s.V, 'f', -1, 64), s.T))
	}
	if want := strings.Join(lines, "\n"); out != want {
		c.Failf("%s: got\n%s\nwant\n%s", what, out, want)
	}
}
