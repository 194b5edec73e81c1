package main

import (
	"sort"
	"strings"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
)

// An independent description of the PromQL subset the completion supports: a
// grammar without left recursion, run as a nondeterministic stack automaton.
//
// Upper-case symbols are defined below; everything else is a terminal.
//
// A chain is a sequence of operands joined by binary operators.  A chain is
// scalar if all operands are scalars joined by arithmetic or "cmp bool"; any
// other chain is a vector, and then each stretch between set operators and
// operators with a matching clause needs at least one vector operand.
var rules = map[string][]string{
	"QUERY": {"EXPR eof"},
	"EXPR":  {"SCHAIN", "VCHAIN", "VCHAIN [ dur : SUBQ", "metric SELM", "unary SCHAIN", "unary VCHAIN"},
	"SUBQ":  {"] OFF", "dur ] OFF"},
	"SELM":  {"[ dur ] OFF", "MATCH [ dur ] OFF"},
	"OFF":   {"", "offset dur"},

	"SCHAIN": {"SATOM STAIL"},
	"STAIL":  {"", "STAIL1"},
	"STAIL1": {"arith SATOM STAIL", "cmp bool SATOM STAIL"},
	"SATOM":  {"num", "sfunc ( )", "sfunc ( VCHAIN )", "sfunc ( unary VCHAIN )", "SPAREN"},
	// parentheses only around operations
	"SPAREN": {"( SOP )", "( unary SCHAIN )"},
	"SOP":    {"SATOM STAIL1", "SPAREN"},

	"VCHAIN": {"STRETCH VTAIL"},
	"VTAIL":  {"", "VTAIL1"},
	"VTAIL1": {"set STRETCH VTAIL", "set groupkw LABELS STRETCH VTAIL", "BOP groupkw LABELS SIDE STRETCH VTAIL"},
	"SIDE":   {"", "side", "side LABELS"},
	// at least one vector operand
	"STRETCH":  {"VATOM STRTAIL", "SATOM BOP STRETCH"},
	"STRTAIL":  {"", "STRTAIL1"},
	"STRTAIL1": {"BOP SATOM STRTAIL", "BOP VATOM STRTAIL"},
	"BOP":      {"arith", "cmp", "cmp bool"},
	"VATOM":    {"metric SELV", "vfunc ( ARGS )", "agg ( VCHAIN ) BY", "agg aggkw LABELS ( VCHAIN )", "VPAREN"},
	"SELV":     {"OFF", "MATCH OFF"},
	"BY":       {"", "aggkw LABELS"},
	"ARGS":     {"", "EXPR ARGTAIL"},
	"ARGTAIL":  {"", ", EXPR ARGTAIL"},
	"VPAREN":   {"( VOP )", "( unary VCHAIN )"},
	"VOP":      {"SATOM BOP STRETCH VTAIL", "VATOM STRTAIL1 VTAIL", "VATOM VTAIL1", "VPAREN"},

	"MATCH":   {"{ label lmatch str MATCHES }"},
	"MATCHES": {"", ", label lmatch str MATCHES"},
	"LABELS":  {"( )", "( label LABTAIL )"},
	"LABTAIL": {"", ",", ", label LABTAIL"},
}

// kind of suggestion made for a terminal
var termKind = map[string]earley.TokenType{
	"eof": earley.EOF, "metric": earley.METRIC_ID, "label": earley.METRIC_LABEL_SUBTYPE,
	"num": earley.NUM, "str": earley.STRING, "dur": earley.DURATION,
	"sfunc": earley.FUNCTION_SCALAR_ID, "vfunc": earley.FUNCTION_VECTOR_ID,
	"agg": earley.AGGR_OP, "aggkw": earley.AGGR_KW, "offset": earley.OFFSET_KW, "bool": earley.BOOL_KW,
	"groupkw": earley.GROUP_KW, "side": earley.GROUP_SIDE, "set": earley.SET,
	"arith": earley.ARITHMETIC, "unary": earley.UNARY_OP, "cmp": earley.COMPARISION, "lmatch": earley.LABELMATCH,
	"(": earley.LEFT_PAREN, ")": earley.RIGHT_PAREN, "[": earley.LEFT_BRACKET, "]": earley.RIGHT_BRACKET,
	"{": earley.LEFT_BRACE, "}": earley.RIGHT_BRACE, ",": earley.COMMA, ":": earley.COLON,
}

// terminals a token kind of the lexer can stand for
var tokTerms = map[earley.TokenType][]string{
	earley.ID: {"metric", "label"}, earley.METRIC_ID: {"metric"},
	earley.NUM: {"num"}, earley.STRING: {"str"}, earley.DURATION: {"dur"},
	earley.FUNCTION_SCALAR_ID: {"sfunc", "label"}, earley.FUNCTION_VECTOR_ID: {"vfunc", "label"},
	earley.AGGR_OP: {"agg", "label"}, earley.AGGR_KW: {"aggkw", "label"}, earley.OFFSET_KW: {"offset", "label"},
	earley.BOOL_KW: {"bool", "label"}, earley.GROUP_KW: {"groupkw", "label"}, earley.GROUP_SIDE: {"side", "label"},
	earley.SET: {"set", "label"}, earley.ARITHMETIC: {"arith", "unary"}, earley.OPERATOR: {"cmp", "lmatch"},
	earley.LEFT_PAREN: {"("}, earley.RIGHT_PAREN: {")"}, earley.LEFT_BRACKET: {"["}, earley.RIGHT_BRACKET: {"]"},
	earley.LEFT_BRACE: {"{"}, earley.RIGHT_BRACE: {"}"}, earley.COMMA: {","}, earley.COLON: {":"},
	earley.UNKNOWN: {}, earley.EOF: {"eof"},
}

var tokKinds []earley.TokenType

var altSyms = map[string][][]string{}

func init() {
	for k := range tokTerms {
		tokKinds = append(tokKinds, k)
	}
	sort.Slice(tokKinds, func(i, j int) bool { return tokKinds[i] < tokKinds[j] })
	for n, alts := range rules {
		for _, a := range alts {
			altSyms[n] = append(altSyms[n], strings.Fields(a))
		}
	}
}

// stack is a hash-consed list of symbols still to be matched.
type stack struct {
	sym  string
	next *stack
}

var interned = map[stack]*stack{}

func push(sym string, next *stack) *stack {
	k := stack{sym, next}
	if p, ok := interned[k]; ok {
		return p
	}
	p := &k
	interned[k] = p
	return p
}

// config is the set of stacks, each with a terminal on top.
type config map[*stack]bool

func (c config) add(s *stack) {
	if s == nil {
		return
	}
	alts, nonterm := altSyms[s.sym]
	if !nonterm {
		c[s] = true
		return
	}
	for _, a := range alts {
		t := s.next
		for i := len(a) - 1; i >= 0; i-- {
			t = push(a[i], t)
		}
		c.add(t)
	}
}

func startConfig() config {
	c := config{}
	c.add(push("QUERY", nil))
	return c
}

// terms lists the terminals allowed next.
func (c config) terms() map[string]bool {
	m := map[string]bool{}
	for s := range c {
		m[s.sym] = true
	}
	return m
}

// step consumes one token that can stand for any of the terminals.
func (c config) step(terms ...string) config {
	n := config{}
	for s := range c {
		for _, t := range terms {
			if s.sym == t {
				n.add(s.next)
			}
		}
	}
	return n
}

// kinds lists the token kinds to be suggested, sorted.
func (c config) kinds() []string {
	var l []string
	for t := range c.terms() {
		l = append(l, string(termKind[t]))
	}
	sort.Strings(l)
	return l
}
