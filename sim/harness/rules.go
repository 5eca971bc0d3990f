package harness

import (
	"fmt"
	"strings"

	"vsim/rt"
)

// The rule language as data. Plans hold rules in this form; the daemon gets
// the rendered text, the reference model evaluates the structure. Nothing
// here reads the daemon's own lexer or parser.

// Expr is a match expression.
type Expr struct {
	Op   string   `json:"op"` // and or not all from to helo ehlo host source ip dnsbl dbl tls from-has to-has helo-has dns
	Arg  string   `json:"arg,omitempty"`
	Opts []string `json:"opts,omitempty"`
	Kids []*Expr  `json:"kids,omitempty"`
}

// With is one with option.
type With struct {
	K string `json:"k"`
	V string `json:"v,omitempty"`
}

// Clause is one clause of a (possibly compact) rule.
type Clause struct {
	E *Expr  `json:"e"`
	W []With `json:"w,omitempty"`
}

// Rule is one rule.
type Rule struct {
	Phase string   `json:"phase,omitempty"` // connect helo from to data message
	Act   string   `json:"act"`             // accept reject stall set-with
	Cl    []Clause `json:"cl"`
}

// Item is a rule or an include.
type Item struct {
	R   *Rule  `json:"r,omitempty"`
	Inc string `json:"inc,omitempty"`
}

// RFile is a rules file.
type RFile struct {
	Items  []Item `json:"items,omitempty"`
	Broken string `json:"broken,omitempty"` // raw text that does not parse, appended
	Style  uint64 `json:"style,omitempty"`  // seed of the layout
	Pad    int    `json:"pad,omitempty"`    // empty lines at the end
}

type printer struct {
	r     *rt.Rng
	plain bool
}

func (p *printer) pc(n int) bool { return !p.plain && p.r.P(n) }

func (p *printer) sp() string {
	if p.plain {
		return " "
	}
	switch p.r.N(12) {
	case 0:
		return "  "
	case 1:
		return "\t"
	case 2:
		return " \\\n\t"
	case 3:
		return " \\\n"
	}
	return " "
}

func quote(s string) string {
	s = strings.ReplaceAll(s, "\\", "\\\\")
	s = strings.ReplaceAll(s, "\"", "\\\"")
	return "\"" + s + "\""
}

func needQuote(s string) bool {
	return s == "" || strings.ContainsAny(s, "(),; \t\n\"\\")
}

// arg renders a value that may be quoted.
func (p *printer) arg(s string, canQuote bool) string {
	if needQuote(s) || (canQuote && p.pc(20)) {
		return quote(s)
	}
	return s
}

func (p *printer) expr(e *Expr, term bool) string {
	switch e.Op {
	case "and":
		var l []string
		for _, k := range e.Kids {
			l = append(l, p.expr(k, false))
		}
		s := strings.Join(l, p.sp())
		if term {
			return p.paren(s)
		}
		return s
	case "or":
		var l []string
		for i, k := range e.Kids {
			// or is right-associative and binds tighter than and
			l = append(l, p.expr(k, k.Op == "and" || k.Op == "or" && i < len(e.Kids)-1))
		}
		s := strings.Join(l, p.sp()+"or"+p.sp())
		if term || p.pc(15) {
			return p.paren(s)
		}
		return s
	case "not":
		s := "not" + p.sp() + p.expr(e.Kids[0], true)
		if p.pc(10) {
			return p.paren(s)
		}
		return s
	case "all":
		return "all"
	case "tls":
		return "tls" + p.sp() + e.Arg
	case "ip":
		return "ip" + p.sp() + e.Arg
	case "dnsbl":
		return "dnsbl" + p.sp() + e.Arg
	case "dbl":
		return "dbl" + p.sp() + strings.Join(e.Opts, ",") + p.sp() + e.Arg
	case "from-has", "to-has", "helo-has", "dns":
		return e.Op + p.sp() + strings.Join(e.Opts, ",")
	}
	s := e.Op + p.sp() + p.arg(e.Arg, true)
	if p.pc(8) {
		return p.paren(s)
	}
	return s
}

func (p *printer) paren(s string) string {
	if p.plain || p.r.P(50) {
		return "(" + s + ")"
	}
	return "( " + s + " )"
}

func (p *printer) rule(r *Rule) string {
	var b strings.Builder
	if r.Phase != "" {
		b.WriteString("@" + r.Phase + p.sp())
	}
	b.WriteString(r.Act)
	for i, c := range r.Cl {
		b.WriteString(p.sp())
		e := c.E
		if e.Op == "and" && len(e.Kids) == 1 {
			e = e.Kids[0]
		}
		// two and-lists in a row would merge, but each clause has one
		b.WriteString(p.expr(e, false))
		if len(c.W) > 0 {
			b.WriteString(p.sp() + "with")
			for _, w := range c.W {
				b.WriteString(p.sp() + w.K)
				switch w.K {
				case "message", "note", "savedir":
					b.WriteString(p.sp() + p.arg(w.V, true))
				case "tls-opt":
					b.WriteString(p.sp() + w.V)
				}
			}
		}
		if i < len(r.Cl)-1 {
			if p.pc(50) {
				b.WriteString(" ;")
			} else {
				b.WriteString(";")
			}
			if p.pc(50) {
				b.WriteString("\n\t")
			}
		}
	}
	return b.String()
}

// Text renders the file.
func (f *RFile) Text() string {
	p := &printer{r: rt.NewRng(f.Style), plain: f.Style == 0}
	var b strings.Builder
	for i, it := range f.Items {
		if p.pc(15) {
			b.WriteString("# a comment, with reject all in it\n")
			if p.pc(2) {
				b.WriteString("#" + strings.Repeat(" long", 1500) + "\n")
			}
		}
		if p.pc(10) {
			b.WriteString("\n  \t\n")
		}
		if p.pc(10) {
			b.WriteString("  ")
		}
		if it.R != nil {
			b.WriteString(p.rule(it.R))
		} else {
			b.WriteString("include " + it.Inc)
		}
		if it.R != nil && (i < len(f.Items)-1 || f.Broken != "") && p.pc(4) {
			b.WriteString(" \\\n") // goes on, with nothing
		}
		if i < len(f.Items)-1 || f.Broken != "" || !p.pc(20) {
			b.WriteString("\n")
		}
	}
	if f.Broken == "" && f.Pad == 0 && p.pc(6) && (b.Len() == 0 || strings.HasSuffix(b.String(), "\n")) {
		b.WriteString("# the end; reject all")
	}
	b.WriteString(f.Broken)
	b.WriteString(strings.Repeat("\n", f.Pad))
	return b.String()
}

// phases in order
var phaseNo = map[string]int{"": 0, "connect": 1, "helo": 2, "from": 3, "to": 4, "data": 5, "message": 6}

func (e *Expr) needs() int {
	n := 0
	for _, k := range e.Kids {
		if m := k.needs(); m > n {
			n = m
		}
	}
	m := 0
	switch e.Op {
	case "helo", "ehlo", "helo-has":
		m = 2
	case "from", "from-has", "source", "tls":
		m = 3
	case "to", "to-has":
		m = 4
	case "dbl":
		for _, o := range e.Opts {
			switch o {
			case "from", "any":
				m = 3
			case "helo", "ehlo":
				if m < 2 {
					m = 2
				}
			}
		}
	}
	if m > n {
		n = m
	}
	return n
}

func (r *Rule) needs() int {
	n := 0
	for _, c := range r.Cl {
		if m := c.E.needs(); m > n {
			n = m
		}
	}
	return n
}

func (r *Rule) String() string { return (&printer{plain: true, r: rt.NewRng(1)}).rule(r) }

func (e *Expr) String() string {
	return fmt.Sprint((&printer{plain: true, r: rt.NewRng(1)}).expr(e, false))
}
