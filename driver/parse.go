package main

import (
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// A reader for the printed form, with the usual rules: sums of signed
// products of numbers and variables with optional powers; brackets and commas
// for arrays, row by row.  Text up to an "=" before the first bracket names
// the kind and is skipped.  The result is the same projection as for values:
// ok flag, rows, columns, entries as lists of terms.

type parsed struct {
	OK int             `json:"ok"`
	R  int             `json:"r"`
	C  int             `json:"c"`
	E  [][]interface{} `json:"e"`
}

type parser struct {
	s     string
	i     int
	names []string // longest first
	slot  map[string]int
	dup   map[string]bool
}

func (m *Machine) newParser(s string) *parser {
	p := &parser{s: s, slot: map[string]int{}}
	for i, v := range m.Vars {
		if _, ok := p.slot[v.Name]; !ok {
			p.slot[v.Name] = i + 1
			p.names = append(p.names, v.Name)
		}
	}
	sort.Slice(p.names, func(a, b int) bool { return len(p.names[a]) > len(p.names[b]) })
	return p
}

func (p *parser) ws() {
	for p.i < len(p.s) && unicode.IsSpace(rune(p.s[p.i])) {
		p.i++
	}
}

func (p *parser) number() (float64, bool) {
	j := p.i
	for j < len(p.s) && (p.s[j] >= '0' && p.s[j] <= '9' || p.s[j] == '.') {
		j++
	}
	if j == p.i {
		return 0, false
	}
	// exponent part
	if j < len(p.s) && (p.s[j] == 'e' || p.s[j] == 'E') {
		k := j + 1
		if k < len(p.s) && (p.s[k] == '+' || p.s[k] == '-') {
			k++
		}
		if k < len(p.s) && p.s[k] >= '0' && p.s[k] <= '9' {
			for k < len(p.s) && p.s[k] >= '0' && p.s[k] <= '9' {
				k++
			}
			j = k
		}
	}
	f, err := strconv.ParseFloat(p.s[p.i:j], 64)
	if err != nil {
		return 0, false
	}
	p.i = j
	return f, true
}

func (p *parser) name() (int, bool) {
	for _, n := range p.names {
		if n != "" && strings.HasPrefix(p.s[p.i:], n) {
			p.i += len(n)
			return p.slot[n], true
		}
	}
	return 0, false
}

// term: signs, then one or more factors
func (p *parser) term() ([]interface{}, bool) {
	coef := 1.0
	e := make([]int, NS)
	for {
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '-' {
			coef = -coef
			p.i++
			continue
		}
		if p.i < len(p.s) && p.s[p.i] == '+' {
			p.i++
			continue
		}
		break
	}
	n := 0
	for {
		p.ws()
		if n > 0 && p.i < len(p.s) && p.s[p.i] == '*' {
			p.i++
			p.ws()
		}
		if v, ok := p.name(); ok {
			x := 1
			p.ws()
			if strings.HasPrefix(p.s[p.i:], "**") {
				p.i++
				p.s = p.s[:p.i] + "^" + p.s[p.i+1:]
			}
			if p.i < len(p.s) && p.s[p.i] == '^' {
				p.i++
				j := p.i
				for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
					j++
				}
				y, err := strconv.Atoi(p.s[p.i:j])
				if err != nil {
					return nil, false
				}
				x = y
				p.i = j
			}
			e[v-1] += x
			n++
			continue
		}
		if f, ok := p.number(); ok {
			coef *= f
			n++
			continue
		}
		break
	}
	if n == 0 {
		return nil, false
	}
	d := dyadic(coef)
	if d[1] < 0 {
		return nil, false
	}
	return coefTerm(d, e), true
}

func (p *parser) sum() ([]interface{}, bool) {
	out := []interface{}{}
	for {
		t, ok := p.term()
		if !ok {
			return nil, false
		}
		out = append(out, t)
		p.ws()
		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			continue
		}
		return out, true
	}
}

func (p *parser) row() ([][]interface{}, bool) {
	p.ws()
	if p.i >= len(p.s) || p.s[p.i] != '[' {
		return nil, false
	}
	p.i++
	out := [][]interface{}{}
	for {
		s, ok := p.sum()
		if !ok {
			return nil, false
		}
		out = append(out, s)
		p.ws()
		if p.i < len(p.s) && (p.s[p.i] == ',' || p.s[p.i] == ';') {
			p.i++
			continue
		}
		if p.i < len(p.s) && p.s[p.i] == ']' {
			p.i++
			return out, true
		}
		if p.i >= len(p.s) {
			return nil, false
		}
	}
}

func (m *Machine) parseExpr(s string) parsed {
	bad := parsed{E: [][]interface{}{}}
	if b := strings.IndexByte(s, '['); b >= 0 {
		if q := strings.IndexByte(s[:b], '='); q >= 0 {
			s = s[b:]
		}
	}
	p := m.newParser(s)
	p.ws()
	var out parsed
	out.E = [][]interface{}{}
	if p.i < len(p.s) && p.s[p.i] == '[' {
		save := p.i
		p.i++
		p.ws()
		if p.i < len(p.s) && p.s[p.i] == '[' {
			// matrix
			for {
				r, ok := p.row()
				if !ok {
					return bad
				}
				if out.R > 0 && len(r) != out.C {
					return bad
				}
				out.R++
				out.C = len(r)
				out.E = append(out.E, r...)
				p.ws()
				if p.i < len(p.s) && (p.s[p.i] == ',' || p.s[p.i] == ';') {
					p.i++
					p.ws()
					continue
				}
				if p.i < len(p.s) && p.s[p.i] == ']' {
					p.i++
					break
				}
				if p.i < len(p.s) && p.s[p.i] == '[' {
					continue
				}
				return bad
			}
		} else {
			p.i = save
			r, ok := p.row()
			if !ok {
				return bad
			}
			out.R, out.C, out.E = len(r), 1, r
		}
	} else {
		t, ok := p.sum()
		if !ok {
			return bad
		}
		out.R, out.C, out.E = 1, 1, [][]interface{}{t}
	}
	p.ws()
	// an optional transpose mark or trailing punctuation is not part of the value
	if p.i != len(p.s) {
		return bad
	}
	out.OK = 1
	return out
}

func (m *Machine) parseConstraint(s string) interface{} {
	for _, c := range []struct{ t, k string }{{"<=", "le"}, {">=", "ge"}, {"==", "eq"}, {"=", "eq"}} {
		if i := strings.Index(s, c.t); i >= 0 {
			return []interface{}{m.parseExpr(s[:i]), c.k, m.parseExpr(s[i+len(c.t):])}
		}
	}
	return []interface{}{parsed{E: [][]interface{}{}}, "?", parsed{E: [][]interface{}{}}}
}
