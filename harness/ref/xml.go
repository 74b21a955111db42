package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// XMLNode is an element of a document.
type XMLNode struct {
	Space, Name string
	Attr        map[string]string // by "namespace local" or "local"
	Kids        []*XMLNode
	Text        string // all its character data
}

type xmlParser struct {
	s string
	i int
}

// ParseXML strictly parses a UTF-8 document, as XML 1.0 and Namespaces in XML prescribe.
func ParseXML(b []byte) (root *XMLNode, err error) {
	if !utf8.Valid(b) {
		return nil, fmt.Errorf("not UTF-8")
	}
	s := strings.TrimPrefix(string(b), "\ufeff")
	for i, c := range s {
		if !xmlChar(c) {
			return nil, fmt.Errorf("invalid character %U at %d", c, i)
		}
	}
	s = strings.Replace(strings.Replace(s, "\r\n", "\n", -1), "\r", "\n", -1)
	p := &xmlParser{s: s}
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(xmlErr); ok {
				root, err = nil, fmt.Errorf("%s at %d", string(e), p.i)
				return
			}
			panic(x)
		}
	}()
	if strings.HasPrefix(p.s, "<?xml ") {
		j := strings.Index(p.s, "?>")
		if j < 0 {
			p.fail("unterminated declaration")
		}
		p.i = j + 2
	}
	p.misc()
	root = p.element(map[string]string{"": "", "xml": "http://www.w3.org/XML/1998/namespace"})
	p.misc()
	if p.i < len(p.s) {
		p.fail("content after the root element")
	}
	return root, nil
}

func xmlChar(c rune) bool {
	return c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000
}

type xmlErr string

func (p *xmlParser) fail(f string, a ...interface{}) { panic(xmlErr(fmt.Sprintf(f, a...))) }

func (p *xmlParser) has(s string) bool { return strings.HasPrefix(p.s[p.i:], s) }

func (p *xmlParser) space() bool {
	j := p.i
	for p.i < len(p.s) && strings.IndexByte(" \t\n", p.s[p.i]) >= 0 {
		p.i++
	}
	return p.i > j
}

func (p *xmlParser) until(s string) string {
	j := strings.Index(p.s[p.i:], s)
	if j < 0 {
		p.fail("%q expected", s)
	}
	t := p.s[p.i : p.i+j]
	p.i += j + len(s)
	return t
}

func (p *xmlParser) misc() {
	for {
		p.space()
		switch {
		case p.has("<!--"):
			p.i += 4
			if t := p.until("-->"); strings.Contains(t, "--") || strings.HasSuffix(t, "-") {
				p.fail("invalid comment")
			}
		case p.has("<?"):
			p.i += 2
			p.until("?>")
		default:
			return
		}
	}
}

func (p *xmlParser) name() string {
	j := p.i
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == ':' || c >= 0x80 || p.i > j && (c >= '0' && c <= '9' || c == '-' || c == '.') {
			p.i++
			continue
		}
		break
	}
	if p.i == j {
		p.fail("name expected")
	}
	return p.s[j:p.i]
}

func (p *xmlParser) reference() string {
	p.i++
	n := p.until(";")
	switch n {
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "amp":
		return "&"
	case "quot":
		return "\""
	case "apos":
		return "'"
	}
	base := 10
	if !strings.HasPrefix(n, "#") {
		p.fail("unknown entity %q", n)
	}
	n = n[1:]
	if strings.HasPrefix(n, "x") {
		base, n = 16, n[1:]
	}
	x, err := strconv.ParseUint(n, base, 32)
	if err != nil || !xmlChar(rune(x)) || x > 0x10FFFF {
		p.fail("invalid character reference %q", n)
	}
	return string(rune(x))
}

func (p *xmlParser) element(ns map[string]string) *XMLNode {
	if !p.has("<") {
		p.fail("element expected")
	}
	p.i++
	qname := p.name()
	type attr struct{ name, value string }
	var attrs []attr
	empty := false
	for {
		sp := p.space()
		if p.has("/>") {
			p.i += 2
			empty = true
			break
		}
		if p.has(">") {
			p.i++
			break
		}
		if !sp {
			p.fail("space expected")
		}
		a := attr{name: p.name()}
		p.space()
		if !p.has("=") {
			p.fail("= expected")
		}
		p.i++
		p.space()
		if !p.has("\"") && !p.has("'") {
			p.fail("quote expected")
		}
		q := p.s[p.i]
		p.i++
		for {
			if p.i >= len(p.s) || p.s[p.i] == '<' {
				p.fail("unterminated attribute")
			}
			c := p.s[p.i]
			if c == q {
				p.i++
				break
			}
			if c == '&' {
				a.value += p.reference()
				continue
			}
			if c == '\n' || c == '\t' {
				c = ' '
			}
			a.value += string([]byte{c})
			p.i++
		}
		for _, b := range attrs {
			if b.name == a.name {
				p.fail("duplicate attribute %s", a.name)
			}
		}
		attrs = append(attrs, a)
	}
	local := map[string]string{}
	for k, v := range ns {
		local[k] = v
	}
	for _, a := range attrs {
		if a.name == "xmlns" {
			local[""] = a.value
		} else if strings.HasPrefix(a.name, "xmlns:") {
			local[a.name[6:]] = a.value
		}
	}
	resolve := func(n string, def bool) (string, string) {
		if j := strings.IndexByte(n, ':'); j >= 0 {
			u, ok := local[n[:j]]
			if !ok {
				p.fail("unknown prefix in %s", n)
			}
			return u, n[j+1:]
		}
		if def {
			return local[""], n
		}
		return "", n
	}
	x := &XMLNode{Attr: map[string]string{}}
	x.Space, x.Name = resolve(qname, true)
	for _, a := range attrs {
		if a.name == "xmlns" || strings.HasPrefix(a.name, "xmlns:") {
			continue
		}
		u, n := resolve(a.name, false)
		if u != "" {
			n = u + " " + n
		}
		x.Attr[n] = a.value
	}
	if empty {
		return x
	}
	for {
		if p.i >= len(p.s) {
			p.fail("%s is not closed", qname)
		}
		switch {
		case p.has("</"):
			p.i += 2
			if n := p.name(); n != qname {
				p.fail("%s closed by %s", qname, n)
			}
			p.space()
			if !p.has(">") {
				p.fail("> expected")
			}
			p.i++
			return x
		case p.has("<!--"):
			p.misc0()
		case p.has("<![CDATA["):
			p.i += 9
			x.Text += p.until("]]>")
		case p.has("<?"):
			p.i += 2
			p.until("?>")
		case p.has("<"):
			x.Kids = append(x.Kids, p.element(local))
		case p.has("&"):
			x.Text += p.reference()
		case p.has("]]>"):
			p.fail("]]> in text")
		default:
			x.Text += p.s[p.i : p.i+1]
			p.i++
		}
	}
}

func (p *xmlParser) misc0() {
	p.i += 4
	if t := p.until("-->"); strings.Contains(t, "--") || strings.HasSuffix(t, "-") {
		p.fail("invalid comment")
	}
}

// Canon describes an element, ignoring the order of its attributes and children, and the blank text around children.
func (x *XMLNode) Canon() string {
	var at, kids []string
	for k, v := range x.Attr {
		at = append(at, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(at)
	for _, k := range x.Kids {
		kids = append(kids, k.Canon())
	}
	sort.Strings(kids)
	t := x.Text
	if len(kids) > 0 && strings.Trim(t, " \t\n\r") == "" {
		t = ""
	}
	return fmt.Sprintf("<{%s}%s %s>%q%s", x.Space, x.Name, strings.Join(at, " "), t, strings.Join(kids, "")) + "</>"
}
