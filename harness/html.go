package vh

import (
	"html"
	"strings"
)

// node is an element of an HTML page (tag != "") or a text.
type node struct {
	tag  string
	attr map[string]string
	text string
	kids []*node
}

var voidTags = map[string]bool{"input": true, "br": true, "wbr": true, "link": true, "meta": true, "img": true, "hr": true}

// parseHTML is a simple parser, sufficient for well-formed pages.
func parseHTML(s string) *node {
	root := &node{tag: "#root"}
	stack := []*node{root}
	top := func() *node { return stack[len(stack)-1] }
	for len(s) > 0 {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			i = len(s)
		}
		if i > 0 {
			top().kids = append(top().kids, &node{text: html.UnescapeString(s[:i])})
			s = s[i:]
			continue
		}
		switch {
		case strings.HasPrefix(s, "<!--"):
			j := strings.Index(s, "-->")
			if j < 0 {
				return root
			}
			s = s[j+3:]
			continue
		case strings.HasPrefix(s, "<!"):
			j := strings.IndexByte(s, '>')
			if j < 0 {
				return root
			}
			s = s[j+1:]
			continue
		case strings.HasPrefix(s, "</"):
			j := strings.IndexByte(s, '>')
			if j < 0 {
				return root
			}
			name := strings.ToLower(strings.TrimSpace(s[2:j]))
			s = s[j+1:]
			for k := len(stack) - 1; k > 0; k-- {
				if stack[k].tag == name {
					stack = stack[:k]
					break
				}
			}
			continue
		}
		if len(s) < 2 || !(s[1] >= 'a' && s[1] <= 'z' || s[1] >= 'A' && s[1] <= 'Z') {
			top().kids = append(top().kids, &node{text: "<"})
			s = s[1:]
			continue
		}
		n, rest, closed := parseTag(s)
		s = rest
		top().kids = append(top().kids, n)
		if closed || voidTags[n.tag] {
			continue
		}
		if n.tag == "script" || n.tag == "style" {
			j := strings.Index(strings.ToLower(s), "</"+n.tag)
			if j < 0 {
				return root
			}
			n.kids = append(n.kids, &node{text: s[:j]})
			s = s[j:]
			if k := strings.IndexByte(s, '>'); k >= 0 {
				s = s[k+1:]
			}
			continue
		}
		stack = append(stack, n)
	}
	return root
}

func parseTag(s string) (n *node, rest string, closed bool) {
	n = &node{attr: map[string]string{}}
	i := 1
	isName := func(c byte) bool {
		return c != ' ' && c != '\t' && c != '\n' && c != '\r' && c != '>' && c != '/' && c != '='
	}
	for i < len(s) && isName(s[i]) {
		i++
	}
	n.tag = strings.ToLower(s[1:i])
	for i < len(s) {
		c := s[i]
		switch {
		case c == '>':
			return n, s[i+1:], closed
		case c == '/':
			closed = true
			i++
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '=':
			i++
		default:
			closed = false
			j := i
			for j < len(s) && isName(s[j]) {
				j++
			}
			name := strings.ToLower(s[i:j])
			val := ""
			i = j
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
				i++
			}
			if i < len(s) && s[i] == '=' {
				i++
				if i < len(s) && (s[i] == '"' || s[i] == '\'') {
					q := s[i]
					k := strings.IndexByte(s[i+1:], q)
					if k < 0 {
						return n, "", true
					}
					val = s[i+1 : i+1+k]
					i += k + 2
				} else {
					k := i
					for k < len(s) && s[k] != ' ' && s[k] != '>' && s[k] != '\n' && s[k] != '\t' {
						k++
					}
					val = s[i:k]
					i = k
				}
			}
			n.attr[name] = html.UnescapeString(val)
		}
	}
	return n, "", true
}

func (n *node) hasClass(c string) bool {
	for _, x := range strings.Fields(n.attr["class"]) {
		if x == c {
			return true
		}
	}
	return false
}

// find returns the outermost nodes with the property.
func (n *node) find(ok func(*node) bool) []*node {
	var res []*node
	for _, k := range n.kids {
		if k.tag != "" && ok(k) {
			res = append(res, k)
		} else {
			res = append(res, k.find(ok)...)
		}
	}
	return res
}

func (n *node) txt() string {
	if n.tag == "" {
		return n.text
	}
	var b strings.Builder
	for _, k := range n.kids {
		b.WriteString(k.txt())
	}
	return b.String()
}
