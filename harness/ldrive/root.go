package ldrive

import (
	"fmt"
	"sort"
	"strings"

	"github.com/steve-care-software/steve/domain/languages/lexers/roots"
	"github.com/steve-care-software/steve/zz_verif/lref"
	"github.com/steve-care-software/steve/zz_verif/vlib"
)

// WantRoot is the tree that mirrors a derivation.
func WantRoot(n *lref.Node) string {
	names := []string{}
	groups := map[string][]string{}
	contents := map[string]string{}
	for _, i := range n.Items {
		if _, ok := groups[i.Name]; !ok {
			names = append(names, i.Name)
		}
		if i.Rule {
			groups[i.Name] = append(groups[i.Name], fmt.Sprintf("%q", i.Text))
			contents[i.Name] += i.Text
			continue
		}
		for _, x := range i.Nodes {
			groups[i.Name] = append(groups[i.Name], fmt.Sprintf("%q>%s", x.Text, WantRoot(x)))
			contents[i.Name] += x.Text
		}
	}
	sort.Strings(names)
	out := []string{}
	for _, x := range names {
		out = append(out, fmt.Sprintf("%s %q[%s]", x, contents[x], strings.Join(groups[x], ", ")))
	}
	return fmt.Sprintf("%s %q{%s}", n.Token, n.Text, strings.Join(out, "; "))
}

func nodeText(x roots.Node) string {
	list := []string{}
	for _, c := range x.Containers().List() {
		if c.Name() != x.Name() {
			vlib.Failf("a container of the node %s is named %s", x.Name(), c.Name())
		}
		if !c.HasRoot() {
			list = append(list, fmt.Sprintf("%q", c.Content()))
			continue
		}
		list = append(list, fmt.Sprintf("%q>%s", c.Content(), GotRoot(c.Root())))
	}
	return fmt.Sprintf("%s %q[%s]", x.Name(), x.Content(), strings.Join(list, ", "))
}

// GotRoot is the tree of the implementation.
func GotRoot(r roots.Root) string {
	names := []string{}
	for n, x := range r.Nodes().All() {
		names = append(names, n)
		if x.Name() != n {
			vlib.Failf("the node %s is named %s", n, x.Name())
		}
		if f, err := r.Nodes().Fetch(n); err != nil || f != x || !r.Nodes().Exists(n) {
			vlib.Failf("the node %s is not found by its name", n)
		}
	}
	if uint(len(names)) != r.Nodes().Amount() {
		vlib.Failf("%d nodes instead of %d", r.Nodes().Amount(), len(names))
	}
	if _, err := r.Nodes().Fetch("nothing"); err == nil || r.Nodes().Exists("nothing") {
		vlib.Failf("a node that does not exist is found")
	}
	sort.Strings(names)
	out := []string{}
	for _, n := range names {
		out = append(out, nodeText(r.Nodes().All()[n]))
	}
	return fmt.Sprintf("%s %q{%s}", r.Name(), r.Content(), strings.Join(out, "; "))
}

// Everything lists the texts of all nodes of a name below the root: those directly in it, and all.
func everything(r roots.Root, name string) (direct string, all map[string]bool) {
	all = map[string]bool{}
	var walk func(r roots.Root)
	walk = func(r roots.Root) {
		for n, x := range r.Nodes().All() {
			if n == name {
				all[nodeText(x)] = true
			}
			for _, c := range x.Containers().List() {
				if c.HasRoot() {
					walk(c.Root())
				}
			}
		}
	}
	walk(r)
	if r.Nodes().Exists(name) {
		x, _ := r.Nodes().Fetch(name)
		direct = nodeText(x)
	}
	return direct, all
}

// Scan checks a search of a name in the nodes of a root, and returns what was found.
func Scan(r roots.Root, name string) string {
	direct, all := everything(r, name)
	root, node, container, content, err := r.Nodes().Scan(name)
	if rt, nd, cn, ct, e := r.Scan(name); name == r.Name() {
		if e != nil || rt != r || nd != nil || cn != nil || ct != "" {
			vlib.Failf("%s is not found by its own name", GotRoot(r))
		}
	} else if rt != root || nd != node || cn != container || ct != content || (e == nil) != (err == nil) {
		vlib.Failf("%s is found in %s, but not in its nodes, or the reverse", name, GotRoot(r))
	}
	if err != nil {
		if len(all) > 0 {
			vlib.Failf("%s is not found in %s", name, GotRoot(r))
		}
		return ""
	}
	if root != nil || container != nil || content != "" || node == nil {
		vlib.Failf("%s is found, but not as a node, in %s", name, GotRoot(r))
	}
	got := nodeText(node)
	if direct != "" && got != direct {
		vlib.Failf("%s is found as %s instead of the direct %s, in %s", name, got, direct, GotRoot(r))
	}
	if !all[got] {
		vlib.Failf("%s is found as %s, which is not in %s", name, got, GotRoot(r))
	}
	return got
}

// ScanBelow checks searches that begin at the nodes, lists and occurrences of a tree, at every depth.
func ScanBelow(r roots.Root, names []string) {
	tree := GotRoot(r)
	for _, x := range r.Nodes().All() {
		for _, nm := range names {
			where := nm + " below the node " + x.Name() + " of " + tree
			inAll := map[string]bool{}
			for _, k := range x.Containers().List() {
				in := map[string]bool{}
				if k.HasRoot() {
					_, in = everything(k.Root(), nm)
				}
				for t := range in {
					inAll[t] = true
				}
				rt, nd, cn, ct, err := k.Scan(nm)
				if k.Name() == nm {
					if err != nil || cn != k || rt != nil || nd != nil || ct != "" {
						vlib.Failf("an occurrence is not found by its own name: %s", where)
					}
					continue
				}
				foundIn(where, rt, nd, cn, ct, err, in)
			}
			rt, nd, cn, ct, err := x.Scan(nm)
			if x.Name() == nm {
				if err != nil || nd != x || rt != nil || cn != nil || ct != "" {
					vlib.Failf("a node is not found by its own name: %s", where)
				}
			} else {
				foundIn(where, rt, nd, cn, ct, err, inAll)
			}
			rt, nd, cn, ct, err = x.Containers().Scan(nm)
			if l := x.Containers().List(); len(l) > 0 && l[0].Name() == nm {
				if err != nil || cn != l[0] || rt != nil || nd != nil || ct != "" {
					vlib.Failf("the first occurrence is not found by its name: %s", where)
				}
			} else {
				foundIn(where, rt, nd, cn, ct, err, inAll)
			}
		}
		for _, k := range x.Containers().List() {
			if k.HasRoot() {
				for _, nm := range names {
					Scan(k.Root(), nm)
				}
				ScanBelow(k.Root(), names)
			}
		}
	}
}

func foundIn(where string, rt roots.Root, nd roots.Node, cn roots.Container, ct string, err error, in map[string]bool) {
	if rt != nil || cn != nil || ct != "" || (err != nil && nd != nil) {
		vlib.Failf("not found as a node: %s", where)
	}
	if (nd != nil) != (len(in) > 0) {
		vlib.Failf("found=%v: %s", nd != nil, where)
	}
	if nd != nil && !in[nodeText(nd)] {
		vlib.Failf("found as %s: %s", nodeText(nd), where)
	}
}
