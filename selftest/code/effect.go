package selftest

import "sort"

// Tree is recursive, so its values are nodes of an uninterpreted sort.
type Tree struct {
	Name string
	Kids []*Tree
}

// the closure lists the names below a node, parents first
func OkEffectWalk(t *Tree) []string {
	var out []string
	var walk func(n *Tree)
	walk = func(n *Tree) {
		out = append(out, n.Name)
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(t)
	return out
}

// lists children before their parent, contrary to its effect
func BadEffectOrder(t *Tree) []string {
	var out []string
	var walk func(n *Tree)
	walk = func(n *Tree) {
		for _, k := range n.Kids {
			walk(k)
		}
		out = append(out, n.Name)
	}
	walk(t)
	return out
}

// leaves out the last child of a node
func BadEffectSkip(t *Tree) []string {
	var out []string
	var walk func(n *Tree)
	walk = func(n *Tree) {
		out = append(out, n.Name)
		for i, k := range n.Kids {
			if i > 0 {
				walk(k)
			}
		}
	}
	walk(t)
	return out
}

// the second variable is not part of the declared effect
func BadEffectFrame(t *Tree) int {
	var out []string
	n := 0
	var walk func(t *Tree)
	walk = func(t *Tree) {
		out = append(out, t.Name)
		n++
		for _, k := range t.Kids {
			walk(k)
		}
	}
	walk(t)
	return n
}

// dereferences a child that may be nil
func BadEffectNeeds(t *Tree) []string {
	var out []string
	var walk func(n *Tree)
	walk = func(n *Tree) {
		out = append(out, n.Name)
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(t)
	return out
}

func OkNodeWrite(name string) *Tree {
	t := Tree{Name: "a"}
	t.Kids = append(t.Kids, &Tree{Name: name})
	return &t
}

func BadNodeWrite(name string) *Tree {
	t := Tree{Name: name}
	t.Kids = append(t.Kids, &Tree{Name: name})
	t.Name = "b"
	return &t
}

func BadNodeAlias() string {
	k := &Tree{Name: "a"}
	t := Tree{Kids: []*Tree{k}}
	k.Name = "b"
	return t.Kids[0].Name
}

func swapFirst(s []string) {
	if len(s) > 1 {
		s[0], s[1] = s[1], s[0]
	}
}

func swapVia(s []string) { swapFirst(s) }

func BadIndirectSwap(s []string) string {
	if len(s) < 2 {
		return ""
	}
	f := s[0]
	swapVia(s)
	if s[0] == f {
		return "same"
	}
	return "moved"
}

func OkSortTie(in []int) []int {
	s := append([]int{}, in...)
	sort.SliceStable(s, func(i, j int) bool {
		if s[i] == s[j] {
			return i < j
		}
		return s[i] < s[j]
	})
	return s
}

func BadSortTie(in []int) []int {
	s := append([]int{}, in...)
	sort.SliceStable(s, func(i, j int) bool {
		if s[i] == s[j] {
			return i < j
		}
		return s[i] > s[j]
	})
	return s
}
