//go:build verif

package graph

import (
	"ecksbee.com/telefacts/internal/vspec"
	myarcs "github.com/joshuanario/arcs"
)

// SpecNodes: a tree has a node at every place.
func SpecNodes(n *myarcs.RArc) bool {
	return n != nil && vspec.All(n.Children, func(c *myarcs.RArc) bool { return SpecNodes(c) })
}

//vc:assumed the tree is built by the arcs library, which makes a node for every place
func Ensures_Tree__nodes(arcs []myarcs.Arc, role string, r *myarcs.RArc) bool {
	return SpecNodes(r)
}

func Gen_Tree(g *vspec.G) ([]myarcs.Arc, string) {
	var as []myarcs.Arc
	for i := g.Intn(6); i > 0; i-- {
		as = append(as, myarcs.Arc{Arcrole: g.Pick("r", "s"), Order: float64(g.Intn(3)), From: g.Pick("a", "b", "c"), To: g.Pick("b", "c", "d", "e")})
	}
	return as, g.Pick("r", "s")
}
