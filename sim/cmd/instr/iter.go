package main

// iterSrc replaces gonum's map iterators by ones whose order the simulation decides.
const iterSrc = `package iterator

import "gonum.org/v1/gonum/graph"

type Nodes struct {
	nodes map[int64]graph.Node
	keys  []int64
	next  int
	pos   int
	curr  graph.Node
}

func keysOf(m map[int64]graph.Node) []int64 {
	var keys []int64
	for k := range m {
		keys = append(keys, k)
	}
	return keys
}

func NewNodes(nodes map[int64]graph.Node) *Nodes { return &Nodes{nodes: nodes, keys: keysOf(nodes)} }

func (n *Nodes) Len() int { return len(n.nodes) - n.pos }

func (n *Nodes) step() bool {
	for n.next < len(n.keys) {
		v, ok := n.nodes[n.keys[n.next]]
		n.next++
		if ok {
			n.curr = v
			return true
		}
	}
	return false
}

func (n *Nodes) Next() bool {
	if n.pos >= len(n.nodes) {
		return false
	}
	ok := n.step()
	if ok {
		n.pos++
	}
	return ok
}

func (n *Nodes) Node() graph.Node { return n.curr }

func (n *Nodes) Reset() {
	n.curr = nil
	n.pos = 0
	n.next = 0
	n.keys = keysOf(n.nodes)
}

func (n *Nodes) NodeSlice() []graph.Node {
	if n.Len() == 0 {
		return nil
	}
	nodes := make([]graph.Node, 0, n.Len())
	for n.step() {
		nodes = append(nodes, n.curr)
	}
	n.pos = len(n.nodes)
	return nodes
}

type NodesByEdge struct {
	nodes map[int64]graph.Node
	e     map[int64]graph.Edge
	w     map[int64]graph.WeightedEdge
	keys  []int64
	next  int
	pos   int
	curr  graph.Node
}

func (n *NodesByEdge) load() {
	n.keys = nil
	if n.e != nil {
		for k := range n.e {
			n.keys = append(n.keys, k)
		}
	} else {
		for k := range n.w {
			n.keys = append(n.keys, k)
		}
	}
}

func (n *NodesByEdge) size() int {
	if n.e != nil {
		return len(n.e)
	}
	return len(n.w)
}

func NewNodesByEdge(nodes map[int64]graph.Node, edges map[int64]graph.Edge) *NodesByEdge {
	n := &NodesByEdge{nodes: nodes, e: edges}
	n.load()
	return n
}

func NewNodesByWeightedEdge(nodes map[int64]graph.Node, edges map[int64]graph.WeightedEdge) *NodesByEdge {
	n := &NodesByEdge{nodes: nodes, w: edges}
	n.load()
	return n
}

func (n *NodesByEdge) Len() int { return n.size() - n.pos }

func (n *NodesByEdge) step() bool {
	for n.next < len(n.keys) {
		k := n.keys[n.next]
		n.next++
		ok := false
		if n.e != nil {
			_, ok = n.e[k]
		} else {
			_, ok = n.w[k]
		}
		if ok {
			n.curr = n.nodes[k]
			return true
		}
	}
	return false
}

func (n *NodesByEdge) Next() bool {
	if n.pos >= n.size() {
		return false
	}
	ok := n.step()
	if ok {
		n.pos++
	}
	return ok
}

func (n *NodesByEdge) Node() graph.Node { return n.curr }

func (n *NodesByEdge) Reset() {
	n.curr = nil
	n.pos = 0
	n.next = 0
	n.load()
}

func (n *NodesByEdge) NodeSlice() []graph.Node {
	if n.Len() == 0 {
		return nil
	}
	nodes := make([]graph.Node, 0, n.Len())
	for n.step() {
		nodes = append(nodes, n.curr)
	}
	n.pos = n.size()
	return nodes
}
`
