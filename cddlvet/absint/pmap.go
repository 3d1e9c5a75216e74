// Package absint is an abstract interpreter over go/ssa. It never executes the
// analysed program: values are symbols that carry facts (integer sets, differences,
// nilness, targets, dynamic types, string provenance) and control flow is solved to a
// fixpoint with joins and widening.
package absint

// pmap is a persistent map from small non-negative ints to T (16-way trie, path copying).
type pmap[T any] struct {
	root  *pnode[T]
	depth uint // levels below root
	n     int
}

type pnode[T any] struct {
	kids [16]*pnode[T]
	vals *[16]T
	has  uint16
}

func (m pmap[T]) get(k int) (T, bool) {
	var zero T
	if m.root == nil || k < 0 || uint64(k)>>(4*(m.depth+1)) != 0 {
		return zero, false
	}
	n := m.root
	for d := m.depth; d > 0; d-- {
		n = n.kids[(k>>(4*d))&15]
		if n == nil {
			return zero, false
		}
	}
	i := k & 15
	if n.has&(1<<i) == 0 {
		return zero, false
	}
	return n.vals[i], true
}

func (m pmap[T]) set(k int, v T) pmap[T] {
	if m.root == nil {
		m.root = &pnode[T]{}
		m.depth = 0
	}
	for uint64(k)>>(4*(m.depth+1)) != 0 {
		r := &pnode[T]{}
		r.kids[0] = m.root
		m.root = r
		m.depth++
	}
	added := false
	m.root = psetNode(m.root, m.depth, k, v, &added)
	if added {
		m.n++
	}
	return m
}

func psetNode[T any](n *pnode[T], d uint, k int, v T, added *bool) *pnode[T] {
	c := &pnode[T]{}
	if n != nil {
		*c = *n
	}
	if d == 0 {
		nv := new([16]T)
		if n != nil && n.vals != nil {
			*nv = *n.vals
		}
		i := k & 15
		nv[i] = v
		if c.has&(1<<i) == 0 {
			*added = true
		}
		c.has |= 1 << i
		c.vals = nv
		return c
	}
	i := (k >> (4 * d)) & 15
	c.kids[i] = psetNode(c.kids[i], d-1, k, v, added)
	return c
}

func (m pmap[T]) del(k int) pmap[T] {
	if _, ok := m.get(k); !ok {
		return m
	}
	m.root = pdelNode(m.root, m.depth, k)
	m.n--
	return m
}

func pdelNode[T any](n *pnode[T], d uint, k int) *pnode[T] {
	c := &pnode[T]{}
	*c = *n
	if d == 0 {
		nv := new([16]T)
		*nv = *n.vals
		var zero T
		nv[k&15] = zero
		c.has &^= 1 << (k & 15)
		c.vals = nv
		return c
	}
	i := (k >> (4 * d)) & 15
	c.kids[i] = pdelNode(c.kids[i], d-1, k)
	return c
}

func (m pmap[T]) each(f func(k int, v T)) {
	if m.root != nil {
		peach(m.root, m.depth, 0, f)
	}
}

func peach[T any](n *pnode[T], d uint, base int, f func(k int, v T)) {
	if d == 0 {
		for i := 0; i < 16; i++ {
			if n.has&(1<<i) != 0 {
				f(base|i, n.vals[i])
			}
		}
		return
	}
	for i := 0; i < 16; i++ {
		if n.kids[i] != nil {
			peach(n.kids[i], d-1, base|i<<(4*d), f)
		}
	}
}
