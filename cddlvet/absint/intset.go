package absint

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

func satAdd(a, b int64) int64 {
	if a == negInf || b == negInf {
		return negInf
	}
	if a == posInf || b == posInf {
		return posInf
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return posInf
	}
	if a < 0 && b < 0 && s >= 0 {
		return negInf
	}
	return s
}

func satNeg(a int64) int64 {
	switch a {
	case negInf:
		return posInf
	case posInf:
		return negInf
	}
	return -a
}

// IntSet is a sorted list of disjoint, non-adjacent closed intervals. Empty is bottom.
type IntSet []iv

type iv struct{ lo, hi int64 }

const maxIv = 48

func setAll() IntSet          { return IntSet{{negInf, posInf}} }
func setConst(c int64) IntSet { return IntSet{{c, c}} }
func setRange(a, b int64) IntSet {
	if a > b {
		return nil
	}
	return IntSet{{a, b}}
}

func (s IntSet) empty() bool { return len(s) == 0 }
func (s IntSet) min() int64  { return s[0].lo }
func (s IntSet) max() int64  { return s[len(s)-1].hi }
func (s IntSet) isConst() (int64, bool) {
	if len(s) == 1 && s[0].lo == s[0].hi && s[0].lo != negInf && s[0].lo != posInf {
		return s[0].lo, true
	}
	return 0, false
}
func (s IntSet) has(c int64) bool {
	for _, i := range s {
		if c >= i.lo && c <= i.hi {
			return true
		}
	}
	return false
}
func (s IntSet) eq(t IntSet) bool {
	if len(s) != len(t) {
		return false
	}
	for i := range s {
		if s[i] != t[i] {
			return false
		}
	}
	return true
}

func norm(l []iv) IntSet {
	if len(l) == 0 {
		return nil
	}
	sort.Slice(l, func(i, j int) bool { return l[i].lo < l[j].lo })
	out := IntSet{l[0]}
	for _, x := range l[1:] {
		last := &out[len(out)-1]
		if last.hi == posInf || x.lo <= last.hi+1 {
			if x.hi > last.hi {
				last.hi = x.hi
			}
		} else {
			out = append(out, x)
		}
	}
	for len(out) > maxIv { // merge the closest neighbours
		best, bi := int64(posInf), 1
		for i := 1; i < len(out); i++ {
			if g := out[i].lo - out[i-1].hi; g < best && g > 0 {
				best, bi = g, i
			}
		}
		out[bi-1].hi = out[bi].hi
		out = append(out[:bi], out[bi+1:]...)
	}
	return out
}

func (s IntSet) union(t IntSet) IntSet {
	if len(s) == 0 {
		return t
	}
	if len(t) == 0 || s.eq(t) {
		return s
	}
	l := make([]iv, 0, len(s)+len(t))
	l = append(l, s...)
	l = append(l, t...)
	return norm(l)
}

func (s IntSet) inter(t IntSet) IntSet {
	var out IntSet
	i, j := 0, 0
	for i < len(s) && j < len(t) {
		lo, hi := s[i].lo, s[i].hi
		if t[j].lo > lo {
			lo = t[j].lo
		}
		if t[j].hi < hi {
			hi = t[j].hi
		}
		if lo <= hi {
			out = append(out, iv{lo, hi})
		}
		if s[i].hi < t[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func (s IntSet) shift(k int64) IntSet {
	if k == 0 {
		return s
	}
	out := make(IntSet, len(s))
	for i, x := range s {
		out[i] = iv{satAdd(x.lo, k), satAdd(x.hi, k)}
	}
	return out
}

func (s IntSet) without(c int64) IntSet {
	var out IntSet
	for _, x := range s {
		if c < x.lo || c > x.hi {
			out = append(out, x)
			continue
		}
		if x.lo < c {
			out = append(out, iv{x.lo, c - 1})
		}
		if x.hi > c {
			out = append(out, iv{c + 1, x.hi})
		}
	}
	return out
}

func (s IntSet) subset(t IntSet) bool { return s.inter(t).eq(s) }

// count is the number of elements, or -1 when large.
func (s IntSet) count() int {
	n := 0
	for _, x := range s {
		if x.lo == negInf || x.hi == posInf || x.hi-x.lo > 1000 {
			return -1
		}
		n += int(x.hi - x.lo + 1)
	}
	return n
}

func (s IntSet) elems() []int64 {
	var out []int64
	for _, x := range s {
		for v := x.lo; v <= x.hi; v++ {
			out = append(out, v)
		}
	}
	return out
}

func (s IntSet) String() string {
	var b []string
	for _, x := range s {
		switch {
		case x.lo == x.hi:
			b = append(b, fmt.Sprint(x.lo))
		default:
			lo, hi := fmt.Sprint(x.lo), fmt.Sprint(x.hi)
			if x.lo == negInf {
				lo = "-inf"
			}
			if x.hi == posInf {
				hi = "inf"
			}
			b = append(b, lo+".."+hi)
		}
	}
	return "{" + strings.Join(b, ",") + "}"
}

func (s IntSet) minus(t IntSet) IntSet {
	out := s
	for _, r := range t {
		var n IntSet
		if r.lo > negInf {
			n = n.union(out.inter(setRange(negInf, r.lo-1)))
		}
		if r.hi < posInf {
			n = n.union(out.inter(setRange(r.hi+1, posInf)))
		}
		out = n
	}
	return out
}
