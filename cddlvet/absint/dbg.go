package absint

import (
	"fmt"
	"os"
)

// dbgLexer describes offset/rdOffset/len relations of the Lexer objects in a state.
func dbgLexer(st *State) (string, bool) {
	res, good := "", true
	st.heap.each(func(id int, o *Object) {
		if o.typ == nil || o.site == "global" || o.root.undef() || o.typ.String() != RepoPath+"/lexer.Lexer" {
			return
		}
		f := st.f(o.root)
		e := func(i int) V { return st.elem(o.root, i) }
		_ = f
		sl := st.f(e(0))
		a, b, n := e(2), e(3), sl.ln
		u1, u2 := st.ub(a, b), st.ub(b, n)
		res += fmt.Sprintf("obj%d chr=%s off=%s rd=%s n=%s off-rd<=%d rd-n<=%d", id, st.show(e(1)), st.show(a), st.show(b), st.show(n), u1, u2)
		found := false
		arr := ""
		for _, root := range st.sourceTexts() {
			arr += fmt.Sprintf(" arr%d:", root.S)
			for _, m := range st.f(root).memo {
				arr += st.show(m.Idx) + "=" + st.show(m.Val) + " "
				if st.cmpIdx(m.Idx, a) == 1 {
					found = true
				}
			}
		}
		for _, root := range st.sourceTexts() {
			for _, m := range st.f(root).pos {
				arr += " P" + st.show(m.Idx) + ":" + st.show(m.NL) + "," + st.show(m.LN)
			}
		}
		lf := st.f(e(6))
		arr += " LINES len " + st.show(lf.ln)
		if af := st.f(lf.arr); len(af.tg) == 1 {
			for _, m := range st.f(st.loadTarget(af.tg[0])).memo {
				arr += " [" + st.show(m.Idx) + "]=" + st.show(m.Val)
			}
		} else {
			arr += fmt.Sprint(" tg", len(af.tg))
		}
		res += arr
		if !found {
			good = false
		}
		if u1 > 0 || u2 > 0 {
			good = false
		}
	})
	return res, good
}

var dbgLex = os.Getenv("DBGLEX") != ""

var dbgBlk = os.Getenv("DBGBLK")
