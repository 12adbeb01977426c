package main

import (
	"fmt"
	"os"
)

var vgd = os.Getenv("VGD") != ""

// explainPath prints, for debugging, the conditions only one side has.
func (d *differ) explainPath(path []lit) {
	if !vgd || d.depth > 0 {
		return
	}
	var o, n []lit
	for _, l := range path {
		switch d.side(l.at) {
		case 0:
			o = append(o, l)
		case 1:
			n = append(n, l)
		}
	}
	cut := func(t *T) string {
		s := t.String()
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		return s
	}
	if os.Getenv("VGD") == "2" {
		for _, l := range path {
			fmt.Println("  LIT", d.side(l.at), l.pos, cut(l.at))
		}
	}
	for _, l := range o {
		fmt.Println("  OLD", l.pos, cut(l.at))
	}
	for _, l := range n {
		fmt.Println("  NEW", l.pos, cut(l.at))
	}
	for _, x := range o {
		for _, y := range n {
			if x.at.op == y.at.op {
				fmt.Println("  PAIR")
				k := 0
				structDiff(x.at, y.at, &k, cut, map[[2]*T]bool{})
			}
		}
	}
}

func structDiff(x, y *T, k *int, cut func(*T) string, seen map[[2]*T]bool) {
	if x == y || *k > 12 || seen[[2]*T{x, y}] {
		return
	}
	seen[[2]*T{x, y}] = true
	if x.op == y.op && x.s == y.s && eqBig(x.n, y.n) && len(x.a) == len(y.a) {
		for i := range x.a {
			structDiff(x.a[i], y.a[i], k, cut, seen)
		}
		return
	}
	*k++
	fmt.Println("    o:", cut(x))
	fmt.Println("    n:", cut(y))
}
