package main

import (
	"fmt"
	"regexp"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func dumpDeps(repo, pat string) {
	c, err := load(repo)
	if err != nil {
		fmt.Println(err)
		return
	}
	re := regexp.MustCompile(pat)
	var fs []*ssa.Function
	for _, f := range c.Funcs {
		if re.MatchString(FName(f)) {
			fs = append(fs, f)
		}
	}
	outs := make([]string, len(fs))
	parallel(len(fs), func(i int) {
		f := fs[i]
		it := newInterp(c)
		st := map[string]bool{}
		it.OnStore = func(o *Obj, p string, at ssa.Instruction, how string) {
			st[fmt.Sprintf("%s %s %s%s at %s", how, o.root, o.label, p, c.Pos(at.Pos()))] = true
		}
		t0 := time.Now()
		res, mem, n := it.Entry(f)
		s := fmt.Sprintf("%s(", FName(f))
		for i, p := range f.Params {
			s += fmt.Sprintf(" #%d=%s", i, p.Name())
		}
		s += fmt.Sprintf(") rets=%d steps=%d over=%v %.2fs\n", n, it.steps, it.over, time.Since(t0).Seconds())
		for i, v := range res {
			may, must := it.content(mem, v)
			s += fmt.Sprintf("   r%d must=%v\n      may-only=%v\n", i, it.names(must), it.names(may.minus(must)))
		}
		var ks []string
		for k := range st {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += "    " + k + "\n"
		}
		outs[i] = s
	})
	for _, s := range outs {
		fmt.Print(s)
	}
}

func parallel(n int, f func(int)) {
	var wg sync.WaitGroup
	ch := make(chan int, n)
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	var mu sync.Mutex
	var pan any
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if e := recover(); e != nil {
							mu.Lock()
							pan = fmt.Sprintf("%v (item %d)", e, i)
							mu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}
