// stk shows the error stacks of scripts read from standard input (development tool).
package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"helena/core"
	"verifharness/hx"
)

func main() {
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		src := strings.ReplaceAll(in.Text(), "↵", "\n")
		sc := hx.NewOpt(true, true)
		s, err := hx.ParsePos(src)
		if err != nil {
			fmt.Println(err)
			continue
		}
		r := sc.PrepareProcess(sc.Compile(s)).Run()
		fmt.Println(src, " ==> ", hx.Out(r))
		if es, ok := r.Data.(*core.ErrorStack); ok {
			for i := uint(0); i < es.Depth(); i++ {
				l := es.Level(i)
				f := []string{}
				for _, x := range *l.Frame {
					f = append(f, hx.Repr(x))
				}
				p := "-"
				if l.Position != nil {
					p = fmt.Sprintf("%d:%d", l.Position.Line+1, l.Position.Column+1)
				}
				fmt.Println("   ", i, p, strings.Join(f, " "))
			}
		}
	}
}
