package main

import (
	"bufio"
	"fmt"
	"helena/core"
	"os"
	"strings"
	"verifharness/hx"
)

func ev(src string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("PANIC ", r)
		}
	}()
	src = strings.ReplaceAll(src, "↵", "\n")
	s := hx.New()
	if strings.HasPrefix(src, "!") {
		sc, err := hx.Parse(src[1:])
		if err != nil {
			return err.Error()
		}
		return hx.ScriptRepr(sc)
	}
	r, err := hx.Run(s, src)
	if err != nil {
		return err.Error()
	}
	return hx.Out(r).String() + "   " + core.Display(r.Value, nil)
}
func main() {
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		fmt.Println(sc.Text(), " ==> ", ev(sc.Text()))
	}
}
