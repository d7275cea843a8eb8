// genstat draws programs, compares the two interpreters and tells what came out.
package main

import (
	"flag"
	"fmt"
	"strings"

	"verifharness/props"
)

func main() {
	n := flag.Int("n", 1000, "programs")
	seed := flag.Int("seed", 0, "first seed")
	prof := flag.String("p", "base", "profile")
	show := flag.Int("show", 0, "programs to print")
	maxe := flag.Int("e", 5, "differences to print")
	flag.Parse()
	st := props.GenStat(*prof, *n, *seed, *show, *maxe)
	fmt.Println(strings.Join(st, "\n"))
}
