// difftest compares the reference interpreter with the real one on NUL-separated scripts.
package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"verifharness/props"
)

func main() {
	b, _ := io.ReadAll(os.Stdin)
	n, bad, disc := 0, 0, 0
	for _, s := range strings.Split(string(b), "\x00") {
		func() {
			defer func() {
				if x := recover(); x != nil {
					bad++
					fmt.Printf("PANIC %v\n%s\n", x, s)
				}
			}()
			n++
			d, err := props.DiffScript(s)
			if d != "" {
				disc++
			}
			if err != nil {
				bad++
				fmt.Println(err)
			}
		}()
	}
	fmt.Println(n, "scripts", disc, "discarded", bad, "differences")
}
