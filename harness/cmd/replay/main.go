// Command replay runs one harness natively on recorded values.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"flowverif/vsym"
)

func main() {
	name := flag.String("harness", "", "harness function")
	file := flag.String("file", "", "replay file")
	tier := flag.Int("tier", 0, "0 quick, 1 thorough")
	known := flag.String("known", "", "comma separated known findings")
	timeout := flag.Duration("timeout", 10*time.Second, "give up after")
	flag.Parse()
	f := table[*name]
	if f == nil {
		fmt.Println("UNKNOWN-HARNESS", *name)
		os.Exit(7)
	}
	in, err := vsym.LoadFile(*file)
	if err != nil {
		fmt.Println(err)
		os.Exit(7)
	}
	kn := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		kn[k] = true
	}
	vsym.Load(in, *tier, kn)
	go func() {
		time.Sleep(*timeout)
		vsym.Cleanup()
		fmt.Println("TIMEOUT")
		os.Exit(6)
	}()
	defer vsym.Cleanup()
	f()
	fmt.Println("OK")
	for _, o := range vsym.Observations() {
		fmt.Println("OBS " + o)
	}
}
