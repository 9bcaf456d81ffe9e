// Command harness holds the property harnesses.  The symbolic engine executes
// the functions listed in the registry; this program runs the same functions
// natively on recorded inputs.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"

	"verif/harness/nd"
)

type entry struct {
	prop  string
	name  string
	f     func()
	bound string
}

func find(name string) func() {
	for _, e := range registry() {
		if e.name == name {
			return e.f
		}
	}
	fmt.Fprintln(os.Stderr, "no harness", name)
	os.Exit(2)
	return nil
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		type info struct {
			Name  string `json:"name"`
			Prop  string `json:"prop"`
			Bound string `json:"bound"`
		}
		var r []info
		for _, e := range registry() {
			r = append(r, info{e.name, e.prop, e.bound})
		}
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
	case "serve":
		tier, _ := strconv.Atoi(os.Args[2])
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		for {
			l, err := in.ReadString('\n')
			if err != nil {
				return
			}
			name, js, _ := strings.Cut(strings.TrimSpace(l), " ")
			var d []int64
			json.Unmarshal([]byte(js), &d)
			b, _ := json.Marshal(nd.Run(find(name), d, tier))
			fmt.Printf("\nR %s\n", b)
		}
	case "race":
		// run the recorded case concurrently under the race detector
		var d []int64
		json.Unmarshal([]byte(os.Args[3]), &d)
		concurrent = true
		r := nd.Run(find(os.Args[2]), d, 0)
		if r.Outcome == "assert" || r.Outcome == "panic" {
			fmt.Println("RACE-ASSERT", r.Msg)
			os.Exit(1)
		}
	}
}

// concurrent makes par run its argument in several goroutines at once.
var concurrent bool

func par(f func()) {
	if !concurrent {
		f()
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			for k := 0; k < 50; k++ {
				f()
			}
		}()
	}
	wg.Wait()
}
