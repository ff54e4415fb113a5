package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"verif/progs"
	"verif/resets"
	"verif/rt"
)

// selftest explores small programs whose behaviour is known, and compares the ways of
// exploring: the programs given are those of the tests or of a check (with its ID as the first
// argument and the number of states from which on to leave a program out as the second).
func selftest() {
	bad := 0
	ps := progs.SelfTests()
	limit := int64(0)
	if len(os.Args) > 3 {
		for _, c := range progs.Checks() {
			if c.ID == os.Args[2] {
				ps = c.Progs(false)
			}
		}
		n, _ := strconv.Atoi(os.Args[3])
		limit = int64(n)
	}
	compared := 0
	for i, p := range ps {
		if limit == 0 && len(os.Args) > 2 && !strings.Contains(p.Name, os.Args[2]) {
			continue
		}
		if limit > 0 && len(os.Args) > 5 {
			k, _ := strconv.Atoi(os.Args[4])
			n, _ := strconv.Atoi(os.Args[5])
			if i%n != k {
				continue
			}
		}
		run := func(cached bool, bound int) *rt.Explorer {
			x := p.Explorer()
			x.Cached, x.Bound, x.MaxStates = cached, bound, limit
			x.Ends = map[uint64]bool{}
			x.Run(resets.All, p.Run)
			return x
		}
		c := run(true, -1)
		if !c.Complete {
			continue
		}
		compared++
		a := run(false, -1)
		key := func(x *rt.Explorer) string {
			if x.Fail != nil {
				return x.Fail.Key
			}
			return ""
		}
		ok := strings.HasPrefix(key(a), p.Broken) && (p.Broken == "") == (key(a) == "") && (key(c) == "") == (key(a) == "")
		if key(a) == "" {
			ok = ok && same(a.Ends, c.Ends) && len(a.Outcomes) == len(c.Outcomes)
			if limit == 0 {
				b := run(false, 100)
				ok = ok && key(b) == "" && same(a.Ends, b.Ends) && len(a.Outcomes) == len(b.Outcomes)
			}
		}
		if limit == 0 || !ok {
			fmt.Printf("%-5v %s: reduced %d executions, %d ends, %d states; by state %d executions, %d ends, %d states; %d outcomes; %s\n", ok, p.Name, a.Execs, len(a.Ends), a.States, c.Execs, len(c.Ends), c.States, len(a.Outcomes), key(a))
		}
		if !ok {
			bad++
		}
	}
	fmt.Println(compared, "compared,", bad, "failed")
	if bad > 0 {
		os.Exit(1)
	}
}

func same(a, b map[uint64]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return len(a) == len(b)
}
