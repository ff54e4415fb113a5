package spec

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"

	"verif/rt"
)

// Recorded calls of the map-reduce programs.
const (
	MRCall   = iota // the call under test
	MRCancel        // a cancellation; argument: the error
	MRWrite         // the reducer's first write
	MREnd           // the end of the context
	MRReduce        // the end of the reducer
)

// MR is what a program of a map-reduce call expects and what it has seen.
type MR struct {
	Void     bool    // a variant without a result
	Panics   []any   // the values that callbacks panic with
	Values   []int   // all that mappers write if each runs to its end
	NilErr   error   // what cancel(nil) reports
	NoOutput error   // what a reducer that does not write reports
	Errs     []error // errors that functions of Finish return

	Panic   any
	Err     error
	Val     string
	Calls   []int // of the mapper, by item
	Ends    []int // of those, how many had ended when the call returned
	Begun   []int // how many had begun when the call returned
	Sent    int   // items the generator has sent
	Pipe    []int // what the reducer received
	PipeEnd bool  // and whether it saw the end
	Written []string
}

// MRValue is the value the reducer writes.
func MRValue(pipe []int) string { return fmt.Sprint("result of ", sorted(pipe)) }

func sorted(p []int) []int {
	p = append([]int(nil), p...)
	sort.Ints(p)
	return p
}

// SameError tells whether two errors are one, or equal if they cannot be compared.
func SameError(a, b error) bool {
	if a == nil || b == nil || reflect.TypeOf(a) != reflect.TypeOf(b) {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

// R01 is about calls that nothing ends early.
func (s *MR) R01() error {
	noOutput := s.Err != nil && errors.Is(s.Err, s.NoOutput) && len(s.Written) == 0
	if s.Panic != nil || s.Err != nil && !noOutput {
		return fmt.Errorf("the call ended with panic %v, error %v", s.Panic, s.Err)
	}
	if s.Err == nil && !s.Void && (len(s.Written) == 0 || s.Val != s.Written[0]) {
		return fmt.Errorf("the call returned %q, the reducer wrote %q", s.Val, s.Written)
	}
	for i, n := range s.Calls {
		want := 0
		if i < s.Sent {
			want = 1
		}
		if n != want {
			return fmt.Errorf("the mapper was called %d times for item %d of %d sent", n, i, s.Sent)
		}
	}
	return s.pipe(s.PipeEnd)
}

func (s *MR) pipe(all bool) error {
	if got, want := fmt.Sprint(sorted(s.Pipe)), fmt.Sprint(sorted(s.Values)); all && got != want {
		return fmt.Errorf("the reducer received %v, the mappers wrote %v", got, want)
	}
	left := map[int]int{}
	for _, v := range s.Values {
		left[v]++
	}
	for _, v := range s.Pipe {
		if left[v]--; left[v] < 0 {
			return fmt.Errorf("the reducer received %v, the mappers wrote %v", s.Pipe, s.Values)
		}
	}
	return nil
}

// R02 is about calls that were cancelled, whose context ended, or that have no output.
func (s *MR) R02() error {
	var call, write, end, reduce *rt.OpRec
	var cancels []*rt.OpRec
	h := rt.History()
	for _, r := range h {
		switch r.Op {
		case MRCall:
			call = r
		case MRWrite:
			write = r
		case MREnd:
			end = r
		case MRReduce:
			reduce = r
		case MRCancel:
			cancels = append(cancels, r)
		}
	}
	// a had returned before b began
	before := func(a, b *rt.OpRec) bool { return a != nil && b != nil && a.Ret >= 0 && b.Inv >= 0 && a.Ret < b.Inv }
	result := write // there is no result before this
	if result == nil {
		result = reduce
	}
	var firsts []error // the errors of cancellations that may have been the first
	certain := false   // some cancellation came before the result
	for _, c := range cancels {
		first := c.Inv >= 0 && c.Inv <= call.Ret
		for _, d := range cancels {
			first = first && !before(d, c)
		}
		if first {
			err, _ := c.Args[0].(error)
			if err == nil {
				err = s.NilErr
			}
			firsts = append(firsts, err)
		}
		certain = certain || before(c, result)
	}
	got := fmt.Sprintf("the call returned %q, %v (panic %v); history:\n%s", s.Val, s.Err, s.Panic, rt.Show(h))
	if s.Panic != nil {
		return fmt.Errorf("the call panicked: %s", got)
	}
	noOutput := write == nil && (s.Void && s.Err == nil || !s.Void && s.Err != nil && errors.Is(s.Err, s.NoOutput))
	if s.Err == nil && !s.Void && (write == nil || s.Val != s.Written[0]) {
		return fmt.Errorf("no error, but not the value that was written: %s", got)
	}
	for _, f := range firsts {
		if s.Err != nil && s.Val == "" && SameError(s.Err, f) {
			return nil
		}
	}
	if s.Err == nil || noOutput {
		if certain {
			return fmt.Errorf("a cancellation before the result is not reported: %s", got)
		}
		if before(end, result) {
			return fmt.Errorf("the context ended before the result and that is not reported: %s", got)
		}
	}
	if s.Err == nil {
		return nil
	}
	if s.Val != "" {
		return fmt.Errorf("a value and an error: %s", got)
	}
	if noOutput {
		return nil
	}
	if errors.Is(s.Err, context.DeadlineExceeded) {
		if end == nil || end.Inv < 0 || end.Inv > call.Ret {
			return fmt.Errorf("the context has not ended: %s", got)
		}
		if len(cancels) == 0 && before(write, end) {
			return fmt.Errorf("the result was there before the context ended: %s", got)
		}
		return nil
	}
	return fmt.Errorf("an error that nothing explains: %s", got)
}

// R03 is about calls whose callbacks panic; free: something may also cancel them.
func (s *MR) R03(free bool) error {
	if s.Panic == nil {
		if free {
			return nil
		}
		return fmt.Errorf("the panic was swallowed: the call returned %q, %v", s.Val, s.Err)
	}
	if len(s.Written) > 1 {
		return nil // the call panics, with whatever value
	}
	for _, p := range s.Panics {
		if reflect.DeepEqual(p, s.Panic) {
			return nil
		}
	}
	return fmt.Errorf("the call panicked with %v, the callbacks with %v", s.Panic, s.Panics)
}

// R06 is about ForEach, Finish and FinishVoid.
func (s *MR) R06(once bool) error {
	if s.Panic != nil {
		return fmt.Errorf("the call panicked with %v", s.Panic)
	}
	for i, n := range s.Calls {
		if n > 1 || once && n != 1 {
			return fmt.Errorf("function %d was run %d times", i, n)
		}
		if once && s.Ends[i] != 1 {
			return fmt.Errorf("the call returned before function %d had", i)
		}
	}
	if once {
		if s.Err != nil {
			return fmt.Errorf("no function failed, but the call returned %v", s.Err)
		}
		return nil
	}
	for i, e := range s.Errs {
		if e != nil && SameError(s.Err, e) && s.Begun[i] == 1 {
			return nil
		}
	}
	return fmt.Errorf("functions return %v, of which %v had begun, but the call returned %v", s.Errs, s.Begun, s.Err)
}
