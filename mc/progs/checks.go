package progs

import "fmt"

const regular = "; up to 4 goroutines of 3 calls in regular patterns under three deterministic schedulers with one deviation at any point"

// Checks lists what is explored for each property.
func Checks() []Check {
	return []Check{
		{ID: "M01", Level: "model_checking",
			Rule: "every complete history is linearizable against a plain map; no panic, deadlock, endless execution or data race in any schedule",
			Bounds: func(bool) string {
				return "2 or 3 goroutines; pairs of calls in maps of up to 300 other keys (thorough: 1100) in either internal map" + regular
			},
			Progs: mapPrograms},
		{ID: "M03", Level: "model_checking",
			Rule: "every Range shows each key at most once with a value it had during the Range, all keys that kept their value during the whole of it, and stops when told to",
			Bounds: func(bool) string {
				return "8 start states of up to 2 keys, in every order; one Range (10 kinds: stopped, nested, changing the map in its function) beside up to 2 operations of other goroutines, or two Ranges" + regular
			},
			Progs: rangePrograms},
		{ID: "B04", Level: "model_checking",
			Rule: "every complete history is explained by some order of the operations, where one on several sets reads each of them at a moment of its own; no deadlock or data race in any schedule",
			Bounds: func(bool) string {
				return "two sets of 3 start contents; all pairs of operations, two writes or two reads beside anything, and operations on both sets in both orders beside writers of both; single operations on sets of up to 70000 bytes beside two writes far apart" + regular
			},
			Progs: bitPrograms},
		{ID: "E01", Level: "model_checking",
			Rule:   "every complete history is that of a register of errors that ignores nil; no panic or data race in any schedule",
			Bounds: func(bool) string { return "2-3 goroutines with up to 2 operations each, 7 errors of 5 types" + regular },
			Progs:  errPrograms},
		{ID: "O01", Level: "model_checking",
			Rule: "whatever the underlying sync.Pool returns, in every schedule no object is handed to two holders, and every one comes from the function or from a Put",
			Bounds: func(bool) string {
				return "1-3 goroutines that take, give back and give new objects in every order; array pools of size 0-3"
			},
			Progs: poolPrograms},
		{ID: "P01", Level: "model_checking",
			Rule: "calls that share nothing but what they only read answer as they do alone, their results stay as they are, and no schedule has a data race",
			Bounds: func(bool) string {
				return "every ordered pair of about 100 calls: functions of all packages on shared arguments, and scripts on objects of their own of every type; every call from within the functions given to others; package variables fresh in each"
			},
			Progs: purePrograms},
		{ID: "P02", Level: "model_checking",
			Rule: "calls that only read a container answer beside one another what they answer alone, without data race",
			Bounds: func(bool) string {
				return "every ordered pair of 19 readings of skip list, tree, views, list, set, batch answers and chains, of 0-9 entries, with and without removals before"
			},
			Progs: readPrograms},
		{ID: "P03", Level: "fault_enumeration",
			Rule: "a call that panics because of what the caller gave has no effect, leaves nothing locked, and all later calls answer as a model does; distinct are the histories",
			Bounds: func(bool) string {
				return "every sequence of 2-5 calls of concurrent map, bit set, tree, file cache, pools, set and list, where keys without hash, values that cannot be compared, written or read, and panics of functions at their first calls occur at every place"
			},
			Progs: panicPrograms},
		{ID: "D02", Level: "model_checking",
			Rule: "in every periodic history all calls together make at most a constant number of steps per call (and per entry of a Range)",
			Bounds: func(thorough bool) string {
				if thorough {
					return "every word of up to 4 of 15 calls repeated for 900 calls, after 11 pasts of up to 200 keys; steps are operations on atomics and locks and visits of map entries"
				}
				return "every word of up to 3 of 15 calls repeated for 400 calls, after 6 pasts of up to 200 keys; steps are operations on atomics and locks and visits of map entries"
			},
			Progs: workPrograms},
		{ID: "D03", Level: "model_checking",
			Rule: "in every history the calls of a skip list together take at most a multiple of the logarithm of its size for each, and the others a constant number of steps each",
			Bounds: func(thorough bool) string {
				if thorough {
					return "every word of up to 3-4 of 14 calls repeated for 600 calls, after 8 pasts of up to 4000 keys; all pairs of 7 orders of up to 800000 keys; 4 ways to draw the heights; steps are calls of functions and passes of loops"
				}
				return "every word of up to 3 of 14 calls repeated for 300 calls, after 8 pasts of up to 2000 keys; all pairs of 7 orders of up to 100000 keys; 4 ways to draw the heights; steps are calls of functions and passes of loops"
			},
			Progs: workListPrograms},
		{ID: "L01", Level: "model_checking",
			Rule: "a model of the cache that follows every history; where a batch write leaves the order open, one of the orders must explain all answers",
			Bounds: func(bool) string {
				return "3 keys, two lifetimes, time in steps of a second; histories of 40 and more calls on caches of 2-40 entries in systematic orders"
			},
			Progs: lruMachines},
		{ID: "L02", Level: "model_checking",
			Rule: "every complete history agrees with some order of the calls on the LRU model; no panic, deadlock or data race in any schedule",
			Bounds: func(bool) string {
				return "caches of 1-2 entries, usage limits 0-2, 4 start contents, 2-3 goroutines with up to 2 calls, map orders of MSet; two or three batches of up to 5000 keys at once" + regular
			},
			Progs: lruPrograms},
		{ID: "F01", Level: "model_checking",
			Rule:   "a map with expiry: every answer, also after opening again; files of others stay; a cleaning that is due leaves no expired file; no goroutine stays",
			Bounds: func(bool) string { return "2-3 keys, 2 values, two lifetimes and one already over, time in steps" },
			Progs:  fileMachines},
		{ID: "F02", Level: "fault_enumeration",
			Rule: "after a crash at a step of the last call, or with failing steps, every key holds what it held before or was to hold, is a miss, or is an error once; keys not written keep their value; a call without error has its effect; distinct are the combinations of history, fault and continuation",
			Bounds: func(bool) string {
				return "every history of up to 3 calls from an alphabet of 7 and 4 more at the end, every step, every number of lost bytes, one or two failing steps, 9 continuations; every prefix of an entry and bytes zeroed in it; of long values (5000 to 20000 bytes) losses at the ends and the borders of blocks"
			},
			Progs: filePlans},
		{ID: "F03", Level: "model_checking",
			Rule: "every complete history agrees with some order of the calls, key by key, on a map with expiry; background cleanings never overlap, end, and come again; no panic, deadlock or data race in any schedule",
			Bounds: func(bool) string {
				return "2 keys, 4 start contents, with and without a due cleaning; 2-3 goroutines with 1-2 calls of 10 kinds, time going by meanwhile in some; values of up to 70000 bytes, 2-3 calls at once" + regular
			},
			Progs: filePrograms},
		{ID: "R01", Level: "model_checking",
			Rule:   "in every schedule the mapper is called once for each item sent, the reducer receives exactly the values written and then the end, and its result is returned",
			Bounds: mrBounds("0-2 items (3 in some, and when thorough), 1-2 workers, 0-2 values per item, reducers that read all, some or nothing; calls of 5-40 items under three deterministic schedulers with one deviation at any point (two when thorough, for the smaller), and of 65-1025 without deviation"),
			Progs:  mrR01},
		{ID: "R02", Level: "model_checking",
			Rule:   "in every schedule the result of the call is one that the recorded order of cancellations, end of the context and result allows",
			Bounds: mrBounds("0-2 items, 1-2 workers, cancellations with and without error by mappers and reducer, context ended before, at any moment, or by deadline; calls of 9 and 20 items under three deterministic schedulers with one deviation at any point (two when thorough, for the smaller), and of 65-1025 without deviation"),
			Progs:  mrR02},
		{ID: "R03", Level: "model_checking",
			Rule:   "in every schedule a panic of a callback ends the call with the value of one of the panics, unless something may have cancelled the call",
			Bounds: mrBounds("0-2 items, 1-2 workers, panics in the generator, mappers and the reducer at every point; calls of 9 and 20 items under three deterministic schedulers with one deviation at any point (two when thorough, for the smaller), and of 65-1025 without deviation"),
			Progs:  mrR03},
		{ID: "R04", Level: "model_checking",
			Rule:   "in every schedule the call ends and every goroutine ends; no goroutine panics, no data race",
			Bounds: mrBounds("0-2 items (3 for ForEach and Finish), 1-2 workers, mixtures of cancellation, context end, panic, unread input and early return; calls of 9 and 20 items under three deterministic schedulers with one deviation at any point (two when thorough, for the smaller), and of 65-1025 without deviation"),
			Progs:  mrR04},
		{ID: "R05", Level: "model_checking",
			Rule:   "at no moment of any schedule run more mappers than configured, and when all wait exactly that many have been started",
			Bounds: mrBounds("workers -1 to 3, 16, 17 and not configured, as many items and one more; 33-257 workers under three deterministic schedulers"),
			Progs:  mrR05},
		{ID: "R06", Level: "model_checking",
			Rule:   "in every schedule every function is run once, ends before the call returns, and the error is one of those returned",
			Bounds: mrBounds("0-3 functions, each failing or not; calls of 5-33 functions under three deterministic schedulers with one deviation at any point (two when thorough, for the smaller), and of 65-1025 without deviation"),
			Progs:  mrR06},
	}
}

func mrBounds(s string) func(bool) string {
	return func(thorough bool) string {
		return s + fmt.Sprintf("; programs of more than %d states under preemption bounds", mrLimit(thorough))
	}
}
