package main

import (
	"sort"
	"time"
)

var noTime time.Time

func sortStrings(s []string) { sort.Strings(s) }
