//go:build tuneparam

package main

import "github.com/jfcg/sorty/v2"

const tunable = true

func setLimits(l [4]int) {
	sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC = l[0], l[1], l[2], l[3]
}

func limits() [4]int {
	return [4]int{sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC}
}
