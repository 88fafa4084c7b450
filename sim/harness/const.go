//go:build !tuneparam

package main

import "github.com/jfcg/sorty/v2"

const tunable = false

func setLimits(l [4]int) {}

func limits() [4]int {
	return [4]int{sorty.MaxLenIns, sorty.MaxLenInsFC, sorty.MaxLenRec, sorty.MaxLenRecFC}
}
