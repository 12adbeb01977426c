package main

import "go/constant"

func constMake(i int64) constant.Value { return constant.MakeInt64(i) }
