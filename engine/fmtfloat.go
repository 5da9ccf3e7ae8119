package main

import "strconv"

func fmtFloat(f float64, fm byte, pr, bs int) string { return strconv.FormatFloat(f, fm, pr, bs) }
