package main

import "strconv"

func parseFloatHost(s string) (float64, error) { return strconv.ParseFloat(s, 64) }
