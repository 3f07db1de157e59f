package main

import "math"

func cos(x float64) float64      { return math.Cos(x) }
func hypot(x, y float64) float64 { return math.Hypot(x, y) }
