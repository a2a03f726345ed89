package worker

import "math"

func cbrt(x float64) float64 { return math.Cbrt(x) }
func sqrt(x float64) float64 { return math.Sqrt(x) }
func logf(x float64) float64 { return math.Log(x) }
