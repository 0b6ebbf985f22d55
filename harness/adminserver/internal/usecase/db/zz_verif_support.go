package db

// VerifMax makes the timelines keep n samples.
func VerifMax(n int) { maxTimeStat = n }
