//go:build !race

package harness

const raceOn = false
