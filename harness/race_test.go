//go:build race

package harness

const raceOn = true // everything takes ten times as long
