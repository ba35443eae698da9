//go:build race

package zvjindo

const raceOn = true
