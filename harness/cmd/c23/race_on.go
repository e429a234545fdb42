//go:build race
// +build race

package main

const raceOn = true
