//go:build !race

package pbt

const raceBuild = false
