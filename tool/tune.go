package main

import (
	"os"
	"strconv"
)

var widenAt = func() int {
	if v, err := strconv.Atoi(os.Getenv("VERIF_WIDEN")); err == nil {
		return v
	}
	return 1
}()
