package main

import (
	"os"

	"verif/absint"
)

func main() { os.Exit(absint.Main()) }
