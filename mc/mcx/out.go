package mcx

import "os"

// Out is where checks report.
var Out = os.Stdout

// Quiet drops what the code under test prints.
func Quiet() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}
