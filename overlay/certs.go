package main

import (
	"os"

	"github.com/si-co/vpir-code/lib/utils"
)

// the certificate of the servers of the driver
func init() {
	if f := os.Getenv("VERIF_CERT"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for i := range utils.ServerPublicKeys {
			utils.ServerPublicKeys[i] = string(b)
		}
	}
}
