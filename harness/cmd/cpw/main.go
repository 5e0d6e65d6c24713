// cpw writes a database as a checkpoint: cpw DBFILE DIR.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"verif/harness/cpdb"
)

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	d := &cpdb.DB{}
	if err := json.Unmarshal(b, d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	if err := d.Write(os.Args[2]); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(3)
	}
}
