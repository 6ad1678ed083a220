// The program with the options for the alert rate, which have no flags, and an endpoint for reports of errors.
package main

import (
	"fmt"
	"os"

	"github.com/BTBurke/monny/pkg/monny"
	"github.com/stvp/rollbar"
)

func main() {
	if e := os.Getenv("VERIF_ENDPOINT"); e != "" {
		rollbar.Endpoint = e
	}
	usercmd, opts, err := monny.ParseCommandLine()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if q := os.Getenv("VERIF_QTY"); q != "" {
		opts = append(opts, monny.RuleQuantity(q))
	}
	if p := os.Getenv("VERIF_PER"); p != "" {
		opts = append(opts, monny.RulePeriod(p))
	}
	cmd, errs := monny.New(usercmd, opts...)
	if len(errs) > 0 {
		fmt.Println(errs)
		os.Exit(1)
	}
	if err := cmd.Exec(); err != nil {
		fmt.Println("Process error:", err)
		os.Exit(1)
	}
	if err := cmd.Wait(); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	os.Exit(0)
}
