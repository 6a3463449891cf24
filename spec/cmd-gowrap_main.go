package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"

	"github.com/hexdigest/gowrap"
	"github.com/hexdigest/gowrap/loader"
)

// Reference definitions of the command line.

var errSpec = errors.New("some error")

func specDie(code int, format string, args ...interface{}) {
	if _, err := fmt.Fprintf(os.Stderr, format+"\n", args...); err != nil {
		os.Exit(1)
	}
	os.Exit(code)
}

func specHelp(args []string, w io.Writer) error {
	if len(args) > 1 {
		return errSpec
	}
	if len(args) == 0 {
		return gowrap.Usage(w)
	}
	c := gowrap.GetCommand(args[0])
	if c == nil {
		return errSpec
	}
	if _, err := fmt.Fprintf(w, "Usage: gowrap %s %s\n", args[0], c.UsageLine()); err != nil {
		return err
	}
	if set := c.FlagSet(); set != nil {
		set.SetOutput(w)
		set.PrintDefaults()
	}
	return c.HelpMessage(w)
}

func specMain() {
	if len(os.Args) < 2 {
		if err := gowrap.Usage(os.Stderr); err != nil {
			specDie(1, "%s", err.Error())
		}
		os.Exit(2)
	}
	flag.CommandLine.Usage = func() { specDie(2, "Run 'gowrap help' for usage.") }
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		specDie(2, "Run 'gowrap help' for usage.")
	}
	if args[0] == "help" {
		if err := specHelp(args[1:], os.Stdout); err != nil {
			specDie(2, "%s", err.Error())
		}
		return
	}
	c := gowrap.GetCommand(args[0])
	if c == nil {
		specDie(2, "gowrap: unknown subcommand %q\nRun 'gowrap help' for usage.", args[0])
	}
	err := c.Run(args[1:], os.Stdout)
	if err == nil {
		return
	}
	if _, ok := err.(gowrap.CommandLineError); ok {
		specDie(2, "%s\nRun 'gowrap help %s' for usage.\n", err.Error(), args[0])
	}
	specDie(1, "%s", err.Error())
}

// rootStart is what happens before the start of the main function.
func rootStart() {}

func specStart() {
	remote := loader.New(nil)
	gowrap.RegisterCommand("gen", gowrap.NewGenerateCommand(remote))
	gowrap.RegisterCommand("template", gowrap.NewTemplateCommand(remote))
}
