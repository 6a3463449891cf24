// Command verif decides the properties by static analysis of /repo.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verif.local/tool/chk"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif PROPERTY [quick|thorough]")
		os.Exit(2)
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	repo, verif := os.Getenv("VERIF_REPO"), os.Getenv("VERIF_DIR")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	if os.Args[1] == "list" {
		var l []string
		for id := range chk.Checks {
			l = append(l, id)
		}
		sort.Strings(l)
		for _, id := range l {
			fmt.Println(id)
		}
		return
	}
	if os.Args[1] == "all" {
		var l []string
		for id := range chk.Checks {
			l = append(l, id)
		}
		sort.Strings(l)
		s := 0
		for _, id := range l {
			r := chk.Run(id, tier, repo, verif)
			fmt.Println(id, r)
			if r != 0 {
				s = 1
			}
		}
		os.Exit(s)
	}
	if os.Args[1] == "names" {
		// records the names of the unexported declarations
		chk.WriteNames(repo, verif)
		return
	}
	if os.Args[1] == "some" {
		// for experiments: verif some C01,C02 stops at the first violation
		chk.Share = true
		for _, id := range strings.Split(tier, ",") {
			if r := chk.Run(id, "quick", repo, verif); r != 0 {
				fmt.Println("FIRST", id, r)
				os.Exit(r)
			}
		}
		os.Exit(0)
	}
	os.Exit(chk.Run(os.Args[1], tier, repo, verif))
}
