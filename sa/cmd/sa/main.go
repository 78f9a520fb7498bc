// Command sa runs the repository-specific static checks.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"verif/sa/checks"
	"verif/sa/eng"
)

func main() {
	defer func() { stopProf() }()
	repo, verif := "/repo", "/verif"
	if v := os.Getenv("SA_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("SA_VERIF"); v != "" {
		verif = v
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: sa check ID | list | dump FUNC | ls")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		code := checks.Execute(os.Args[2], repo, verif)
		stopProf()
		os.Exit(code)
	case "list":
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
	case "meta":
		for _, id := range checks.IDs() {
			k := checks.Registry[id]
			b, _ := json.Marshal(map[string]interface{}{"id": id, "title": k.Title, "level": k.Level, "rule": k.Rule, "tech": k.Tech, "note": k.Note, "assume": k.Assume})
			fmt.Println(string(b))
		}
	default:
		p, err := eng.Load(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, fn := range p.Funcs {
			n := eng.ShortName(fn)
			if os.Args[1] == "ls" {
				fmt.Println(n)
				continue
			}
			if n != os.Args[2] {
				continue
			}
			in := eng.NewInterp(p, nil)
			for i, x := range in.Run(fn) {
				fmt.Printf("--- exit %d %s %v\n", i, x.Kind, x.Res)
				for _, f := range x.Facts.List() {
					fmt.Println("   fact", f)
				}
				for _, e := range x.Ev.List() {
					if (e.Kind == "load" || e.Kind == "ob" || e.Kind == "enter") && os.Args[1] != "dumpall" {
						continue
					}
					s := fmt.Sprintf("   ev %s %s args=%v res=%v val=%v", e.Kind, e.Name, e.Args, e.Res, e.Val)
					fmt.Println(strings.ReplaceAll(s, "github.com/ahKevinXy/go-web-tools/", ""))
				}
			}
			fmt.Println("incomplete", in.Incomplete)
		}
	}
}
