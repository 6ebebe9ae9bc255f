package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym explore|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		root := fs.String("root", "/verif", "")
		repo := fs.String("repo", "/repo", "")
		id := fs.String("property", "", "")
		tier := fs.String("tier", "quick", "")
		only := fs.String("fn", "", "only this harness function")
		w := fs.Int("w", 8, "workers")
		v := fs.Bool("v", false, "verbose")
		fs.BoolVar(&stopFirst, "first", false, "stop at the first violation")
		fs.Parse(os.Args[2:])
		os.Exit(runCheck(*root, *repo, *id, *tier, *w, *v, *only))
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		root := fs.String("root", "/verif", "")
		repo := fs.String("repo", "/repo", "")
		fs.Parse(os.Args[2:])
		os.Exit(runReplay(*root, *repo, fs.Arg(0)))
	case "prep":
		fs := flag.NewFlagSet("prep", flag.ExitOnError)
		out := fs.String("o", "", "output directory")
		root := fs.String("root", "/verif", "")
		repo := fs.String("repo", "/repo", "")
		fs.Parse(os.Args[2:])
		s, err := Prepare(*repo, *root, *out, fs.Args())
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Println(s.Gev, s.Notes)
	case "explore":
		fs := flag.NewFlagSet("explore", flag.ExitOnError)
		dir := fs.String("dir", ".", "module directory")
		pkg := fs.String("pkg", "", "package")
		fn := fs.String("fn", "", "entry")
		v := fs.Bool("v", false, "verbose")
		n := fs.Int("w", 8, "workers")
		mp := fs.Int64("paths", 0, "max paths")
		tm := fs.Duration("time", 60*time.Second, "max time")
		fs.Parse(os.Args[2:])
		t0 := time.Now()
		P, err := loadProgram(*dir, []string{*pkg})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		e := P.pkgs[*pkg].Func(*fn)
		if e == nil {
			fmt.Fprintln(os.Stderr, "no function")
			os.Exit(2)
		}
		ex := NewExplorer(P, e, Config{Workers: *n, MaxPaths: *mp, MaxTime: *tm, MaxSteps: 20000000, QueryMS: 5000, MaxViol: 2, Samples: 4, Verbose: *v})
		ex.Run()
		fmt.Print(ex.Summary())
	}
}
