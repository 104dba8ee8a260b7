// Command hclmon runs the monitored workload of one property.
//
//	hclmon check ID [CASE]      supervise a run; VERIF_SEED and VERIF_TIER apply
//	hclmon show ID CASE         run one case in this process and print its inputs
//	hclmon list
package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"

	"verif/harness/mon"
	"verif/harness/props"
)

var findingRe = regexp.MustCompile(`^finding: property=(\S+) name=(\S+)`)

func known(root, prop string) map[string]bool {
	ret := map[string]bool{}
	f, err := os.Open(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return ret
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		if m := findingRe.FindStringSubmatch(sc.Text()); m != nil && m[1] == prop {
			ret[m[2]] = true
		}
	}
	return ret
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: hclmon check|show|worker|list ...")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	args := os.Args[2:]
	find := func() *mon.Prop {
		if len(args) > 0 {
			for _, p := range props.All {
				if p.ID == args[0] {
					return p
				}
			}
		}
		fmt.Fprintln(os.Stderr, "hclmon: unknown property")
		os.Exit(2)
		return nil
	}
	var seed uint64 = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			if i, err2 := strconv.ParseInt(s, 10, 64); err2 == nil {
				n = uint64(i)
			} else {
				fmt.Fprintln(os.Stderr, "hclmon: VERIF_SEED:", err)
				os.Exit(2)
			}
		}
		seed = n
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props.All {
			fmt.Println(p.ID, p.Quick, p.Race)
		}
	case "check":
		p := find()
		only := -1
		if len(args) > 1 {
			only = atoi(args[1])
		}
		exe, err := os.Executable()
		if err != nil {
			fmt.Fprintln(os.Stderr, "hclmon:", err)
			os.Exit(2)
		}
		if p.Race {
			exe += ".race"
		}
		os.Exit(mon.Supervise(p, exe, seed, tier, root, only))
	case "show":
		p := find()
		dir, err := os.MkdirTemp("", "hclmon-")
		if err != nil {
			panic(err)
		}
		f, _ := os.Create(filepath.Join(dir, "slots"))
		f.Truncate(64 * 8)
		f.Close()
		i := atoi(args[1])
		if err := mon.WorkerMain(p, seed, tier, i, i+1, dir, known(root, p.ID), true); err != nil {
			fmt.Println(err)
		}
		buf, _ := os.ReadFile(filepath.Join(dir, "result.json"))
		fmt.Println(string(buf))
		os.RemoveAll(dir)
	case "worker":
		p := find()
		s, _ := strconv.ParseUint(args[1], 10, 64)
		if err := mon.WorkerMain(p, s, args[2], atoi(args[3]), atoi(args[4]), args[5], known(root, p.ID), false); err != nil {
			fmt.Fprintln(os.Stderr, "hclmon:", err)
			os.Exit(3)
		}
	default:
		os.Exit(2)
	}
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, "hclmon:", err)
		os.Exit(2)
	}
	return n
}
