package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"time"

	"verif/harness/fw"
	_ "verif/harness/props"
)

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad number", s)
		os.Exit(2)
	}
	return n
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vf check PROP | replay FILE | list")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "worker":
		debug.SetMemoryLimit(3 << 29)
		os.Stdout = os.NewFile(uintptr(mustDevNull()), "/dev/null")
		fw.WorkerMain(os.Args[2])
	case "shard":
		a := os.Args[2:]
		runtime.GOMAXPROCS(2)
		err := fw.ShardMain(a[0], a[1], atoi(a[2]), atoi(a[3]), atoi(a[4]), time.Duration(atoi(a[5]))*time.Second, time.Duration(atoi(a[6]))*time.Second, a[7], a[8], a[9])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "check":
		cfg := fw.Config{Verif: verif, Prop: os.Args[2], Tier: os.Getenv("VERIF_TIER"), Shards: 8}
		if s := os.Getenv("VERIF_DEV_SHARDS"); s != "" {
			cfg.Shards = atoi(s)
		}
		if cfg.Tier == "" {
			cfg.Tier = "quick"
		}
		cfg.Seed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			cfg.Seed = atoi(s)
		}
		if len(os.Args) > 3 {
			cfg.Only = os.Args[3]
		}
		cfg.Evidence = verif + "/evidence/" + cfg.Prop + ".json"
		os.Exit(fw.DriverMain(cfg))
	case "replay":
		f, err := fw.ReadReplay(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dir, err := os.MkdirTemp("", "vf-replay-")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		n := 1
		if len(os.Args) > 3 {
			n = atoi(os.Args[3])
		}
		cl := fw.NewClient(dir)
		bad := false
		for i := 0; i < n; i++ {
			v := cl.Do(f.Property, f.Sub, f.Case)
			b, _ := json.MarshalIndent(v.Classes, "", " ")
			fmt.Println("fail:", v.Fail, "\ninfra:", v.Infra, "\nclasses:", string(b))
			bad = bad || v.Fail != ""
		}
		cl.Stop()
		os.RemoveAll(dir)
		if bad {
			os.Exit(1)
		}
	case "list":
		var ids []string
		for id := range fw.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	}
}

func mustDevNull() int {
	f, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		os.Exit(2)
	}
	return int(f.Fd())
}
