package hx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
)

// Listed tells whether the known-findings file lists this finding as open.
func Listed(prop, id string) bool {
	f, err := os.Open(os.Getenv("HX_KNOWN"))
	if err != nil {
		return false
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var e struct{ Property, ID, Status string }
		if json.Unmarshal(sc.Bytes(), &e) == nil && e.Property == prop && e.ID == id && e.Status == "known" {
			return true
		}
	}
	return false
}

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// Tier is "quick" or "thorough".
func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// EnvInt reads an integer set by the runner.
func EnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Keys returns the keys of a map in order.
func Keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
