package main

import (
	"encoding/json"
	"runtime"
)

func stack(b []byte) int { return runtime.Stack(b, true) }

// plan returns the model checker's plan for this session, or nil for a random session.
func (c *ctx) plan(v any) bool {
	if len(rawPlans) <= c.i {
		return false
	}
	if err := json.Unmarshal(rawPlans[c.i], v); err != nil {
		panic(err)
	}
	return true
}

func ints(b []byte) []int {
	v := make([]int, len(b))
	for i, x := range b {
		v[i] = int(x)
	}
	return v
}

func u16s(b []byte) []int {
	v := []int{}
	for i := 0; i+1 < len(b); i += 2 {
		v = append(v, int(b[i])<<8|int(b[i+1]))
	}
	return v
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func uniq(v []int) []int {
	m := map[int]bool{}
	for _, x := range v {
		m[x] = true
	}
	return sortedSet(m)
}

func jsonInto(b json.RawMessage, v any) {
	if err := json.Unmarshal(b, v); err != nil {
		panic(err)
	}
}

func uniqStr(v []string) []string {
	seen, l := map[string]bool{}, []string{}
	for _, s := range v {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	return l
}
