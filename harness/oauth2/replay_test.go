package oauth2

// Native replay of concrete assignments found by the symbolic engine.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"testing"
	"testing/synctest"
)

type vfItem struct {
	Harness string                 `json:"harness"`
	Tier    string                 `json:"tier"`
	Inputs  map[string]interface{} `json:"inputs"`
	Want    string                 `json:"want"`
	Repeat  int                    `json:"repeat"`
}

type vfResult struct {
	Index   int      `json:"index"`
	Runs    int      `json:"runs"`
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Abort   string   `json:"abort"`
	Reached []string `json:"reached"`
	Notes   []string `json:"notes"`
	Missing []string `json:"missing"`
	Done    bool     `json:"done"`
}

func vfRunOne(t *testing.T, it vfItem, res *vfResult) {
	vfS.mu.Lock()
	vfS.in, vfS.names, vfS.reached = it.Inputs, map[string]int{}, map[string]bool{}
	vfS.notes, vfS.failed, vfS.missing, vfS.tier, vfS.jitter = nil, nil, nil, it.Tier, false
	vfS.mu.Unlock()
	oldRand := randSource
	defer func() { randSource = oldRand }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(vfAbort); ok {
					res.Abort = a.why
					return
				}
				res.Panic = fmt.Sprint(r)
				if os.Getenv("VF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
				}
			}
		}()
		f := vfRegistry[it.Harness]
		if f == nil {
			res.Abort = "no such harness"
			return
		}
		f()
		res.Done = true
	}()
	res.Failed = vfS.failed
	res.Notes = vfS.notes
	res.Missing = vfS.missing
	res.Reached = nil
	for k := range vfS.reached {
		res.Reached = append(res.Reached, k)
	}
	sort.Strings(res.Reached)
}

func vfHas(l []string, s string) bool {
	for _, i := range l {
		if i == s {
			return true
		}
	}
	return false
}

func TestVfReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VF_REPLAY"))
	if err != nil {
		t.Fatal(err)
	}
	var items []vfItem
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	if err := dec.Decode(&items); err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(os.Getenv("VF_RESULT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	for i, it := range items {
		n := it.Repeat
		if n == 0 {
			n = 1
		}
		var res vfResult
		for k := 0; k < n; k++ {
			res = vfResult{Index: i, Runs: k + 1}
			synctest.Test(t, func(t *testing.T) { vfRunOne(t, it, &res) })
			if it.Want != "" && (vfHas(res.Failed, it.Want) || it.Want == "no-panic" && res.Panic != "") {
				break
			}
		}
		rb, _ := json.Marshal(res)
		fmt.Fprintf(out, "%s\n", rb)
	}
}
