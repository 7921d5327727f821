package oauth2

// Harness runtime. Under the symbolic engine every vf* primitive below is
// intercepted; these native bodies are used to replay concrete assignments
// against the real build.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type vfState struct {
	in      map[string]interface{}
	names   map[string]int
	reached map[string]bool
	notes   []string
	failed  []string
	missing []string
	tier    string
	jitter  bool
	mu      sync.Mutex
}

var vfS = &vfState{in: map[string]interface{}{}, names: map[string]int{}, reached: map[string]bool{}}

type vfAbort struct{ why string }

func vfKey(n string) string {
	k := vfS.names[n]
	vfS.names[n]++
	return fmt.Sprintf("%s#%d", n, k)
}

func vfGet(n string) interface{} {
	k := vfKey(n)
	v, ok := vfS.in[k]
	if !ok {
		vfS.missing = append(vfS.missing, k)
	}
	return v
}

func vfNum(v interface{}) int {
	switch v := v.(type) {
	case float64:
		return int(v)
	case json.Number:
		i, _ := v.Int64()
		return int(i)
	}
	return 0
}

func vfBool(name string) bool {
	b, _ := vfGet(name).(bool)
	return b
}

func vfByte(name string) byte { return byte(vfNum(vfGet(name))) }

func vfInt(name string, lo, hi int) int {
	v := vfGet(name)
	if v == nil {
		return lo
	}
	return vfNum(v)
}

func vfChoice(name string, n int) int { return vfNum(vfGet(name)) }

func vfRaw(name string, min int) []byte {
	s, ok := vfGet(name).(string)
	if !ok {
		return make([]byte, min)
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func vfString(name string, min, max int) string { return string(vfRaw(name, min)) }

func vfStringIn(name string, min, max int, charset string) string { return string(vfRaw(name, min)) }

func vfBytes(name string, n int) []byte { return vfRaw(name, n) }

func vfAssume(c bool) {
	if !c {
		panic(vfAbort{"assume"})
	}
}

func vfAssert(c bool, id string) {
	if !c {
		vfS.mu.Lock()
		vfS.failed = append(vfS.failed, id)
		vfS.mu.Unlock()
		panic(vfAbort{"assert " + id})
	}
}

func vfReach(l string)   { vfS.reached[l] = true }
func vfNote(k, v string) { vfS.notes = append(vfS.notes, k+"="+hex.EncodeToString([]byte(v))) }
func vfThorough() bool   { return vfS.tier == "thorough" }
func vfNative() bool     { return true }

// vfAdvance moves the clock; natively this runs inside a testing/synctest
// bubble, where sleeping is instantaneous.
func vfAdvance(seconds int) { time.Sleep(time.Duration(seconds) * time.Second) }

func vfMapOrder(all bool) {}
func vfPreempt(n int)     {}
func vfCTCompares() int   { return 1 }

// vfJitter perturbs the scheduler at harness-controlled points of a
// concurrent replay.
func vfJitter() {
	if vfS.jitter {
		runtime.Gosched()
	}
}

func vfConcurrent(fs ...func()) {
	vfS.jitter = true
	var wg sync.WaitGroup
	wg.Add(len(fs))
	start := make(chan struct{})
	run := func(f func()) {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vfAbort); ok {
					return
				}
				vfS.mu.Lock()
				vfS.failed = append(vfS.failed, "no-panic")
				vfS.mu.Unlock()
			}
		}()
		<-start
		f()
	}
	for _, f := range fs {
		go run(f)
	}
	close(start)
	wg.Wait()
	vfS.jitter = false
}

func vfJSONTop(b []byte) map[string]interface{} {
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func vfJSONStr(b []byte, key string) (string, bool) {
	s, ok := vfJSONTop(b)[key].(string)
	return s, ok
}

func vfJSONInt(b []byte, key string) (int, bool) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var m map[string]interface{}
	if d.Decode(&m) != nil {
		return 0, false
	}
	n, ok := m[key].(json.Number)
	if !ok {
		return 0, false
	}
	i, err := n.Int64()
	return int(i), err == nil
}

func vfJSONBool(b []byte, key string) (bool, bool) {
	v, ok := vfJSONTop(b)[key].(bool)
	return v, ok
}

func vfJSONKeys(b []byte) string {
	m := vfJSONTop(b)
	if m == nil {
		return "!"
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
