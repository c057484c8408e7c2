package raml

// Verification runtime: nondeterministic inputs and assertions.
// The symbolic engine intercepts the nd*/v* functions by name; compiled natively they
// read recorded inputs, so that every counterexample is replayed against the real build.

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

const vThorough = false

type vCase struct {
	Harness string `json:"harness"`
	Inputs  []struct {
		K string `json:"k"`
		V string `json:"v"`
	} `json:"inputs"`
	Times int `json:"times"`
}

type vResult struct {
	Result string   `json:"result"`
	Reach  []string `json:"reach"`
	Obs    []string `json:"obs"`
}

type vStop struct{ what string }

var (
	vCur  *vCase
	vPos  int
	vRes  *vResult
	vBase string
)

func vNext(kind string) string {
	if vPos >= len(vCur.Inputs) {
		panic(vStop{"inputs exhausted"})
	}
	in := vCur.Inputs[vPos]
	vPos++
	if in.K != kind {
		panic(vStop{"input kind mismatch: want " + kind + " have " + in.K})
	}
	return in.V
}

func ndBool(name string) bool { return vNext("bool") == "true" }
func ndInt(name string) int64 {
	i, _ := strconv.ParseInt(vNext("int"), 10, 64)
	return i
}
func ndUint(name string) uint64 {
	i, _ := strconv.ParseUint(vNext("uint"), 10, 64)
	return i
}
func ndFloat(name string) float64 {
	u, _ := strconv.ParseUint(vNext("float"), 16, 64)
	return math.Float64frombits(u)
}
func ndByte(name string) byte {
	i, _ := strconv.ParseUint(vNext("uint"), 10, 64)
	return byte(i)
}
func ndChoice(n int, name string) int {
	if n <= 1 {
		vNext("choice")
		return 0
	}
	i, _ := strconv.Atoi(vNext("choice"))
	return i
}
func vUnq(s string) string {
	if strings.HasPrefix(s, "hex:") {
		b, _ := hex.DecodeString(s[4:])
		return string(b)
	}
	r, err := strconv.Unquote(s)
	if err != nil {
		panic(vStop{"bad string input " + s})
	}
	return r
}
func ndStr(max int) string     { return vUnq(vNext("str")) }
func ndStrN(n int) string      { return vUnq(vNext("str")) }
func ndAtom(maxLen int) string { return vUnq(vNext("atom")) }
func ndPattern() string        { return vNext("pattern") }

// vPlace renders a value as a YAML scalar.
func vPlace(x any) string {
	switch v := x.(type) {
	case int64:
		return strconv.FormatInt(v, 10)
	case int:
		return strconv.Itoa(v)
	case uint64:
		return strconv.FormatUint(v, 10)
	case bool:
		return strconv.FormatBool(v)
	case string:
		return strconv.QuoteToASCII(v)
	case float64:
		s := strconv.FormatFloat(v, 'g', -1, 64)
		switch s {
		case "NaN":
			return ".nan"
		case "+Inf":
			return ".inf"
		case "-Inf":
			return "-.inf"
		}
		if strings.ContainsAny(s, ".e") {
			return s
		}
		return s + ".0"
	}
	panic(vStop{fmt.Sprintf("vPlace %T", x)})
}

func vAssume(b bool) {
	if !b {
		panic(vStop{"assume"})
	}
}
func vAssert(b bool, label string) {
	if !b {
		panic(vStop{"assert:" + label})
	}
}
func vReach(label string)      { vRes.Reach = append(vRes.Reach, label) }
func vObs(label string, v any) { vRes.Obs = append(vRes.Obs, fmt.Sprintf("%s=%v", label, v)) }
func vAnd(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}
func vOr(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}
func vIff(a, b bool) bool { return a == b }
func vMapOrder(on bool)   {}
func vDir() string        { return vBase }
func vFile(name, content string) {
	p := filepath.Join(vBase, name)
	if !strings.HasPrefix(p, vBase) {
		panic(vStop{"file outside scratch"})
	}
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		panic(vStop{"write " + err.Error()})
	}
}

// vCatch runs f and reports whether it panicked.
func vCatch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}

func vRunOne(c *vCase, f func()) (res *vResult) {
	vCur, vPos = c, 0
	res = &vResult{Reach: []string{}, Obs: []string{}}
	vRes = res
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case")
	if err != nil {
		res.Result = "setup: " + err.Error()
		return res
	}
	vBase = dir
	defer os.RemoveAll(dir)
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vStop); ok {
				res.Result = s.what
				return
			}
			res.Result = fmt.Sprintf("panic:%v", r)
		}
	}()
	f()
	res.Result = "ok"
	return res
}

// VerifReplayMain replays recorded inputs, one JSON case per line.
func VerifReplayMain() {
	debug.SetMaxStack(64 << 20)
	go func() {
		for {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapSys > 4<<30 {
				fmt.Fprintln(os.Stderr, "fatal error: the heap exceeds 4 GB")
				os.Exit(3)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}()
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if err != nil {
			return
		}
		var c vCase
		if err := json.Unmarshal([]byte(line), &c); err != nil {
			fmt.Println(`{"result":"bad case"}`)
			continue
		}
		f := vHarnesses[c.Harness]
		var res *vResult
		if f == nil {
			res = &vResult{Result: "unknown harness"}
		} else {
			n := c.Times
			if n < 1 {
				n = 1
			}
			for i := 0; i < n; i++ {
				res = vRunOne(&c, f)
				if res.Result != "ok" {
					break
				}
			}
		}
		b, _ := json.Marshal(res)
		os.Stdout.Write(append(b, '\n'))
	}
}

var vHarnesses = map[string]func(){}

func vReg(name string, f func()) bool { vHarnesses[name] = f; return true }
