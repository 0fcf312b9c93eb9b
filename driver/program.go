package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
)

// Step is one call on the library.  Registers are 1-based indices into the
// program's heap of values; variables are 1-based indices into the program's
// variable table.
type Step struct {
	Op string   `json:"op"`
	S  string   `json:"s,omitempty"` // method name, conversion, sense, ...
	A  []int    `json:"a,omitempty"` // operand registers
	N  []int    `json:"n,omitempty"` // integer arguments
	V  []int    `json:"v,omitempty"` // variable arguments
	M  [][2]int `json:"m,omitempty"` // substitution map: variable -> register
	F  *[2]int  `json:"f,omitempty"` // dyadic argument
	O  int      `json:"o,omitempty"` // first register of the result
	// Same: register holding the answer to the same request made earlier
	Same int `json:"same,omitempty"`
	Mk   *Mk `json:"mk,omitempty"`
	// Par: calls made from several goroutines at once (Op "par")
	Par []Step `json:"par,omitempty"`
}

// Mk describes a value built from a literal.
type Mk struct {
	K   string     `json:"k"`
	R   int        `json:"r"`
	C   int        `json:"c"`
	E   [][]TermMk `json:"e"`             // entries, row major
	Bad string     `json:"bad,omitempty"` // malformation to plant
	At  int        `json:"at,omitempty"`  // entry index of the malformation
	Cap int        `json:"cap,omitempty"` // 1: build slices with spare capacity inside shared arrays
}

// TermMk: coefficient n/2^k and factors [variable, exponent].
type TermMk struct {
	C [2]int   `json:"c"`
	F [][2]int `json:"f"`
}

// VarMk describes a variable of the program's table.
type VarMk struct {
	Env  int    `json:"env"` // -1: the default environment, 0: none
	ID   uint64 `json:"id"`
	Kind string `json:"kind"`
	Name string `json:"name"`
	B    int    `json:"b"` // bounds: 0 default for the kind, 1: [-1,1], 2: [0,10]
}

// Program is a variable table and a list of steps.
type Program struct {
	P     int      `json:"p"`
	Fam   string   `json:"fam"`
	NEnv  int      `json:"nenv"`
	EnvT  []string `json:"envt,omitempty"` // kinds of the environments: "", "own-", "emb-"
	Wide  string   `json:"wide,omitempty"` // see setLimits
	Vars  []VarMk  `json:"vars"`
	Steps []Step   `json:"steps"`
}

// ReadPrograms reads ndjson, one program per line.
func ReadPrograms(path string) ([]Program, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []Program
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		var p Program
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
		out = append(out, p)
	}
	return out, sc.Err()
}
