package worker

import (
	_ "embed"
	"encoding/json"
	"os"
)

// Golden is a share set produced by the original release.
type Golden struct {
	API    string   `json:"api"`
	N      int      `json:"n"`
	K      int      `json:"k"`
	Secret []byte   `json:"secret"`
	Shares [][]byte `json:"shares"`
}

//go:embed golden.json
var goldenJSON []byte
var goldenSets []Golden

func goldens() []Golden {
	if goldenSets == nil {
		if err := json.Unmarshal(goldenJSON, &goldenSets); err != nil {
			panic(err)
		}
	}
	return goldenSets
}

func readPlan(path string) (*Plan, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var rf struct {
		Plan *Plan `json:"plan"`
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		return nil, err
	}
	return rf.Plan, nil
}
