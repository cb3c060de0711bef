package main

import (
	"encoding/json"
	"fmt"
	"os"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

var harnesses = map[string]func(){}

type request struct {
	Harness  string            `json:"harness"`
	Values   map[string]string `json:"values"`
	Thorough bool              `json:"thorough"`
}

type response struct {
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Stopped string   `json:"stopped"`
	Obs     []string `json:"obs"`
	OK      bool     `json:"ok"`
}

func main() {
	var rq request
	if err := json.NewDecoder(os.Stdin).Decode(&rq); err != nil {
		panic(err)
	}
	cfg := sdk.GetConfig()
	cfg.SetBech32PrefixForAccount("kyve", "kyvepub")
	cfg.SetBech32PrefixForValidator("kyvevaloper", "kyvevaloperpub")
	vs.Values = rq.Values
	vs.Thor = rq.Thorough
	var rs response
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(vs.Stop); ok {
					rs.Stopped = s.Why
					return
				}
				rs.Panic = fmt.Sprint(r)
			}
		}()
		h := harnesses[rq.Harness]
		if h == nil {
			panic("unknown harness " + rq.Harness)
		}
		h()
		rs.OK = true
	}()
	rs.Failed = vs.Failed
	rs.Obs = vs.Obs
	b, _ := json.Marshal(rs)
	fmt.Println(string(b))
}
