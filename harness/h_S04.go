//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

type s04req struct {
	staker string
	c      math.LegacyDec
	at     int64
}

// H_S04_commission: requests of any validators for any commission at any times, any notice period.
func H_S04_commission() {
	n := 3
	if vs.Thorough() {
		n = 5
	}
	w := stakersWorld(2, 1)
	notice := vs.U64("notice", 0, 1_000_000_000)
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(notice, 7))
	cur := map[string]math.LegacyDec{STAKER0: dec("0.1"), STAKER1: dec("0.1")}
	var pending []s04req
	t := int64(1_700_000_000)
	block := func() {
		w.stakersBlock(t)
		var rest []s04req
		for _, r := range pending {
			if vs.Fork(le(add(vs.I64Big(r.at), bi(notice)), vs.I64Big(t))) {
				cur[r.staker] = r.c
			} else {
				rest = append(rest, r)
			}
		}
		pending = rest
		for _, s := range STAKERS[:2] {
			vs.Assert(w.Stakers.GetCommission(w.Ctx, s).Equal(cur[s]), "commission is the one requested last whose notice has passed")
		}
		vs.Assert(len(w.Stakers.GetAllCommissionChangeEntries(w.Ctx)) == len(pending), "one pending change per validator")
	}
	for i := 0; i < n; i++ {
		t += vs.I64(nm("dt%d", i), 0, 1_500_000_000)
		if vs.Choose(nm("block%d", i), 2) == 1 {
			block() // requests of a block come after its begin blocker
		} else {
			w.At(w.Ctx.BlockHeight(), t)
		}
		k, lo, hi := 3, "-1000000000000000000", "2000000000000000000"
		if i > 0 && !vs.Thorough() {
			k, lo, hi = 2, "0", "1000000000000000000"
		}
		s := []string{STAKER0, STAKER1, STAKER3}[vs.Choose(nm("who%d", i), k)]
		c := vs.Dec(nm("c%d", i), lo, hi)
		m := &stakerstypes.MsgUpdateCommission{Creator: s, Commission: c}
		e := w.Tx(func(ctx sdk.Context) error {
			if e := m.ValidateBasic(); e != nil {
				return e
			}
			_, e := smsg(w).UpdateCommission(ctx, m)
			return e
		})
		good := vs.And(le(big.NewInt(0), c.BigInt()), le(c.BigInt(), one18))
		if e != nil {
			vs.Assert(vs.Or(s == STAKER3, vs.Not(good)), "an admissible request is accepted")
			vs.Reach("rejected")
		} else {
			vs.Assert(vs.And(s != STAKER3, good), "only registered validators, only between 0 and 100 percent")
			var rest []s04req
			for _, r := range pending {
				if r.staker != s {
					rest = append(rest, r)
				}
			}
			pending = append(rest, s04req{s, c, t})
		}
		for _, s := range STAKERS[:2] {
			vs.Assert(w.Stakers.GetCommission(w.Ctx, s).Equal(cur[s]), "a request alone changes nothing")
		}
	}
	t += vs.I64("last", 0, 1_500_000_000)
	block()
	t += 1_000_000_000
	block()
	vs.Assert(len(pending) == 0, "every pending change takes effect in the end")
	vs.Reach("end")
}
