//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_S07_power: any memberships and stakes, with a slash, an unbonding or a leave in between.
func H_S07_power() {
	w := stakersWorld(3, 3)
	n := 3
	mem := make([]int, n)
	kinds := 4
	if vs.Thorough() {
		kinds = 5
	}
	for i := 0; i < n; i++ {
		mem[i] = vs.Choose(nm("member%d", i), kinds) // in no pool, pool 0, pool 2, pools 0 and 2, pool 1
		if mem[i] == 1 || mem[i] == 3 {
			w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKERS[i], VALSA[i])
		}
		if mem[i] == 2 || mem[i] == 3 {
			w.Stakers.AddValaccountToPool(w.Ctx, 2, STAKERS[i], VALSB[i])
		}
		if mem[i] == 4 {
			w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKERS[i], VALSB[i])
		}
	}
	w.mustDelegate(ALICE, STAKER0, vs.U64("a0", 0, stakeCap))
	w.mustDelegate(ALICE, STAKER1, vs.U64("a1", 0, stakeCap))
	w.mustDelegate(BOB, STAKER0, vs.U64("b0", 0, stakeCap))
	w.mustDelegate(BOB, STAKER2, vs.U64("b2", 1, stakeCap))
	switch vs.Choose("event", 4) {
	case 1:
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	case 2:
		w.Stakers.LeavePool(w.Ctx, STAKER0, 0)
		if mem[0] == 1 {
			mem[0] = 0
		} else if mem[0] == 3 {
			mem[0] = 2
		}
	case 3:
		_ = w.redelegate(BOB, STAKER2, STAKER1, vs.U64("moved", 1, stakeCap))
	}
	total := bi(0)
	count := 0
	for i := 0; i < n; i++ {
		if mem[i] > 0 {
			total = add(total, w.total(STAKERS[i]))
			count++
		}
	}
	vs.Assert(eq(w.Stakers.TotalBondedTokens(w.Ctx).BigInt(), total), "total power is the stake of active validators, each counted once")
	vals := w.Stakers.GetActiveValidators(w.Ctx)
	vs.Assert(len(vals) == count, "the active validators are those in some pool")
	seen := map[string]bool{}
	powers := bi(0)
	for _, v := range vals {
		i := v.(govv1.ValidatorGovInfo)
		a := sdk.AccAddress(i.Address).String()
		vs.Assert(!seen[a], "each validator once")
		seen[a] = true
		for k, s := range STAKERS[:n] {
			if s == a {
				vs.Assert(mem[k] > 0, "only validators in some pool")
			}
		}
		vs.Assert(eq(i.BondedTokens.BigInt(), w.total(a)), "a validator's power is its stake")
		vs.Assert(eq(i.DelegatorShares.BigInt(), mul(w.total(a), one18)), "a validator's shares are its stake")
		vs.Assert(i.DelegatorDeductions.IsZero(), "no deductions yet")
		powers = add(powers, i.BondedTokens.BigInt())
	}
	vs.Assert(eq(powers, total), "powers add up to the total")
	votes := bi(0)
	for _, u := range []string{ALICE, BOB, CHARLIE} {
		v, a := w.Stakers.GetDelegations(w.Ctx, u)
		vs.Assert(len(v) == len(a), "one amount per validator")
		got := map[string]math.LegacyDec{}
		for i := range v {
			_, dup := got[v[i]]
			vs.Assert(!dup, "each validator once per delegator")
			got[v[i]] = a[i]
			votes = add(votes, a[i].BigInt())
		}
		for i := 0; i < n; i++ {
			x, ok := got[STAKERS[i]]
			if mem[i] == 0 {
				vs.Assert(!ok, "delegations to inactive validators do not vote")
			} else if ok {
				vs.Assert(eq(x.BigInt(), mul(w.stake(STAKERS[i], u), one18)), "voting amount is the current delegation")
			} else {
				vs.Assert(eq(w.stake(STAKERS[i], u), bi(0)), "every delegation to an active validator votes")
			}
		}
	}
	vs.Assert(le(votes, mul(total, one18)), "delegators vote with no more than the total")
	vs.Reach("end")
}
