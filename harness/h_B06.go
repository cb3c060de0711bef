//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func b06check(w *World, way int) {
	p := w.proposal(0)
	t := w.tally(0, p)
	verdict := t.verdict()
	was := w.stakes()
	commission := func() (out []sdk.Coins) {
		for _, s := range STAKERS {
			x, _ := w.Stakers.GetStaker(w.Ctx, s)
			out = append(out, x.CommissionRewards)
		}
		return
	}
	rewards0 := commission()
	funders0, pool0, stakers0 := w.ModBal(funderstypes.ModuleName), w.ModBal(pooltypes.ModuleName), w.ModBal(stakerstypes.ModuleName)
	acc0, treasury0 := w.Bal(w.poolAcc(0), DENOM), w.treasury()
	bundles0 := w.pool(0).TotalBundles
	e := w.endRound(way)
	vs.Assert((e != nil) == (way == bySubmit && verdict == verdictNone), "the round ends once the bundle is decided")
	if e != nil {
		return
	}
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
	now := w.stakes()
	slashed := bi(0)
	for i, s := range STAKERS {
		v := voteOf(p, s)
		rate := uint64(0)
		switch {
		case verdict == verdictValid && v == voteInvalid:
			rate = 10
		case verdict == verdictInvalid && s == p.Uploader:
			rate = 20
		case verdict == verdictInvalid && v == voteValid:
			rate = 10
		}
		if i == 3 {
			rate = 0 // not in this pool
		}
		if rate == 0 {
			vs.Assert(eq(was[i], now[i]), "nobody but the losing side is slashed")
			vs.Assert(i == 3 || w.member(s, 0), "nobody but the losing side is removed")
			continue
		}
		vs.Assert(lost(was[i], now[i], rate, 2), "the losing side loses its share")
		vs.Assert(!w.member(s, 0), "the losing side is removed from the pool")
		slashed = add(slashed, sub(was[i], now[i]))
	}
	vs.Assert(w.member(STAKER0, 1) && w.member(STAKER3, 1), "other pools keep their members")
	if verdict == verdictValid {
		vs.Assert(w.pool(0).TotalBundles == bundles0+1, "a valid bundle is archived")
		vs.Reach("valid")
		return
	}
	vs.Assert(w.pool(0).TotalBundles == bundles0, "only a valid bundle is archived")
	vs.Assert(eq(w.ModBal(funderstypes.ModuleName), funders0) && eq(w.ModBal(pooltypes.ModuleName), pool0) && eq(w.ModBal(stakerstypes.ModuleName), stakers0) && eq(w.Bal(w.poolAcc(0), DENOM), acc0), "no reward is paid")
	rewards := commission()
	for i := range rewards {
		vs.Assert(sameCoins(rewards[i], rewards0[i]), "no reward is paid")
	}
	vs.Assert(eq(w.treasury(), add(treasury0, slashed)), "the treasury receives exactly what was slashed")
	if verdict == verdictInvalid {
		vs.Reach("invalid")
	} else {
		vs.Reach("undecided")
	}
}

// b06world has an open bundle by STAKER0, funds, inflation and delegators.
func b06world(stake func(i int) uint64, votes []int) *World {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.selfStake(i, stake(i))
	}
	w.mustDelegate(STAKER3, STAKER3, 1000)
	w.Give(w.poolAcc(0), DENOM, math.NewInt(1_000_000))
	w.fund(ALICE, 0, sdk.NewCoins(coin(DENOM, 1_000_000_000)), sdk.NewCoins(coin(DENOM, 5_000_000)))
	p := openBundle(STAKER0, STAKER1, 1_600_000_000)
	for i, v := range votes {
		castVote(&p, STAKERS[i+1], v)
	}
	w.Bundles.SetBundleProposal(w.Ctx, p)
	return w
}

// H_B06_stakes: any stakes, any votes of two validators next to the uploader, every way the round can end.
func H_B06_stakes() {
	way := vs.Choose("way", nWays)
	votes := []int{vs.Choose("vote1", 4), vs.Choose("vote2", 4)}
	w := b06world(func(i int) uint64 { return vs.U64(nm("stake%d", i), 1, 1_000_000_000_000_000) }, votes)
	b06check(w, way)
}

// H_B06_delegators: delegators of the losing and winning side, an abstaining or left validator.
func H_B06_delegators() {
	way := vs.Choose("way", nWays)
	votes := []int{vs.Choose("vote1", 4), vs.Choose("vote2", 4)}
	w := b06world(func(i int) uint64 { return []uint64{1_000_003, 3, 777_777}[i] }, votes)
	w.mustDelegate(ALICE, STAKERS[vs.Choose("delegated to", 3)], vs.U64("delegated", 1, 1_000_000_000_000_000))
	if vs.Choose("earlier slash", 2) == 1 {
		w.slash(STAKER2, 2)
	}
	b06check(w, way)
}
