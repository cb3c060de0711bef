//verif:use lib_team.go
//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"errors"

	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

var errUndo = errors.New("undo")

// sameInEveryOrder runs op, undoes it, and runs it again with map iterations in any order.
func (w *World) sameInEveryOrder(orders int, op func() string) {
	var store []Entry
	var bank *Bank
	var res string
	halts := 0
	w.Tx(func(ctx sdk.Context) error {
		c := w.Ctx
		w.Ctx = ctx
		res = op()
		store, bank, halts = w.Dump(true), w.Bank.snap(), w.Upg.Halts
		w.Ctx = c
		return errUndo
	})
	vs.MapOrder(orders)
	got := op()
	vs.MapOrder(0)
	vs.Assert(got == res, "the outcome does not depend on the iteration order of maps")
	vs.Assert(SameDump(store, w.Dump(true)), "the state does not depend on the iteration order of maps")
	vs.Assert(SameBank(bank, w.Bank) && halts == w.Upg.Halts, "the balances do not depend on the iteration order of maps")
	vs.Reach("compared")
}

func outcome(e error) string {
	if e == nil {
		return "ok"
	}
	return "failed: " + e.Error()
}

func b10orders() int {
	if vs.Thorough() {
		return 2
	}
	return 1
}

// b10world has three validators, one with a stored turn, one without, one who has left.
func b10world(k int) *World {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], [][]uint64{{1000, 1000, 1000}, {5, 300, 77}, {1, 1000000, 999999}, {3, 3, 2}}[k][i])
	}
	turns := (k + 1) % 4
	if vs.Thorough() {
		turns = vs.Choose("turns", 4)
	}
	switch turns {
	case 1:
		w.setProgress(0, []string{STAKER0, STAKER1, STAKER2}, []int64{17, -5, -12})
	case 2:
		w.setProgress(0, []string{STAKER2, STAKER3}, []int64{100000, -5})
	case 3:
		w.setProgress(0, []string{STAKER0, STAKER2}, []int64{-1 << 40, 1 << 40})
	}
	return w
}

// H_B10_rounds: a round ends in any way with any votes.
func H_B10_rounds() {
	way := vs.Choose("way", nWays)
	w := b10world(vs.Choose("stakes", 4))
	w.fund(ALICE, 0, sdk.NewCoins(coin(coinB, 1000), coin(DENOM, 700), coin(coinC, 9)), sdk.NewCoins(coin(coinB, 99), coin(DENOM, 77), coin(coinC, 3)))
	w.fund(BOB, 0, sdk.NewCoins(coin(coinB, 5), coin(DENOM, 3)), sdk.NewCoins(coin(coinB, 7), coin(DENOM, 8)))
	p := openBundle(STAKER0, STAKER1, 1000)
	votes := [][]int{{voteValid, voteValid}, {voteInvalid, voteInvalid}, {noVote, voteInvalid}, {voteAbstain, noVote}, {voteInvalid, voteValid}}[vs.Choose("votes", 5)]
	for i, v := range votes {
		castVote(&p, STAKERS[i+1], v)
	}
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.setPoints(0, STAKER2, 4)
	w.sameInEveryOrder(b10orders(), func() string { return outcome(w.endRound(way)) })
}

// H_B10_empty: rounds without an open bundle.
func H_B10_empty() {
	way := vs.Choose("way", nWays)
	w := b10world(vs.Choose("stakes", 4))
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: 1000})
	w.setPoints(0, STAKER1, 4)
	w.setPool(1, func(p *pooltypes.Pool) { p.MinDelegation = 0 })
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{PoolId: 1, NextUploader: STAKER0, UpdatedAt: 1000})
	w.sameInEveryOrder(b10orders(), func() string { return outcome(w.endRound(way)) })
}

// H_B10_stakes: any stakes and turns of two validators, every combination of orders.
func H_B10_stakes() {
	w := bundlesWorld(2)
	for i := 0; i < 2; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], vs.U64(nm("stake%d", i), 1<<20, turnCap))
	}
	if vs.Choose("turns", 2) == 1 {
		w.setProgress(0, []string{STAKER0}, []int64{vs.I64("progress", -1<<20, 1<<20)})
	}
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: 1000})
	w.sameInEveryOrder(b10orders(), func() string { w.endBundles(); return "" })
}

// H_B10_charge: charging several funders with several coins of any amounts, and displacing one of them.
func H_B10_charge() {
	w := bundlesWorld(1)
	for i, u := range []string{ALICE, BOB, CHARLIE} {
		per := sdk.NewCoins(coin(coinB, int64(3+i)), coin(DENOM, 10), coin(coinC, 3))
		w.fund(u, 0, sdk.NewCoins(coin(coinB, []int64{50, 2, 70}[i]), sdk.NewCoin(DENOM, vs.Int(nm("amount%d", i), "1", "20")), coin(coinC, 9)), per)
	}
	w.sameInEveryOrder(b10orders(), func() string {
		c, e := w.Funders.ChargeFundersOfPool(w.Ctx, 0, funderstypes.ModuleName)
		if !vs.Symbolic() {
			return outcome(e) + c.String()
		}
		return outcome(e)
	})
}

// H_B10_blocks: begin and end of a block with everything due.
func H_B10_blocks() {
	w := b10world(vs.Choose("stakes", 4))
	w.GiveU(ALICE, 5*teamCap)
	w.GiveMod(teamtypes.ModuleName, teamCap)
	w.mintBlock(1000, 0)
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: 1000})
	p := openBundle(STAKER0, STAKER3, 1000)
	p.PoolId = 1
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.setPool(1, func(p *pooltypes.Pool) {
		p.UpgradePlan = &pooltypes.UpgradePlan{Version: "2", Binaries: "{}", ScheduledAt: 1_600_000_000}
	})
	w.leave(STAKER2, 0)
	w.undelegate(STAKER1, STAKER1, 3)
	w.At(2000, 1_800_000_000)
	w.Bundles.InitMemStore(w.Ctx)
	w.Delegation.InitMemStore(w.Ctx)
	w.sameInEveryOrder(b10orders(), func() string {
		must(w.bundlesModule().BeginBlock(w.Ctx))
		w.beginDelegation()
		w.beginStakers()
		w.beginTeam()
		w.endBundles()
		w.endPool()
		return ""
	})
}
