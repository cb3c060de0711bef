//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_funders.go
//verif:use lib_pool.go
//verif:use lib_team.go

package main

import (
	"math/big"

	"cosmossdk.io/math"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/KYVENetwork/chain/x/bundles"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func (w *World) split() {
	must(bundles.NewAppModule(nil, w.Bundles, nil, w.Bank, nil, w.Mint, w.Upg, w.Pool, w.Team).BeginBlock(w.Ctx))
}

// p01split runs the split for pools of the given kinds and weights and compares with the property.
func p01split(w *World, kinds []int, weights []math.LegacyDec, share string, prov uint64) {
	w.setPoolParams(share, "0.05", "1")
	for i := range kinds {
		p := kindPool(kinds[i], weights[i])
		p.Id = w.Pool.AppendPool(w.Ctx, p)
		w.Give(w.poolAcc(p.Id), DENOM, math.NewInt(5))
	}
	w.mintBlock(prov, 7)
	w.GiveU(ALICE, 5*teamCap)
	teamPart := vs.I64Big(w.Team.GetTeamBlockProvision(w.Ctx))
	fees0 := w.ModBal(authtypes.FeeCollectorName)
	store := w.Dump(false)

	w.split()

	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
	vs.Assert(SameDump(store, w.Dump(false)), "the split changes no records")
	// protocol's part: its share of what the team leaves, rounded down
	part := dec(share).MulInt(math.NewIntFromBigInt(sub(bi(prov), teamPart))).TruncateInt().BigInt()
	total := math.LegacyZeroDec()
	last, active := -1, 0
	for i := range kinds {
		if kinds[i] == runs {
			total = total.Add(weights[i])
			active++
		}
		if kinds[i] == runs {
			last = i
		}
	}
	taken := sub(fees0, w.ModBal(authtypes.FeeCollectorName))
	got := make([]*big.Int, len(kinds))
	given := bi(0)
	for i := range kinds {
		got[i] = sub(w.Bal(w.poolAcc(uint64(i)), DENOM), bi(5))
		given = add(given, got[i])
	}
	vs.Assert(eq(given, taken), "what is taken equals what is distributed")
	if last < 0 || total.IsZero() {
		vs.Assert(eq(taken, bi(0)), "without a running pool everything stays with the chain")
		vs.Reach("none")
		return
	}
	fairSum := bi(0)
	fair := make([]*big.Int, len(kinds))
	for i := range kinds {
		if kinds[i] == runs {
			fair[i] = weights[i].Quo(total).MulInt(math.NewIntFromBigInt(part)).TruncateInt().BigInt()
			fairSum = add(fairSum, fair[i])
		}
	}
	rest := sub(part, fairSum)
	vs.Assert(vs.And(le(bi(0), rest), lt(rest, bi(uint64(active)+1))), "the rounding rest is less than one token per pool")
	dust := 0
	runGot := bi(0)
	for i := range kinds {
		if kinds[i] != runs {
			vs.Assert(vs.Or(eq(got[i], bi(0)), eq(got[i], rest)), "a pool which can not run receives no share")
			continue
		}
		runGot = add(runGot, got[i])
		vs.Assert(le(fair[i], got[i]), "a running pool receives at least its weight's share")
		vs.Assert(le(got[i], add(fair[i], rest)), "no running pool receives more than its share and the rounding rest")
		if vs.Fork(!eq(fair[i], got[i])) {
			dust++
		}
	}
	vs.Assert(dust <= 1, "the rounding rest goes to one pool")
	vs.Assert(le(runGot, part), "running pools receive no more than the protocol part")
	for i := range kinds {
		if kinds[i] != runs {
			vs.Assert(eq(got[i], bi(0)), "the rounding rest does not go to pools which can not run")
		}
	}
	vs.Assert(le(taken, part), "no more than the protocol part is taken")
	vs.Reach("split")
}

func decs(x ...string) []math.LegacyDec {
	var out []math.LegacyDec
	for _, s := range x {
		out = append(out, dec(s))
	}
	return out
}

// H_P01_amounts: any provision, three pools which run or not, a few weights and shares.
func H_P01_amounts() {
	w := NewWorld()
	var kinds []int
	for i := 0; i < 3; i++ {
		kinds = append(kinds, vs.Choose(nm("kind%d", i), 2)*(1+i)) // runs, or another kind per position
	}
	weights := [][]math.LegacyDec{decs("1", "1", "1"), decs("1", "2", "4"), decs("0.333333333333333333", "0", "7.1"), decs("0", "0", "0")}[vs.Choose("weights", 4)]
	share := []string{"0.04", "1", "0.333333333333333333"}[vs.Choose("share", 3)]
	p01split(w, kinds, weights, share, vs.U64("provision", 0, 1_000_000_000_000_000))
}

// H_P01_kinds: one running pool and one of every other kind, in any order.
func H_P01_kinds() {
	w := NewWorld()
	k := vs.Choose("kind", nKinds)
	j := vs.Choose("other", nKinds)
	kinds := [][]int{{runs, k, j}, {k, runs, j}, {k, j, runs}, {k, j, k}}[vs.Choose("order", 4)]
	p01split(w, kinds, decs("3", "5", "11"), "0.5", vs.U64("provision", 0, 1_000_000_000_000_000))
}

// H_P01_weights: any weights, a few provisions.
func H_P01_weights() {
	w := NewWorld()
	top := "1000000000000000000000"
	weights := []math.LegacyDec{vs.Dec("weight0", "0", top), dec([]string{"1", "7.1"}[vs.Choose("weight1", 2)])}
	provs := []uint64{1, 7, 123_456_789_011}
	if vs.Thorough() {
		weights[1] = vs.Dec("weight1any", "0", top)
		provs = []uint64{0, 1, 2, 7, 1000, 123_456_789_011}
	}
	weights = append(weights, dec("3"))
	p01split(w, []int{runs, runs, disabled}, weights, "1", provs[vs.Choose("provision", len(provs))])
}

// H_P01_team: with team accounts, the block's provision covers the team's and the protocol's part.
func H_P01_team() {
	w := NewWorld()
	now := uint64(1_700_000_000)
	w.Team.AppendTeamVestingAccount(w.Ctx, teamtypes.TeamVestingAccount{TotalAllocation: 99_999_999_999_999_999, Commencement: now - 2*yearSecs, TotalRewards: 5, RewardsClaimed: 3})
	w.Team.SetAuthority(w.Ctx, teamtypes.Authority{TotalRewards: 1000})
	w.GiveMod(teamtypes.ModuleName, teamCap+1000)
	prov := vs.U64("provision", 0, 1_000_000_000_000)
	before := w.Team.GetTeamBlockProvision
	p01split(w, []int{disabled, runs, runs}, decs("1", "1", "2"), []string{"0.04", "1"}[vs.Choose("share", 2)], prov)
	part := vs.I64Big(before(w.Ctx))
	team0 := w.ModBal(teamtypes.ModuleName)
	w.beginTeam()
	vs.Assert(eq(sub(w.ModBal(teamtypes.ModuleName), team0), part), "the team still gets its part")
	vs.Assert(le(bi(7), w.ModBal(authtypes.FeeCollectorName)), "fees stay with the chain")
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
}
