//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// canRun is the property's own list of conditions; forks.
func (w *World) canRun(id uint64, power math.LegacyDec) bool {
	if id > 1 {
		return false
	}
	p := w.pool(id)
	now := uint64(w.Ctx.BlockTime().Unix())
	if p.Disabled || vs.Fork(vs.And(p.UpgradePlan.ScheduledAt > 0, now >= p.UpgradePlan.ScheduledAt)) || p.EndKey != "" && p.EndKey == p.CurrentKey {
		return false
	}
	total, highest := bi(0), bi(0)
	for _, s := range STAKERS {
		if w.member(s, id) {
			x := w.total(s)
			total = add(total, x)
			highest = vs.IteBig(lt(highest, x), x, highest)
		}
	}
	if vs.Fork(lt(total, bi(p.MinDelegation))) {
		return false
	}
	// highest/total is at most the allowed power, compared without division
	return vs.Fork(le(mul(highest, one18), mul(total, power.BigInt())))
}

// b11check compares everything that depends on the pool being able to run.
func b11check(w *World, power math.LegacyDec, id uint64) {
	can := w.canRun(id, power)
	store := w.Dump(true)
	vs.Assert((w.Bundles.AssertPoolCanRun(w.Ctx, id) == nil) == can, "a pool runs exactly while all conditions hold")
	if id < 2 {
		p := w.pool(id)
		st := w.Query.GetPoolStatus(w.Ctx, &p)
		vs.Assert(st != pooltypes.POOL_STATUS_ACTIVE || can, "an active status means the pool can run")
		vs.Assert(can || st != pooltypes.POOL_STATUS_NO_FUNDS, "missing funds are only reported for a pool which can run")
		vs.Assert(!can || st == pooltypes.POOL_STATUS_ACTIVE || st == pooltypes.POOL_STATUS_NO_FUNDS, "a pool which can run is shown as such")
	}
	vs.Assert(SameDump(store, w.Dump(true)), "asking changes nothing")
	m := bundlestypes.MsgVoteBundleProposal{Creator: VALSA[1], Staker: STAKER1, PoolId: id, StorageId: sid, Vote: bundlestypes.VOTE_TYPE_VALID}
	vs.Assert((w.vote(m) == nil) == (can && id == 0), "votes are taken exactly while the pool can run")
	if can {
		vs.Reach("runs")
	} else {
		vs.Reach("stopped")
	}
}

func b11world() *World {
	w := bundlesWorld(3)
	w.Bundles.SetBundleProposal(w.Ctx, openBundle(STAKER0, STAKER1, 1_700_000_000))
	return w
}

// H_B11_conditions: any flags, times, keys and minimum.
func H_B11_conditions() {
	w := b11world()
	w.setPoolParams("0.04", "0.05", "1")
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], uint64(1000+i))
	}
	if vs.Choose("left", 2) == 1 {
		w.Stakers.LeavePool(w.Ctx, STAKER0, 0)
	}
	key := vs.Choose("keys", 5)
	w.setPool(0, func(p *pooltypes.Pool) {
		p.Disabled = vs.Choose("disabled", 2) == 1
		p.UpgradePlan = &pooltypes.UpgradePlan{Version: []string{"", "2"}[vs.Choose("version", 2)], ScheduledAt: vs.U64("at", 0, u64max), Duration: vs.U64("duration", 0, u64max)}
		p.CurrentKey = []string{"", "", "5", "5", "6"}[key]
		p.EndKey = []string{"", "9", "5", "9", ""}[key]
		p.MinDelegation = vs.U64("min", 0, u64max)
	})
	w.At(1000, vs.I64("now", 0, 1<<40))
	if vs.Choose("funded", 2) == 1 {
		w.fund(ALICE, 0, sdk.NewCoins(coin(DENOM, 50)), sdk.NewCoins(coin(DENOM, 5)))
	}
	b11check(w, dec("1"), 0)
	vs.Assert(w.Bundles.AssertPoolCanRun(w.Ctx, 2) != nil, "a pool which does not exist can not run")
}

// H_B11_power: any stakes and minimum, for a list of power limits.
func H_B11_power() {
	w := b11world()
	power := []string{"0.5", "0.333333333333333333", "1", "0.2", "0", "0.999999999999999999"}[vs.Choose("power", 6)]
	w.setPoolParams("0.04", "0.05", power)
	for i := 2; i >= 0; i-- {
		lo := uint64(1)
		if i == 1 {
			lo = 0
		}
		w.selfStake(i, vs.U64(nm("stake%d", i), lo, stakeCap))
	}
	w.mustDelegate(STAKER3, STAKER3, vs.U64("stake3", 1, stakeCap)) // not in this pool
	w.setPool(0, func(p *pooltypes.Pool) { p.MinDelegation = vs.U64("min", 0, u64max) })
	b11check(w, dec(power), 0)
}

// H_B11_limits: any power limit, for a list of stakes.
func H_B11_limits() {
	w := b11world()
	power := vs.Dec("power", "0", "1000000000000000000")
	w.Pool.SetParams(w.Ctx, pooltypes.Params{ProtocolInflationShare: dec("0.04"), PoolInflationPayoutRate: dec("0.05"), MaxVotingPowerPerPool: power})
	stakes := [][]uint64{{1, 1, 1}, {0, 0, 0}, {1_000_000_000, 3, 999_999_999_999_999_999}, {0, 7, 0}, {5, 6, 7}}[vs.Choose("stakes", 5)]
	for i := range stakes {
		w.selfStake(i, stakes[i])
	}
	b11check(w, power, 0)
}

// H_B11_own: only the pool's own conditions and validators matter.
func H_B11_own() {
	w := b11world()
	w.setPoolParams("0.04", "0.05", "0.6")
	a, b := vs.Choose("kind0", nKinds), vs.Choose("kind1", nKinds)
	w.makeKind(0, a)
	w.makeKind(1, b)
	w.mustDelegate(STAKER0, STAKER0, vs.U64("both", 1, 1<<40))
	w.mustDelegate(STAKER1, STAKER1, vs.U64("only0", 1, 1<<40))
	w.mustDelegate(STAKER2, STAKER2, 12345)
	w.mustDelegate(STAKER3, STAKER3, vs.U64("only1", 1, 1<<40))
	id := uint64(vs.Choose("pool", 3))
	b11check(w, dec("0.6"), id)
}
