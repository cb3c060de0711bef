//verif:use lib_funders.go
//verif:use lib_delegation.go

package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

var d03types = []delegationtypes.SlashType{delegationtypes.SLASH_TYPE_VOTE, delegationtypes.SLASH_TYPE_UPLOAD, delegationtypes.SLASH_TYPE_TIMEOUT}

// rated is floor(x * f), and the same rounded up.
func rated(x *big.Int, f math.LegacyDec) (*big.Int, *big.Int) {
	p := mul(x, f.BigInt())
	lo := vs.FloorDiv(p, one18)
	return lo, vs.FloorDiv(add(p, sub(one18, bi(1))), one18)
}

// d03slash slashes STAKER0 and checks everything about it; n slashes happened before.
func (w *World) d03slash(t delegationtypes.SlashType, f math.LegacyDec) {
	total := w.total(STAKER0)
	other := w.snapStaker(STAKER1)
	treasury, mod := w.treasury(), w.ModBal(delegationtypes.ModuleName)
	var stakes []*big.Int
	var rew []sdk.Coins
	for _, u := range USERS {
		stakes = append(stakes, w.stake(STAKER0, u))
		rew = append(rew, w.Delegation.GetOutstandingRewards(w.Ctx, STAKER0, u))
	}
	n := len(w.Delegation.GetAllDelegators(w.Ctx))
	w.slash(STAKER0, t)
	cut, _ := rated(total, f)
	now := w.total(STAKER0)
	vs.Assert(eq(add(now, cut), total), "total falls by exactly the fraction")
	vs.Assert(eq(sub(w.treasury(), treasury), cut), "the treasury receives exactly the slashed tokens")
	vs.Assert(eq(sub(mod, w.ModBal(delegationtypes.ModuleName)), cut), "exactly the slashed tokens leave the delegation account")
	vs.Assert(le(bi(0), now), "total is not negative")
	for i, u := range USERS {
		s := w.stake(STAKER0, u)
		lo, _ := rated(stakes[i], f)
		// exactly the fraction, rounding to whole units at this and at earlier slashes
		vs.Assert(le(s, add(sub(stakes[i], lo), bi(1))), "delegation falls by at least the fraction")
		vs.Assert(le(sub(stakes[i], lo), add(s, bi(1))), "delegation falls by no more than the fraction")
		vs.Assert(vs.And(le(bi(0), s), le(s, stakes[i])), "delegation stays between zero and what it was")
		vs.Assert(sameCoins(rew[i], w.Delegation.GetOutstandingRewards(w.Ctx, STAKER0, u)), "accrued rewards stay")
	}
	vs.Assert(len(w.Delegation.GetAllDelegators(w.Ctx)) == n, "nobody is removed")
	vs.Assert(other.same(w.snapStaker(STAKER1)), "other validators and their delegators are untouched")
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
}

func (w *World) d03base() {
	w.mustDelegate(ALICE, STAKER1, 1_000_003)
	w.mustDelegate(DAVID, STAKER1, 5)
	must(w.pay(STAKER1, sdk.Coins{{Denom: DENOM, Amount: math.NewInt(77)}}))
}

// H_D03_amounts: any delegations, given fractions, one or two slashes of any offence.
func H_D03_amounts() {
	w := delegWorld(2)
	w.d03base()
	w.mustDelegate(ALICE, STAKER0, vs.U64("alice", 1, stakeCap))
	w.mustDelegate(BOB, STAKER0, vs.U64("bob", 1, stakeCap))
	nf := 3
	if vs.Thorough() {
		nf = len(fracs)
	}
	f := []string{fracs[vs.Choose("f0", nf)], "0.02", "0.5"}
	t := vs.Choose("type", 3)
	f[0], f[t] = f[t], f[0]
	w.setSlash(f[0], f[1], f[2])
	w.d03slash(d03types[t], dec(f[t]))
	if vs.Choose("again", 2) == 1 {
		t2 := vs.Choose("type2", 3)
		w.d03slash(d03types[t2], dec(f[t2]))
	}
	w.checkDelegationSums(6)
	vs.Reach("slashed")
}

// H_D03_fraction: any fractions, given delegations with rewards.
func H_D03_fraction() {
	w := delegWorld(2)
	w.d03base()
	sets := 3
	if vs.Thorough() {
		sets = len(d03sets)
	}
	set := d03sets[vs.Choose("set", sets)]
	for i, a := range set {
		w.mustDelegate(USERS[i], STAKER0, a)
	}
	if len(set) > 0 {
		must(w.pay(STAKER0, sdk.Coins{{Denom: coinB, Amount: math.NewInt(1_000_000_007)}, {Denom: DENOM, Amount: math.NewInt(123_456_789)}}))
	}
	var f []math.LegacyDec
	for i := 0; i < 3; i++ {
		f = append(f, vs.Dec(nm("f%d", i), "0", "1000000000000000000"))
	}
	w.Delegation.SetParams(w.Ctx, delegationtypes.NewParams(1000, 1000, 5, f[0], f[1], f[2]))
	t := vs.Choose("type", 3)
	w.d03slash(d03types[t], f[t])
	vs.Reach("slashed")
}

var d03sets = [][]uint64{{1, 2, 5}, {999_999_999_999_999, 1}, {}, {333_333_333_333_333_333, 666_666_666_666_666_667}, {1_000_000_000}}
