//verif:use lib_funders.go

package main

import (
	"fmt"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	funderstypes "github.com/KYVENetwork/chain/x/funders/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_F03_minimums: a funding on top of any earlier one, under any minimums and multiple.
func H_F03_minimums() {
	min := [2]math.Int{vs.Int("min.native", "1", bigAmt), vs.Int("min.b", "1", bigAmt)}
	per := [2]math.Int{vs.Int("minPer.native", "1", bigAmt), vs.Int("minPer.b", "1", bigAmt)}
	mult := vs.U64("multiple", 0, 100_000)
	w := fundersWorld(whitelist(min, per, [2]math.LegacyDec{math.LegacyNewDec(1), math.LegacyNewDec(2)}, [2]uint32{6, 6}, mult))
	var f funderstypes.Funding
	who := vs.Choose("who", 3) // not registered, registered, earlier funding
	switch who {
	case 1:
		w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: ALICE, Moniker: "m"})
	case 2:
		k := 1
		if vs.Thorough() {
			k = 1 + vs.Choose("had", 4)
		}
		f = symFunding("a", ALICE, 0, denomSet(k))
		w.addFunding(f)
	}
	pool := uint64(vs.Choose("pool", 3))
	if who == 2 {
		vs.Assume(pool == 0)
	}
	for _, d := range fDenoms {
		w.Give(Acc(ALICE), d, math.NewIntFromBigInt(mul(one18, one18)))
	}
	msg := &funderstypes.MsgFundPool{Creator: ALICE, PoolId: pool, Amounts: symCoins("m", denomSet(vs.Choose("coins", 5))), AmountsPerBundle: symCoins("p", denomSet(vs.Choose("per", 5)))}
	vs.Assume(!msg.Amounts.Empty() || !msg.AmountsPerBundle.Empty())
	err := w.Tx(func(ctx sdk.Context) error {
		if e := msg.ValidateBasic(); e != nil {
			return e
		}
		_, e := fundersMsg(w).FundPool(ctx, msg)
		return e
	})
	// what the funding would hold afterwards
	ok := true
	none := true
	for i, d := range fDenoms {
		a := add(amt(f.Amounts, d), amt(msg.Amounts, d))
		p := vs.IteBig(eq(amt(msg.AmountsPerBundle, d), bi(0)), amt(f.AmountsPerBundle, d), amt(msg.AmountsPerBundle, d))
		empty := eq(a, bi(0))
		none = vs.And(none, empty)
		if d == coinC {
			ok = vs.And(ok, empty)
			continue
		}
		j := 1 - i // whitelist index: native first
		ok = vs.And(ok, vs.Or(empty, vs.And(le(min[j].BigInt(), a), le(per[j].BigInt(), p), le(mul(p, bi(mult)), a))))
	}
	ok = vs.And(ok, vs.Not(none)) // a funding holds at least one coin
	if err != nil {
		vs.Reach("rejected")
		if who > 0 && pool < 2 {
			vs.Assert(vs.Not(ok), "a funding that meets all minimums is accepted")
		}
		return
	}
	vs.Reach("accepted")
	vs.Assert(who > 0, "only registered funders")
	vs.Assert(pool < 2, "only existing pools")
	vs.Assert(ok, "every coin meets the minimum amount, minimum per bundle and minimum multiple and is whitelisted")
}

func fAddr(i int) string {
	return sdk.AccAddress([]byte(fmt.Sprintf("funder--------------%02d", i))).String()
}

// f03slots: n active fundings of pool 0; the ones at a few positions have any amount, the rest
// is far above. The funder is a newcomer, an active funder that is not the weakest, or was active.
func f03slots(n int) {
	w := fundersWorld(plainWhitelist())
	var fs []funderstypes.Funding
	one := func(i int, a math.Int) {
		c := sdk.Coins{{Denom: DENOM, Amount: a}}
		f := funderstypes.Funding{FunderAddress: fAddr(i), PoolId: 0, Amounts: c, AmountsPerBundle: sdk.Coins{{Denom: DENOM, Amount: math.NewInt(10)}}}
		fs = append(fs, f)
		w.addFunding(f)
	}
	for i := 0; i < n; i++ {
		switch {
		case i == 0, i == 20, i == n-1, vs.Thorough() && i == 35:
			one(i, vs.Int(fmt.Sprintf("f%d", i), "1000", "999999999999999999"))
		default:
			one(i, math.NewInt(1_000_000_000_000_000_000))
		}
	}
	amount := vs.Int("amount", "1000", "1000000000000000000")
	who := vs.Choose("who", 4)
	creator := ALICE
	switch who {
	case 0:
		w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: ALICE, Moniker: "m"})
	case 1:
		w.addFunding(funderstypes.Funding{FunderAddress: ALICE, PoolId: 0}) // was active once
	case 2:
		creator = fAddr(1)
	case 3:
		creator = fAddr(20)
	}
	w.Give(Acc(creator), DENOM, amount)
	msg := &funderstypes.MsgFundPool{Creator: creator, PoolId: 0, Amounts: sdk.Coins{{Denom: DENOM, Amount: amount}}, AmountsPerBundle: sdk.Coins{{Denom: DENOM, Amount: math.NewInt(10)}}}
	err := w.Tx(func(ctx sdk.Context) error { _, e := fundersMsg(w).FundPool(ctx, msg); return e })
	st, _ := w.Funders.GetFundingState(w.Ctx, 0)
	vs.Assert(len(st.ActiveFunderAddresses) <= funderstypes.MaxFunders, "never more active funders than slots")
	low := amt(fs[0].Amounts, DENOM)
	for i := range fs {
		low = minBig(low, amt(fs[i].Amounts, DENOM))
	}
	gone := -1
	for i := range fs {
		g := w.funding(fs[i].FunderAddress, 0)
		if !w.isActiveFunder(0, fs[i].FunderAddress) {
			vs.Assert(gone < 0, "at most one funder is displaced")
			gone = i
			vs.Assert(g.Amounts.IsZero(), "displaced funder has no funding left")
			vs.Assert(eq(w.Bal(Acc(fs[i].FunderAddress), DENOM), amt(fs[i].Amounts, DENOM)), "displaced funder gets its tokens back")
			continue
		}
		if fs[i].FunderAddress == creator && err == nil {
			vs.Assert(eq(amt(g.Amounts, DENOM), add(amt(fs[i].Amounts, DENOM), amount.BigInt())), "topped-up funding holds both")
			continue
		}
		vs.Assert(vs.SameMsg(&g, &fs[i]), "everyone else is untouched")
	}
	w.checkFundersBacked("funding account holds the sum of all fundings")
	if err != nil {
		vs.Reach("rejected")
		vs.Assert(gone < 0, "rejected funding displaces nobody")
		vs.Assert(n == funderstypes.MaxFunders && who < 2, "rejected for lack of slots only when full")
		vs.Assert(lt(amount.BigInt(), low), "a newcomer with at least the lowest value is admitted")
		return
	}
	vs.Assert(w.isActiveFunder(0, creator), "the funder is active afterwards")
	if gone >= 0 {
		vs.Reach("displaced")
		vs.Assert(n == funderstypes.MaxFunders, "nobody is displaced while slots are free")
		vs.Assert(who < 2, "a funder that already has a slot displaces nobody")
		vs.Assert(eq(amt(fs[gone].Amounts, DENOM), low), "only the weakest is displaced")
		vs.Assert(le(low, amount.BigInt()), "never displaced by a lower value")
	} else {
		vs.Reach("admitted")
	}
}

// H_F03_full: all 50 slots taken.
func H_F03_full() { f03slots(funderstypes.MaxFunders) }

// H_F03_free: one slot left.
func H_F03_free() { f03slots(funderstypes.MaxFunders - 1) }
