//verif:use lib_funders.go

package main

import (
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"

	funderstypes "github.com/KYVENetwork/chain/x/funders/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// ALICE with any funding of pool 0 (or none), BOB funding pools 0 and 1 as well.
func f02world() (*World, funderstypes.Funding, []funderstypes.Funding) {
	w := fundersWorld(plainWhitelist())
	f := symFunding("a", ALICE, 0, denomSet([]int{0, 1, 2, 3, 4, 6}[vs.Choose("have", 6)]))
	if vs.Choose("record", 2) == 1 || len(f.Amounts) > 0 {
		w.addFunding(f)
	} else {
		w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: ALICE, Moniker: "m"})
	}
	others := []funderstypes.Funding{symFunding("b", BOB, 0, []string{coinB, DENOM}), symFunding("b1", BOB, 1, []string{DENOM}), symFunding("a1", ALICE, 1, []string{DENOM})}
	for _, o := range others {
		w.addFunding(o)
	}
	for _, d := range fDenoms {
		w.Give(Acc(ALICE), d, vs.Int("alice."+d, "0", bigAmt))
	}
	return w, f, others
}

func f02frame(w *World, others []funderstypes.Funding) {
	for i := range others {
		o := w.funding(others[i].FunderAddress, others[i].PoolId)
		vs.Assert(vs.SameMsg(&o, &others[i]), "no other funding record changes")
		vs.Assert(w.isActiveFunder(o.PoolId, o.FunderAddress), "other funders stay active")
	}
	w.checkFundersBacked("funding account holds the sum of all fundings")
	w.checkActive("active exactly while something is left")
}

// H_F02_fund: one funding request with any coins.
func H_F02_fund() {
	w, f, others := f02world()
	msg := &funderstypes.MsgFundPool{Creator: ALICE, PoolId: uint64(vs.Choose("pool", 2) * 5), Amounts: symCoins("m", denomSet(vs.Choose("coins", 5))), AmountsPerBundle: symCoins("p", denomSet(vs.Choose("per", 5)))}
	d0, b0 := w.Dump(true), w.Bank.snap()
	err := w.Tx(func(ctx sdk.Context) error {
		if e := msg.ValidateBasic(); e != nil {
			return e
		}
		_, e := fundersMsg(w).FundPool(ctx, msg)
		return e
	})
	if err != nil {
		vs.Assert(vs.And(SameDump(d0, w.Dump(true)), SameBank(b0, w.Bank)), "rejected funding changes nothing")
		vs.Reach("rejected")
		return
	}
	vs.Reach("funded")
	vs.Assert(msg.PoolId == 0, "only existing pools are funded")
	g := w.funding(ALICE, 0)
	for _, d := range fDenoms {
		m := amt(msg.Amounts, d)
		vs.Assert(eq(w.Bal(Acc(ALICE), d), sub(b0.get(Acc(ALICE), d).BigInt(), m)), "funder pays exactly the stated coins")
		vs.Assert(eq(w.modCoin(funderstypes.ModuleName, d), add(b0.get(ModAddr(funderstypes.ModuleName), d).BigInt(), m)), "funding account gets exactly the stated coins")
		vs.Assert(eq(amt(g.Amounts, d), add(amt(f.Amounts, d), m)), "record grows by exactly the stated coins")
		per := amt(msg.AmountsPerBundle, d)
		want := vs.IteBig(eq(per, bi(0)), amt(f.AmountsPerBundle, d), per)
		vs.Assert(eq(amt(g.AmountsPerBundle, d), vs.IteBig(eq(amt(g.Amounts, d), bi(0)), bi(0), want)), "per-bundle amounts as requested")
		vs.Assert(eq(amt(g.TotalFunded, d), amtOf(len(f.Amounts) > 0, amt(f.TotalFunded, d))), "total funded unchanged")
	}
	f02frame(w, others)
}

func amtOf(c bool, x *big.Int) *big.Int {
	if c {
		return x
	}
	return bi(0)
}

// H_F02_defund: one defunding request with any coins.
func H_F02_defund() {
	w, f, others := f02world()
	msg := &funderstypes.MsgDefundPool{Creator: ALICE, PoolId: 0, Amounts: symCoins("m", denomSet(1+vs.Choose("coins", 6)))}
	d0, b0 := w.Dump(true), w.Bank.snap()
	err := w.Tx(func(ctx sdk.Context) error {
		if e := msg.ValidateBasic(); e != nil {
			return e
		}
		_, e := fundersMsg(w).DefundPool(ctx, msg)
		return e
	})
	if err != nil {
		vs.Assert(vs.And(SameDump(d0, w.Dump(true)), SameBank(b0, w.Bank)), "rejected defunding changes nothing")
		vs.Reach("rejected")
		all := len(f.Amounts) > 0
		for _, c := range f.Amounts {
			all = vs.And(all, le(c.Amount.BigInt(), amt(msg.Amounts, c.Denom)))
		}
		vs.Assert(vs.Not(all), "defunding everything is always possible")
		return
	}
	vs.Reach("defunded")
	g := w.funding(ALICE, 0)
	for _, d := range fDenoms {
		m := minBig(amt(msg.Amounts, d), amt(f.Amounts, d))
		vs.Assert(eq(w.Bal(Acc(ALICE), d), add(b0.get(Acc(ALICE), d).BigInt(), m)), "funder gets exactly the requested coins, at most what is recorded")
		vs.Assert(eq(w.modCoin(funderstypes.ModuleName, d), sub(b0.get(ModAddr(funderstypes.ModuleName), d).BigInt(), m)), "exactly the returned coins leave the funding account")
		vs.Assert(eq(amt(g.Amounts, d), sub(amt(f.Amounts, d), m)), "record shrinks by exactly the returned coins")
		vs.Assert(eq(amt(g.TotalFunded, d), amt(f.TotalFunded, d)), "total funded unchanged")
	}
	f02frame(w, others)
}
