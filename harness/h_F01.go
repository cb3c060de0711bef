//verif:use lib_funders.go

package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_F01_charge: one charge of a pool with 0..2 active funders (3 in the thorough tier), each
// with any mix of two whitelisted coins and one that is not, any amounts up to 10^30.
func H_F01_charge() {
	w := fundersWorld(plainWhitelist())
	max := 2
	if vs.Thorough() {
		max = 3
	}
	n := vs.Choose("funders", max+1)
	var fs []funderstypes.Funding
	for i := 0; i < n; i++ {
		k := 1 + vs.Choose("coins", 6)
		if i > 0 && !vs.Thorough() {
			vs.Assume(k == 1 || k == 4)
		}
		f := symFunding([]string{"a", "b", "c"}[i], USERS[i], 0, denomSet(k))
		if i == 0 && len(f.Amounts) > 1 && vs.Choose("unpaid", 2) == 1 {
			f.AmountsPerBundle = f.AmountsPerBundle[1:] // nothing per bundle of the first coin
		}
		fs = append(fs, f)
		w.addFunding(f)
	}
	// somebody who has nothing left, and a funding of another pool
	idle := funderstypes.Funding{FunderAddress: STAKER0, PoolId: 0}
	w.addFunding(idle)
	other := symFunding("o", ALICE, 1, []string{DENOM})
	w.addFunding(other)
	s1, _ := w.Funders.GetFundingState(w.Ctx, 1)
	bank0 := w.Bank.snap()

	got, err := w.Funders.ChargeFundersOfPool(w.Ctx, 0, pooltypes.ModuleName)
	vs.Assert(err == nil, "charging never fails")
	for _, d := range fDenoms {
		total := bi(0)
		for i := range fs {
			f := w.funding(fs[i].FunderAddress, 0)
			take := bi(0)
			if d != coinC {
				take = minBig(amt(fs[i].Amounts, d), amt(fs[i].AmountsPerBundle, d))
			}
			total = add(total, take)
			vs.Assert(eq(amt(f.Amounts, d), sub(amt(fs[i].Amounts, d), take)), "funder charged its per-bundle amount or what is left")
			vs.Assert(eq(amt(f.TotalFunded, d), add(amt(fs[i].TotalFunded, d), take)), "total funded grows by what was charged")
			vs.Assert(eq(amt(f.AmountsPerBundle, d), vs.IteBig(lt(bi(0), amt(f.Amounts, d)), amt(fs[i].AmountsPerBundle, d), bi(0))), "per-bundle amounts kept for the coins that are left")
			vs.Assert(le(bi(0), amt(f.Amounts, d)), "no negative funding")
		}
		vs.Assert(eq(amt(got, d), total), "returned payout is the sum of what was charged")
		vs.Assert(eq(sub(bank0.get(ModAddr(funderstypes.ModuleName), d).BigInt(), w.modCoin(funderstypes.ModuleName, d)), total), "exactly the payout leaves the funding account")
		vs.Assert(eq(w.modCoin(pooltypes.ModuleName, d), total), "exactly the payout reaches the recipient")
	}
	w.checkActive("active exactly while something is left")
	w.checkFundersBacked("funding account holds the sum of all fundings")
	o := w.funding(ALICE, 1)
	vs.Assert(vs.SameMsg(&o, &other), "fundings of other pools untouched")
	s, _ := w.Funders.GetFundingState(w.Ctx, 1)
	vs.Assert(vs.SameMsg(&s, &s1), "other funding states untouched")
	i := w.funding(STAKER0, 0)
	vs.Assert(vs.SameMsg(&i, &idle), "inactive funder not charged")
	vs.Reach("charged")
	st, _ := w.Funders.GetFundingState(w.Ctx, 0)
	if n > 0 && len(st.ActiveFunderAddresses) == 0 {
		vs.Reach("out of funds")
	}
	vs.Observe("native", amt(got, DENOM))
}

// H_F01_missing: a pool without funding state charges nobody.
func H_F01_missing() {
	w := fundersWorld(plainWhitelist())
	f := symFunding("a", ALICE, 0, denomSet(3))
	w.addFunding(f)
	d0 := w.Dump(true)
	b0 := w.Bank.snap()
	err := w.Tx(func(ctx sdk.Context) error {
		_, e := w.Funders.ChargeFundersOfPool(ctx, 7, pooltypes.ModuleName)
		return e
	})
	vs.Assert(err != nil, "unknown pool is rejected")
	vs.Assert(vs.And(SameDump(d0, w.Dump(true)), SameBank(b0, w.Bank)), "nothing changes")
	vs.Reach("missing")
}
