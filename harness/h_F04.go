//verif:use lib_funders.go

package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// F04: a funder profile is created once and changed only by its owner, who needs it to fund.

func profile(addr, t string) funderstypes.Funder {
	return funderstypes.Funder{Address: addr, Moniker: "mo" + t, Identity: "id" + t, Website: "we" + t, Contact: "co" + t, Description: "de" + t}
}

// H_F04_profiles: two creations or updates by two addresses, existing or not, with fundings of any size around.
func H_F04_profiles() {
	w := fundersWorld(plainWhitelist())
	w.addFunding(symFunding("b", BOB, 0, []string{coinB, DENOM}))
	w.addFunding(symFunding("c", CHARLIE, 1, []string{DENOM}))
	want := map[string]funderstypes.Funder{}
	for _, a := range []string{BOB, CHARLIE} {
		want[a], _ = w.Funders.GetFunder(w.Ctx, a)
	}
	bank := w.Bank.snap()
	for i := 0; i < 2; i++ {
		who := []string{ALICE, BOB}[vs.Choose("who", 2)]
		t := []string{"", "1"}[i]
		p := profile(who, t)
		if i == 1 { // like before, except for one left out or one new; all but the name left out; all new
			fs := []*string{&p.Identity, &p.Website, &p.Contact, &p.Description, &p.Moniker}
			k := vs.Choose("texts", 11)
			if old, ok := want[who]; ok && k < 9 {
				p = old
				fs = []*string{&p.Identity, &p.Website, &p.Contact, &p.Description, &p.Moniker}
			}
			switch {
			case k < 4:
				*fs[k] = ""
			case k < 9:
				*fs[k-4] = "new"
			case k == 9:
				*fs[0], *fs[1], *fs[2], *fs[3] = "", "", "", ""
			}
		}
		_, exists := want[who]
		create := vs.Choose("op", 2) == 0
		before := w.Dump(true)
		e := w.Tx(func(ctx sdk.Context) error {
			if create {
				_, e := fundersMsg(w).CreateFunder(ctx, &funderstypes.MsgCreateFunder{Creator: who, Moniker: p.Moniker, Identity: p.Identity, Website: p.Website, Contact: p.Contact, Description: p.Description})
				return e
			}
			_, e := fundersMsg(w).UpdateFunder(ctx, &funderstypes.MsgUpdateFunder{Creator: who, Moniker: p.Moniker, Identity: p.Identity, Website: p.Website, Contact: p.Contact, Description: p.Description})
			return e
		})
		vs.Assert((e == nil) == (create != exists), "profiles are created once and only existing ones are updated")
		if e == nil {
			want[who] = p
			vs.Reach("changed")
			got, ok := w.Funders.GetFunder(w.Ctx, who)
			vs.Assert(ok && vs.SameMsg(&got, &p), "the profile is what its owner says")
		} else {
			vs.Assert(SameDump(before, w.Dump(true)), "a rejected request changes nothing")
		}
		for _, a := range []string{ALICE, BOB, CHARLIE} {
			got, ok := w.Funders.GetFunder(w.Ctx, a)
			x, known := want[a]
			vs.Assert(ok == known && w.Funders.DoesFunderExist(w.Ctx, a) == known, "profiles exist exactly as created")
			if known {
				vs.Assert(vs.SameMsg(&got, &x), "no other profile changes")
			}
		}
		vs.Assert(len(w.Funders.GetAllFunders(w.Ctx)) == len(want), "no other profiles appear")
	}
	vs.Assert(SameBank(bank, w.Bank), "profiles move no coins")
	w.checkActive("profiles do not change who funds")
	w.checkFundersBacked("profiles do not change what is funded")
}

// H_F04_needed: funding and defunding with or without profile, pool, funding state and earlier funding, any amounts.
func H_F04_needed() {
	w := fundersWorld(plainWhitelist())
	w.Pool.AppendPool(w.Ctx, pooltypes.Pool{Name: "pool"}) // pool 2 has no funding state
	w.addFunding(symFunding("b", BOB, 0, []string{DENOM}))
	has := vs.Choose("profile", 2) == 1
	if has {
		w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: ALICE, Moniker: "m"})
	}
	for _, d := range fDenoms {
		w.Give(Acc(ALICE), d, vs.Int("alice."+d, "0", bigAmt))
	}
	pool := uint64(vs.Choose("pool", 4))
	before, bank := w.Dump(true), w.Bank.snap()
	// big enough for all minimums
	a, per := vs.Int("amount", "1000", bigAmt), vs.Int("per", "10", "50")
	e := w.Tx(func(ctx sdk.Context) error {
		_, e := fundersMsg(w).FundPool(ctx, &funderstypes.MsgFundPool{Creator: ALICE, PoolId: pool, Amounts: sdk.Coins{{Denom: DENOM, Amount: a}}, AmountsPerBundle: sdk.Coins{{Denom: DENOM, Amount: per}}})
		return e
	})
	paid := le(a.BigInt(), bank.get(Acc(ALICE), DENOM).BigInt())
	vs.Assert(vs.Iff(e == nil, vs.And(has, pool < 2, paid)), "a pool is funded by a funder with a profile and the coins")
	if e != nil {
		vs.Assert(vs.And(SameDump(before, w.Dump(true)), SameBank(bank, w.Bank)), "a rejected funding changes nothing")
	} else {
		f := w.funding(ALICE, pool)
		vs.Assert(vs.And(f.Amounts.AmountOf(DENOM).Equal(a), f.AmountsPerBundle.AmountOf(DENOM).Equal(per), len(f.Amounts) == 1), "the funding is recorded")
		vs.Reach("funded")
	}
	// taking back: only what one has, any amount
	d := vs.Int("back", "1", bigAmt)
	before, bank = w.Dump(true), w.Bank.snap()
	from := uint64(vs.Choose("from", 3))
	e2 := w.Tx(func(ctx sdk.Context) error {
		_, e := fundersMsg(w).DefundPool(ctx, &funderstypes.MsgDefundPool{Creator: ALICE, PoolId: from, Amounts: sdk.Coins{{Denom: DENOM, Amount: d}}})
		return e
	})
	if e != nil || from != pool {
		vs.Assert(e2 != nil, "who has not funded gets nothing back")
	}
	if e2 != nil {
		vs.Assert(vs.And(SameDump(before, w.Dump(true)), SameBank(bank, w.Bank)), "a rejected request to get coins back changes nothing")
	} else {
		vs.Reach("back")
		vs.Assert(vs.And(eq(sub(w.BalU(ALICE), bank.get(Acc(ALICE), DENOM).BigInt()), minBig(a.BigInt(), d.BigInt()))), "what is asked for comes back, at most what is left")
	}
	w.checkActive("active exactly while something is left")
	w.checkFundersBacked("funding account holds the sum of all fundings")
}
