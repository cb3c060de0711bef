//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func (w *World) commissionOf(s string) sdk.Coins {
	x, _ := w.Stakers.GetStaker(w.Ctx, s)
	return x.CommissionRewards
}

// the stakers module holds exactly what all validators accrued
func (w *World) checkCommissionBacked() {
	for _, d := range fDenoms {
		t := bi(0)
		for _, s := range w.Stakers.GetAllStakers(w.Ctx) {
			t = add(t, amt(s.CommissionRewards, d))
		}
		vs.Assert(eq(t, w.modCoin(stakerstypes.ModuleName, d)), "the module holds the sum of all accrued commissions")
	}
}

// H_S06_commission: any accrued commissions, a credit of any coins, then up to two claims.
func H_S06_commission() {
	w := stakersWorld(0, 1)
	have := [][]int{{0, 1}, {1, 3}, {3, 0}, {6, 1}, {4, 3}}[vs.Choose("have", 5)]
	for i, k := range have {
		c := symCoins(nm("have%d", i), denomSet(k))
		w.Stakers.AppendStaker(w.Ctx, stakerstypes.Staker{Address: STAKERS[i], Commission: dec("0.1"), CommissionRewards: c, Moniker: "m"})
		for _, x := range c {
			w.Give(ModAddr(stakerstypes.ModuleName), x.Denom, x.Amount)
		}
	}
	// credit
	credit := symCoins("credit", denomSet(vs.Choose("credit", 5)))
	for _, d := range fDenoms {
		w.Give(ModAddr(pooltypes.ModuleName), d, vs.Int("payer."+d, "0", bigAmt))
	}
	who := []string{STAKER0, STAKER3}[vs.Choose("who", 2)]
	b0, before, other := w.Bank.snap(), w.commissionOf(STAKER0), w.commissionOf(STAKER1)
	d0 := w.Dump(false)
	e := w.Tx(func(ctx sdk.Context) error {
		return w.Stakers.IncreaseStakerCommissionRewards(ctx, who, pooltypes.ModuleName, credit)
	})
	enough := true
	for _, c := range credit {
		enough = vs.And(enough, le(c.Amount.BigInt(), b0.get(ModAddr(pooltypes.ModuleName), c.Denom).BigInt()))
	}
	if e != nil {
		vs.Assert(vs.Or(who == STAKER3, vs.Not(enough)), "an admissible credit succeeds")
		vs.Assert(vs.And(SameDump(d0, w.Dump(false)), SameBank(b0, w.Bank)), "a failed credit changes nothing")
		return
	}
	for _, d := range fDenoms {
		x := amt(credit, d)
		if who == STAKER3 {
			vs.Assert(len(credit) == 0, "only existing validators are credited")
		}
		vs.Assert(eq(sub(w.modCoin(stakerstypes.ModuleName, d), b0.get(ModAddr(stakerstypes.ModuleName), d).BigInt()), x), "the credit reaches the module")
		vs.Assert(eq(sub(b0.get(ModAddr(pooltypes.ModuleName), d).BigInt(), w.modCoin(pooltypes.ModuleName, d)), x), "the credit leaves the payer")
		vs.Assert(eq(sub(amt(w.commissionOf(STAKER0), d), amt(before, d)), x), "the accrued commission grows by the credit")
	}
	vs.Assert(sameCoins(other, w.commissionOf(STAKER1)), "other validators' commissions stay")
	w.checkCommissionBacked()
	// claims
	rounds := 1
	if vs.Thorough() {
		rounds = 2
	}
	for r := 0; r < rounds; r++ {
		s := []string{STAKER0, STAKER1, STAKER3}[vs.Choose(nm("claimer%d", r), 3)]
		m := &stakerstypes.MsgClaimCommissionRewards{Creator: s, Amounts: symCoins(nm("claim%d", r), denomSet(vs.Choose(nm("claimed%d", r), 5)))}
		b1, d1 := w.Bank.snap(), w.Dump(false)
		acc := []sdk.Coins{w.commissionOf(STAKER0), w.commissionOf(STAKER1)}
		e = w.Tx(func(ctx sdk.Context) error {
			if e := m.ValidateBasic(); e != nil {
				return e
			}
			_, e := smsg(w).ClaimCommissionRewards(ctx, m)
			return e
		})
		covered := true
		mine := w.commissionOf(STAKER3)
		for i := range acc {
			if s == STAKERS[i] {
				mine = acc[i]
			}
		}
		for _, c := range m.Amounts {
			covered = vs.And(covered, le(c.Amount.BigInt(), amt(mine, c.Denom)))
		}
		if e != nil {
			vs.Assert(vs.Or(s == STAKER3, len(m.Amounts) == 0, vs.Not(covered)), "an admissible claim succeeds")
			vs.Assert(vs.And(SameDump(d1, w.Dump(false)), SameBank(b1, w.Bank)), "a rejected claim changes nothing")
			vs.Reach("rejected")
			continue
		}
		vs.Reach("claimed")
		vs.Assert(vs.And(s != STAKER3, covered), "never more than accrued, only by the validator")
		for _, d := range fDenoms {
			x := amt(m.Amounts, d)
			vs.Assert(eq(sub(w.Bal(Acc(s), d), b1.get(Acc(s), d).BigInt()), x), "the validator gets exactly the requested coins")
			vs.Assert(eq(sub(amt(mine, d), amt(w.commissionOf(s), d)), x), "the accrued amount shrinks by exactly the claim")
		}
		for i := range acc {
			if s != STAKERS[i] {
				vs.Assert(sameCoins(acc[i], w.commissionOf(STAKERS[i])), "others' commissions stay")
			}
		}
		w.checkCommissionBacked()
		x, _ := w.Stakers.GetStaker(w.Ctx, s)
		vs.Assert(x.Moniker == "m" && x.Commission.Equal(dec("0.1")) && x.Address == s, "only the accrued commission changes")
	}
}

// H_S06_others: whatever else validators and delegators do, no accrued commission changes. Two validators
// with any accrued coins; one of every other operation, then all of it is claimed.
func H_S06_others() {
	w := bundlesWorld(3)
	var acc []sdk.Coins
	for i, k := range [][]int{{6, 1}, {4, 3}}[vs.Choose("have", 2)] {
		c := symCoins(nm("have%d", i), denomSet(k))
		acc = append(acc, c)
		for _, x := range c {
			w.Give(ModAddr(pooltypes.ModuleName), x.Denom, x.Amount)
		}
		must(w.Stakers.IncreaseStakerCommissionRewards(w.Ctx, STAKERS[i], pooltypes.ModuleName, c))
	}
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	w.mustDelegate(ALICE, STAKER0, 500)
	n := vs.U64("amount", 1, 1000)
	switch vs.Choose("op", 12) {
	case 0:
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := smsg(w).UpdateMetadata(ctx, &stakerstypes.MsgUpdateMetadata{Creator: STAKER0, Moniker: "n", Website: "w"})
			return e
		}))
	case 1:
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := smsg(w).UpdateCommission(ctx, &stakerstypes.MsgUpdateCommission{Creator: STAKER0, Commission: vs.Dec("commission", "0", "1")})
			return e
		}))
		w.stakersBlock(w.Time() + 10_000)
	case 2:
		_ = w.leave(STAKER0, 0)
		w.stakersBlock(w.Time() + 10_000)
	case 3:
		w.Stakers.LeavePool(w.Ctx, STAKER0, 0)
	case 4:
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	case 5:
		w.mustDelegate(BOB, STAKER0, n)
	case 6:
		must(w.undelegate(STAKER0, STAKER0, n))
		w.At(8, w.Time()+10_000)
		w.beginDelegation()
	case 7:
		must(w.redelegate(STAKER0, STAKER0, STAKER1, n))
	case 8:
		w.GiveU(STAKER3, 50)
		_ = w.Tx(func(ctx sdk.Context) error {
			_, e := smsg(w).CreateStaker(ctx, &stakerstypes.MsgCreateStaker{Creator: STAKER3, Amount: 50})
			return e
		})
	case 9: // a second registration is no fresh start
		vs.Assert(w.Tx(func(ctx sdk.Context) error {
			_, e := smsg(w).CreateStaker(ctx, &stakerstypes.MsgCreateStaker{Creator: STAKER0})
			return e
		}) != nil, "a validator registers once")
	case 10:
		_ = w.disable(0)
	case 11:
		must(w.pay(STAKER0, sdk.NewCoins(sdk.NewInt64Coin(DENOM, 77))))
		must(w.withdraw(ALICE, STAKER0))
	}
	for i, c := range acc {
		vs.Assert(sameCoins(c, w.commissionOf(STAKERS[i])), "nothing else changes an accrued commission")
	}
	w.checkCommissionBacked()
	for i, c := range acc {
		b := w.Bank.snap()
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := smsg(w).ClaimCommissionRewards(ctx, &stakerstypes.MsgClaimCommissionRewards{Creator: STAKERS[i], Amounts: c})
			return e
		}))
		for _, d := range fDenoms {
			vs.Assert(eq(sub(w.Bal(Acc(STAKERS[i]), d), b.get(Acc(STAKERS[i]), d).BigInt()), amt(c, d)), "all of it can be claimed")
		}
	}
	w.checkCommissionBacked()
	vs.Reach("claimed all")
}
