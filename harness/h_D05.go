//verif:use lib_funders.go
//verif:use lib_delegation.go

package main

import (
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_D05_limit: any earlier uses, any cooldown, any limit, any time: a redelegation passes exactly
// while a use is free.
func H_D05_limit() {
	w := delegWorld(2)
	cooldown := vs.U64("cooldown", 0, 1_000_000_000)
	max := vs.U64("max", 0, 4)
	w.Delegation.SetParams(w.Ctx, delegationtypes.NewParams(1000, cooldown, max, dec("0.1"), dec("0.1"), dec("0.1")))
	w.mustDelegate(ALICE, STAKER0, 1000)
	w.mustDelegate(BOB, STAKER0, 1000)
	k := 3
	if vs.Thorough() {
		k = 5
	}
	n := vs.Choose("uses", k+1)
	last := uint64(1_600_000_000)
	var uses []uint64
	for i := 0; i < n; i++ {
		last += vs.U64(nm("gap%d", i), 1, 1_000_000_000)
		w.Delegation.SetRedelegationCooldown(w.Ctx, delegationtypes.RedelegationCooldown{Address: ALICE, CreationDate: last})
		uses = append(uses, last)
	}
	// somebody else's use does not count
	w.Delegation.SetRedelegationCooldown(w.Ctx, delegationtypes.RedelegationCooldown{Address: BOB, CreationDate: 1_600_000_001})
	for round := 0; round < 2; round++ {
		last += vs.U64(nm("wait%d", round), 0, 1_500_000_000)
		now := last
		w.At(w.Ctx.BlockHeight()+1, int64(now))
		var active []uint64
		same := false
		for _, u := range uses {
			if vs.Fork(now-u <= cooldown) {
				active = append(active, u)
				same = vs.Or(same, u == now)
			}
		}
		before := w.Dump(false)
		bank := w.Bank.snap()
		a, b := w.stake(STAKER0, ALICE), w.stake(STAKER1, ALICE)
		e := w.redelegate(ALICE, STAKER0, STAKER1, 10)
		if e != nil {
			vs.Assert(SameDump(before, w.Dump(false)), "a rejected redelegation consumes nothing")
			vs.Assert(vs.Or(bi(uint64(len(active))).Cmp(bi(max)) >= 0, same), "a free use is granted")
			vs.Reach("rejected")
		} else {
			vs.Assert(vs.And(bi(uint64(len(active))).Cmp(bi(max)) < 0, vs.Not(same)), "no more uses than configured within the cooldown, one per block")
			vs.Assert(vs.And(eq(sub(a, w.stake(STAKER0, ALICE)), bi(10)), eq(sub(w.stake(STAKER1, ALICE), b), bi(10))), "the amount moves")
			active = append(active, now)
			got := w.Delegation.GetRedelegationCooldownEntries(w.Ctx, ALICE)
			vs.Assert(len(got) == len(active), "the use is recorded and expired ones are freed")
			for i := range got {
				vs.Assert(got[i] == active[i], "recorded uses are those within the cooldown")
			}
			uses = active
			vs.Reach("granted")
		}
		vs.Assert(SameBank(bank, w.Bank), "no token moves")
		vs.Assert(len(w.Delegation.GetRedelegationCooldownEntries(w.Ctx, BOB)) == 1, "another delegator's uses are untouched")
	}
}

// H_D05_move: any amounts, any target.
func H_D05_move() {
	w := delegWorld(2)
	w.addStaker(2) // registered, but in no pool
	stake := vs.U64("stake", 0, stakeCap)
	w.mustDelegate(ALICE, STAKER0, stake)
	w.mustDelegate(BOB, STAKER0, vs.U64("bob", 0, stakeCap))
	w.mustDelegate(ALICE, STAKER1, vs.U64("have", 0, stakeCap))
	slashed := vs.Choose("slashed", 2) == 1
	if slashed {
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	}
	w.At(w.Ctx.BlockHeight()+1, w.Time()+10)
	to := STAKERS[vs.Choose("to", 4)] // itself, active, inactive, unknown
	amount := vs.U64("amount", 0, 2*stakeCap)
	before := w.Dump(false)
	bank := w.Bank.snap()
	from0, to0, bob := w.stake(STAKER0, ALICE), w.stake(to, ALICE), w.stake(STAKER0, BOB)
	t0, t1 := w.total(STAKER0), w.total(to)
	var vf bool
	var v stakerstypes.Staker
	v, vf = w.Stakers.GetStaker(w.Ctx, to)
	e := w.redelegate(ALICE, STAKER0, to, amount)
	vs.Assert(SameBank(bank, w.Bank), "no token leaves the delegation account")
	if e != nil {
		vs.Assert(SameDump(before, w.Dump(false)), "a rejected redelegation changes nothing")
		vs.Assert(vs.Or(to == STAKER2, to == STAKER3, lt(from0, bi(amount)), stake == 0), "an admissible redelegation is accepted")
		vs.Reach("rejected")
		return
	}
	vs.Reach("moved")
	vs.Assert(vf && v.Address == to && to != STAKER2, "only to a validator in a pool")
	vs.Assert(le(bi(amount), from0), "never more than owned")
	if to == STAKER0 {
		vs.Assert(vs.And(eq(from0, w.stake(STAKER0, ALICE)), eq(t0, w.total(STAKER0))), "moving to the same validator keeps the stake")
	} else {
		vs.Assert(eq(sub(from0, w.stake(STAKER0, ALICE)), bi(amount)), "exactly the amount leaves")
		vs.Assert(eq(sub(w.stake(to, ALICE), to0), bi(amount)), "exactly the amount arrives")
		vs.Assert(vs.And(eq(sub(t0, w.total(STAKER0)), bi(amount)), eq(sub(w.total(to), t1), bi(amount))), "totals follow")
	}
	vs.Assert(eq(bob, w.stake(STAKER0, BOB)), "others keep their stake")
	vs.Assert(len(w.Delegation.GetRedelegationCooldownEntries(w.Ctx, ALICE)) == 1, "one use is consumed")
	w.checkDelegationSums(6)
}
