//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_S03_join: any combination of caller, pool, worker account, amount and balance.
func H_S03_join() {
	w := stakersWorld(3, 4)
	must(w.disable(2))
	// 0 is in pool 0, 1 in pool 1, 2 in none
	w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER0, VAL0A)
	w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER1, VAL1A)
	w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER1, VAL1B)
	for _, s := range STAKERS {
		w.GiveU(s, vs.U64("bal."+s[5:8], 0, 1_000))
	}
	s := STAKERS[vs.Choose("staker", 4)] // the last one is not registered
	pool := []uint64{0, 1, 2, 3, 4}[vs.Choose("pool", 5)]
	val := []string{VAL0A, VAL1A, VAL1B, VAL2A, STAKER0, STAKER1, STAKER2}[vs.Choose("val", 7)]
	amount := vs.U64("amount", 0, 2_000)
	before := w.Dump(false)
	members := w.members(4)
	bank := w.Bank.snap()
	used := false
	for _, v := range w.Stakers.GetAllValaccounts(w.Ctx) {
		used = used || (v.Valaddress == val && (v.PoolId == pool || v.Staker == s))
	}
	registered := s != STAKER3
	already := w.member(s, pool)
	b0, v0 := w.BalU(s), w.BalU(val)
	e := w.join(s, pool, val, amount)
	admissible := registered && pool != 2 && pool != 4 && !already && val != s && !used
	if e != nil {
		vs.Assert(vs.Or(!admissible, lt(b0, bi(amount))), "an admissible join is accepted")
		vs.Assert(vs.And(SameDump(before, w.Dump(false)), SameBank(bank, w.Bank)), "a rejected join changes nothing")
		vs.Reach("rejected")
		return
	}
	vs.Reach("joined")
	vs.Assert(admissible, "joined only if registered, pool enabled, no member, account free")
	vs.Assert(vs.And(le(bi(amount), b0), eq(sub(b0, w.BalU(s)), bi(amount)), eq(sub(w.BalU(val), v0), bi(amount))), "exactly the amount goes to the worker account")
	w.sameMembers(members, 4, "other memberships stay", nm("%s|%d", s, pool))
	for p := uint64(0); p < 5; p++ {
		for _, st := range STAKERS {
			for _, a := range []string{VAL0A, VAL0B, VAL1A, VAL1B, VAL2A, STAKER0, STAKER1, STAKER2, STAKER3, ALICE} {
				want := false
				for _, v := range w.Stakers.GetAllValaccounts(w.Ctx) {
					want = want || (v.Staker == st && v.PoolId == p && v.Valaddress == a)
				}
				vs.Assert((w.Stakers.AssertValaccountAuthorized(w.Ctx, p, st, a) == nil) == want, "exactly the registered worker account is authorised")
			}
		}
	}
	seen := map[string]bool{}
	for _, v := range w.Stakers.GetAllValaccounts(w.Ctx) {
		k1, k2 := nm("%d|%s", v.PoolId, v.Valaddress), v.Staker+v.Valaddress
		vs.Assert(!seen[k1] && !seen[k2] && v.Valaddress != v.Staker, "worker accounts are used once per pool and per validator")
		seen[k1], seen[k2] = true, true
	}
	w.checkMembership(4)
	_ = stakerstypes.ModuleName
}
