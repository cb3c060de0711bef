//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_S01_sequences: joins, announced leaves, kicks, point changes and pool removals in any order,
// with blocks at any time in between.
func H_S01_sequences() {
	depth := 3
	if vs.Thorough() {
		depth = 4
	}
	w := stakersWorld(2, 2)
	w.mustDelegate(ALICE, STAKER0, 10)
	if vs.Choose("start", 2) == 0 {
		depth--
	} else {
		w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER0, VAL0A)
		w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER0, VAL0B)
		w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER1, VAL1A)
		w.checkMembership(2)
	}
	ops := []int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14, 15, 16}
	if vs.Thorough() {
		ops = append(ops, 3, 7, 11)
	}
	for i := 0; i < depth; i++ {
		op := ops[vs.Choose(nm("op%d", i), len(ops))]
		s, p := (op>>1)&1, uint64(op&1)
		key := nm("%s|%d", STAKERS[s], p)
		before := w.members(2)
		was := w.member(STAKERS[s], p)
		disabled := w.pool(p).Disabled
		switch {
		case op < 4: // join
			val := [][]string{VALSA, VALSB}[p][s]
			e := w.join(STAKERS[s], p, val, 0)
			vs.Assert((e == nil) == (!was && !disabled), "a validator joins an enabled pool once")
			if e == nil {
				v, ok := w.Stakers.GetValaccount(w.Ctx, p, STAKERS[s])
				vs.Assert(ok && v.Points == 0 && !v.IsLeaving && v.Valaddress == val && v.Staker == STAKERS[s] && v.PoolId == p, "a new membership starts clean")
				w.sameMembers(before, 2, "joining leaves other memberships alone", key)
			} else {
				w.sameMembers(before, 2, "a rejected join changes nothing")
			}
		case op < 8: // announce
			if w.leave(STAKERS[s], p) == nil {
				vs.Assert(was, "only members leave")
				w.sameMembers(before, 2, "announcing leaves other memberships alone", key)
				vs.Assert(w.member(STAKERS[s], p), "announcing keeps the membership")
			}
		case op < 12: // kicked, e.g. after a slash
			w.Stakers.LeavePool(w.Ctx, STAKERS[s], p)
			vs.Assert(!w.member(STAKERS[s], p), "a removed validator is gone")
			w.sameMembers(before, 2, "a removal leaves other memberships alone", key)
		case op < 14:
			e := w.disable(p)
			vs.Assert((e == nil) == !disabled, "a pool is disabled once")
			vs.Assert(len(w.Stakers.GetAllStakerAddressesOfPool(w.Ctx, p)) == 0 || disabled, "a disabled pool has no validators")
			w.sameMembers(before, 2, "disabling leaves other pools alone", nm("%s|%d", STAKER0, p), nm("%s|%d", STAKER1, p))
		case op == 14:
			w.stakersBlock(w.Time() + vs.I64(nm("dt%d", i), 0, 2000))
		case op == 15:
			n := w.Stakers.IncrementPoints(w.Ctx, 0, STAKER0)
			a, ok := before[nm("%s|%d", STAKER0, 0)]
			vs.Assert(!ok || n == a.Points+1, "one point more")
			w.sameMembers(before, 2, "points of others stay", nm("%s|%d", STAKER0, 0))
		case op == 16:
			w.Stakers.ResetPoints(w.Ctx, 0, STAKER0)
			w.sameMembers(before, 2, "points of others stay", nm("%s|%d", STAKER0, 0))
		}
		w.checkMembership(2)
	}
	vs.Reach("end")
}

// H_S01_many: validators of four pools leave them one after the other, in any order and way, and may come back.
func H_S01_many() {
	const pools = 4
	w := stakersWorld(2, pools)
	vals := [][]string{{VAL0A, VAL0B, VAL2A, VAL2B}, {VAL1A, VAL1B, VAL3A, VAL3B}}
	n := 2 + vs.Choose("pools", 3)
	for p := 0; p < n; p++ {
		vs.Assert(w.join(STAKER0, uint64(p), vals[0][p], 0) == nil, "a validator may join every pool")
		w.checkMembership(pools)
	}
	must(w.join(STAKER1, 1, vals[1][1], 0))
	steps := n
	back := vs.Choose("back", 2) == 1
	for i := 0; i < steps; i++ {
		var in []uint64
		for p := uint64(0); p < pools; p++ {
			if w.member(STAKER0, p) {
				in = append(in, p)
			}
		}
		p := in[vs.Choose(nm("pool%d", i), len(in))]
		before := w.members(pools)
		way := 0
		if i == 0 {
			way = vs.Choose("way", 3)
		}
		except := []string{nm("%s|%d", STAKER0, p)}
		switch way {
		case 0: // kicked
			w.Stakers.LeavePool(w.Ctx, STAKER0, p)
		case 1: // leaves
			must(w.leave(STAKER0, p))
			w.checkMembership(pools)
			w.stakersBlock(w.Time() + 5000)
		case 2:
			must(w.disable(p))
			except = append(except, nm("%s|%d", STAKER1, p))
		}
		vs.Assert(!w.member(STAKER0, p), "a removed validator is gone")
		w.sameMembers(before, pools, "a removal leaves other memberships alone", except...)
		w.checkMembership(pools)
		if back && i == 0 && way != 2 {
			vs.Assert(w.join(STAKER0, p, vals[0][p], 0) == nil, "a validator may join again")
			w.checkMembership(pools)
			steps++
		}
	}
	vs.Reach("left all")
}
