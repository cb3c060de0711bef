package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	poolkeeper "github.com/KYVENetwork/chain/x/pool/keeper"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerskeeper "github.com/KYVENetwork/chain/x/stakers/keeper"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	stakersmod "github.com/KYVENetwork/chain/x/stakers"
	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func smsg(w *World) stakerstypes.MsgServer { return stakerskeeper.NewMsgServerImpl(w.Stakers) }
func pmsg(w *World) pooltypes.MsgServer    { return poolkeeper.NewMsgServerImpl(w.Pool) }

// stakersWorld has n registered validators and p pools.
func stakersWorld(n, p int) *World {
	w := NewWorld()
	for i := 0; i < p; i++ {
		w.Pool.AppendPool(w.Ctx, pooltypes.Pool{Name: "p"})
	}
	w.setSlash("0.1", "0.2", "0.02")
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(1000, 1000))
	for i := 0; i < n; i++ {
		w.addStaker(i)
	}
	return w
}

func (w *World) join(staker string, pool uint64, val string, amount uint64) error {
	m := &stakerstypes.MsgJoinPool{Creator: staker, PoolId: pool, Valaddress: val, Amount: amount}
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := smsg(w).JoinPool(ctx, m)
		return e
	})
}

func (w *World) leave(staker string, pool uint64) error {
	m := &stakerstypes.MsgLeavePool{Creator: staker, PoolId: pool}
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := smsg(w).LeavePool(ctx, m)
		return e
	})
}

func (w *World) disable(pool uint64) error {
	m := &pooltypes.MsgDisablePool{Authority: GOV, Id: pool}
	return w.Tx(func(ctx sdk.Context) error {
		_, e := pmsg(w).DisablePool(ctx, m)
		return e
	})
}

// stakersBlock is the stakers part of a block at the given time.
func (w *World) stakersBlock(t int64) {
	w.At(w.Ctx.BlockHeight()+1, t)
	w.beginStakers()
}

func (w *World) beginStakers() {
	must(stakersmod.NewAppModule(nil, w.Stakers, nil, w.Bank).BeginBlock(w.Ctx))
}

func (w *World) member(staker string, pool uint64) bool {
	_, ok := w.Stakers.GetValaccount(w.Ctx, pool, staker)
	return ok
}

// memberships as "staker|pool" in the order of the pools
func (w *World) members(pools int) map[string]stakerstypes.Valaccount {
	out := map[string]stakerstypes.Valaccount{}
	for p := 0; p < pools; p++ {
		for _, s := range STAKERS {
			if v, ok := w.Stakers.GetValaccount(w.Ctx, uint64(p), s); ok {
				out[nm("%s|%d", s, p)] = v
			}
		}
	}
	return out
}

// sameMembers checks that exactly the memberships in except (may be "") differ.
func (w *World) sameMembers(before map[string]stakerstypes.Valaccount, pools int, msg string, except ...string) {
	after := w.members(pools)
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	for p := 0; p < pools; p++ {
		for _, s := range STAKERS {
			k := nm("%s|%d", s, p)
			if skip[k] {
				continue
			}
			a, x := before[k]
			b, y := after[k]
			vs.Assert(x == y, msg)
			if x && y {
				vs.Assert(vs.SameMsg(&a, &b), msg)
			}
		}
	}
}

// checkMembership: counters, indexes and lookups against the membership entries.
func (w *World) checkMembership(pools int) {
	all := w.Stakers.GetAllValaccounts(w.Ctx)
	vs.Assert(len(all) == len(w.members(pools)), "every membership entry is found by its pool and validator")
	active := map[string]int{}
	for p := 0; p < pools; p++ {
		n := 0
		for _, v := range all {
			if v.PoolId == uint64(p) {
				n++
				active[v.Staker]++
			}
		}
		vs.Assert(w.Stakers.GetStakerCountOfPool(w.Ctx, uint64(p)) == uint64(n), "number of validators of a pool equals its membership entries")
		list := w.Stakers.GetAllValaccountsOfPool(w.Ctx, uint64(p))
		vs.Assert(len(list) == n, "lookup by pool lists all memberships")
		addr := w.Stakers.GetAllStakerAddressesOfPool(w.Ctx, uint64(p))
		vs.Assert(len(addr) == n, "addresses of a pool are those of its memberships")
		for i, v := range list {
			vs.Assert(v.PoolId == uint64(p) && w.member(v.Staker, uint64(p)), "lookup by pool lists only that pool")
			vs.Assert(addr[i] == v.Staker, "addresses of a pool are those of its memberships")
		}
	}
	act := w.Stakers.GetActiveStakers(w.Ctx)
	vs.Assert(len(act) == len(active), "active validators are those in some pool")
	for _, s := range act {
		vs.Assert(active[s] > 0, "active validators are those in some pool")
	}
	for _, s := range STAKERS {
		vs.Assert(w.Stakers.GetPoolCount(w.Ctx, s) == uint64(active[s]), "pool count equals the memberships")
		vl := w.Stakers.GetValaccountsFromStaker(w.Ctx, s)
		vs.Assert(len(vl) == active[s], "lookup by validator lists all memberships")
		for _, v := range vl {
			u, ok := w.Stakers.GetValaccount(w.Ctx, v.PoolId, s)
			vs.Assert(ok && vs.SameMsg(v, &u), "both lookups return the same membership")
		}
	}
}

func (w *World) pool(id uint64) pooltypes.Pool {
	p, ok := w.Pool.GetPool(w.Ctx, id)
	vs.Assert(ok, "pool exists")
	return p
}
