package main

import (
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	delegationkeeper "github.com/KYVENetwork/chain/x/delegation/keeper"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	delegationmod "github.com/KYVENetwork/chain/x/delegation"
	"github.com/KYVENetwork/chain/zz_verif/vs"
)

const u64max = 1<<64 - 1

const i64cap = 1<<63 - 1

const stakeCap = 1_000_000_000_000_000_000 // a thousand times the token supply

// a few fractions which round in different ways
var fracs = []string{"0.333333333333333333", "1", "0.1", "0.000000000000000001", "0", "0.999999999999999999"}

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }

// delegWorld has n validators, all in pool 0.
func delegWorld(n int) *World {
	w := NewWorld()
	w.Pool.AppendPool(w.Ctx, pooltypes.Pool{Name: "p0"})
	w.Pool.AppendPool(w.Ctx, pooltypes.Pool{Name: "p1"})
	w.setSlash("0.1", "0.2", "0.02")
	for i := 0; i < n; i++ {
		w.addStaker(i)
		w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKERS[i], VALSA[i])
	}
	return w
}

func (w *World) addStaker(i int) {
	w.Stakers.AppendStaker(w.Ctx, stakerstypes.Staker{Address: STAKERS[i], Commission: dec("0.1")})
}

func (w *World) setSlash(vote, upload, timeout string) {
	w.Delegation.SetParams(w.Ctx, delegationtypes.NewParams(1000, 1000, 5, dec(vote), dec(upload), dec(timeout)))
}

func dmsg(w *World) delegationtypes.MsgServer { return delegationkeeper.NewMsgServerImpl(w.Delegation) }

// valMsg runs a message like the chain does: stateless validation, then the handler.
func (w *World) delegate(who, staker string, amount uint64) error {
	m := &delegationtypes.MsgDelegate{Creator: who, Staker: staker, Amount: amount}
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := dmsg(w).Delegate(ctx, m)
		return e
	})
}

func (w *World) undelegate(who, staker string, amount uint64) error {
	m := &delegationtypes.MsgUndelegate{Creator: who, Staker: staker, Amount: amount}
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := dmsg(w).Undelegate(ctx, m)
		return e
	})
}

func (w *World) redelegate(who, from, to string, amount uint64) error {
	m := &delegationtypes.MsgRedelegate{Creator: who, FromStaker: from, ToStaker: to, Amount: amount}
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := dmsg(w).Redelegate(ctx, m)
		return e
	})
}

func (w *World) withdraw(who, staker string) error {
	m := &delegationtypes.MsgWithdrawRewards{Creator: who, Staker: staker}
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := dmsg(w).WithdrawRewards(ctx, m)
		return e
	})
}

// must is for steps whose success is not in question.
func must(e error) {
	if e != nil {
		vs.Assert(false, "set-up step succeeds")
		vs.Assume(false)
	}
}

// mustDelegate gives the coins and delegates them.
func (w *World) mustDelegate(who, staker string, amount uint64) {
	w.GiveU(who, amount)
	must(w.delegate(who, staker, amount))
}

func (w *World) total(staker string) *big.Int {
	return bi(w.Delegation.GetDelegationAmount(w.Ctx, staker))
}
func (w *World) stake(staker, who string) *big.Int {
	return bi(w.Delegation.GetDelegationAmountOfDelegator(w.Ctx, staker, who))
}

// pay hands rewards to the delegators of a validator, out of the pool module.
func (w *World) pay(staker string, c sdk.Coins) error {
	for _, x := range c {
		w.Give(ModAddr(pooltypes.ModuleName), x.Denom, x.Amount)
	}
	return w.Tx(func(ctx sdk.Context) error {
		return w.Delegation.PayoutRewards(ctx, staker, c, pooltypes.ModuleName)
	})
}

func (w *World) slash(staker string, t delegationtypes.SlashType) {
	w.Delegation.SlashDelegators(w.Ctx, 0, staker, t)
}

// everything stored for one validator
func (w *World) stakerRecords(staker string) []string {
	var out []string
	for _, d := range w.Delegation.GetAllDelegators(w.Ctx) {
		if d.Staker == staker {
			out = append(out, d.Delegator)
		}
	}
	return out
}

// checkDelegationSums: totals and counts against the individual delegations.
func (w *World) checkDelegationSums(dust uint64) {
	all := bi(0)
	for _, s := range STAKERS {
		data, found := w.Delegation.GetDelegationData(w.Ctx, s)
		sumD, n := bi(0), uint64(0)
		for _, d := range w.Delegation.GetAllDelegators(w.Ctx) {
			if d.Staker == s {
				n++
				x := w.stake(s, d.Delegator)
				vs.Assert(vs.Or(lt(bi(0), x), found), "delegation belongs to a known validator")
				sumD = add(sumD, x)
				ok := 0
				for _, t := range w.Delegation.GetStakersByDelegator(w.Ctx, d.Delegator) {
					if t == s {
						ok++
					}
				}
				vs.Assert(ok == 1, "delegator index lists the validator once")
			}
		}
		if !found {
			vs.Assert(n == 0, "no delegations to an unknown validator")
			continue
		}
		vs.Assert(data.DelegatorCount == n, "delegator count matches the delegations")
		t := w.total(s)
		all = add(all, t)
		vs.Assert(le(sumD, t), "total stake covers all delegations")
		vs.Assert(le(t, add(sumD, bi(dust))), "total stake exceeds the delegations only by dust")
	}
	links := 0
	for _, u := range append(append([]string{}, USERS...), STAKERS...) {
		links += len(w.Delegation.GetStakersByDelegator(w.Ctx, u))
	}
	vs.Assert(links == len(w.Delegation.GetAllDelegators(w.Ctx)), "delegator index has no further entries")
	vs.Assert(le(all, w.ModBal(delegationtypes.ModuleName)), "delegation account can return every delegation")
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
}

// sameStaker is the condition that nothing of a validator's delegations differs.
type stakerSnap struct {
	total *big.Int
	who   []string
	amt   []*big.Int
	rew   []sdk.Coins
}

func (w *World) snapStaker(s string) (x stakerSnap) {
	x.total = w.total(s)
	x.who = w.stakerRecords(s)
	for _, u := range x.who {
		x.amt = append(x.amt, w.stake(s, u))
		x.rew = append(x.rew, w.Delegation.GetOutstandingRewards(w.Ctx, s, u))
	}
	return
}

func (a stakerSnap) same(b stakerSnap) bool {
	if len(a.who) != len(b.who) {
		return false
	}
	r := eq(a.total, b.total)
	for i := range a.who {
		if a.who[i] != b.who[i] {
			return false
		}
		r = vs.And(r, eq(a.amt[i], b.amt[i]), sameCoins(a.rew[i], b.rew[i]))
	}
	return r
}

func (w *World) treasury() *big.Int { return w.ModBal(distrtypes.ModuleName) }

func nm(f string, a ...any) string { return fmt.Sprintf(f, a...) }

func anyDec(name string) math.LegacyDec {
	return vs.Dec(name, "-2000000000000000000", "3000000000000000000")
}
func okDec(name string) math.LegacyDec { return vs.Dec(name, "0", "1000000000000000000") }
func notShare(d math.LegacyDec) bool {
	return vs.Or(d.BigInt().Sign() < 0, lt(one18, d.BigInt()))
}

// beginDelegation is the delegation part of a block's beginning.
func (w *World) beginDelegation() {
	must(delegationmod.NewAppModule(nil, w.Delegation, nil, w.Bank).BeginBlock(w.Ctx))
}
