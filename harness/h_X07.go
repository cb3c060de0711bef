//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go
//verif:use lib_team.go

package main

import (
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/log"
	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authkeeper "github.com/cosmos/cosmos-sdk/x/auth/keeper"
	distrkeeper "github.com/cosmos/cosmos-sdk/x/distribution/keeper"
	govkeeper "github.com/cosmos/cosmos-sdk/x/gov/keeper"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	querykeeper "github.com/KYVENetwork/chain/x/query/keeper"
	querytypes "github.com/KYVENetwork/chain/x/query/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X07: the figures which the queries report are the ones the transactions honour.

func (w *World) askDelegator(staker, who string) *querytypes.StakerDelegatorResponse {
	r, e := w.Query.Delegator(w.Ctx, &querytypes.QueryDelegatorRequest{Staker: staker, Delegator: who})
	vs.Assert(e == nil && r != nil && r.Delegator != nil, "the query answers")
	vs.Assert(r.Delegator.Staker == staker && r.Delegator.Delegator == who, "the answer is about the question")
	return r.Delegator
}

func (w *World) assets(who string) *querytypes.QueryAccountAssetsResponse {
	r, e := w.Query.AccountAssets(w.Ctx, &querytypes.QueryAccountAssetsRequest{Address: who})
	vs.Assert(e == nil && r != nil, "the query answers")
	return r
}

func (w *World) fullStaker(s string) querytypes.FullStaker {
	r, e := w.Query.Staker(w.Ctx, &querytypes.QueryStakerRequest{Address: s})
	vs.Assert(e == nil && r != nil, "the query answers")
	return r.Staker
}

// asLaunched gives the pools what the creation of a pool always sets.
func (w *World) asLaunched() *World {
	w.setPoolParams("0.04", "0.05", "1")
	for _, p := range w.Pool.GetAllPools(w.Ctx) {
		id, name := p.Id, p.Name
		p = basePool(dec("1"))
		p.Id, p.Name = id, name
		w.Pool.SetPool(w.Ctx, p)
		if !w.Funders.DoesFundingStateExist(w.Ctx, id) {
			w.Funders.CreateFundingState(w.Ctx, id)
		}
	}
	return w
}

// x07rewards: two validators with rewards of any amounts in three coins; the first one may have been slashed.
func x07rewards() *World {
	w := delegWorld(2).asLaunched()
	w.setSlash("0.333333333333333333", "0.2", "0.02")
	w.mustDelegate(STAKER0, STAKER0, 500)
	w.mustDelegate(ALICE, STAKER0, 700)
	w.mustDelegate(BOB, STAKER0, 300)
	w.mustDelegate(ALICE, STAKER1, 90)
	must(w.pay(STAKER0, symCoins("first", []string{coinB, DENOM})))
	if vs.Choose("slashed", 2) == 1 {
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	}
	must(w.pay(STAKER0, symCoins("second", []string{DENOM, coinC})))
	must(w.pay(STAKER1, symCoins("third", []string{coinB})))
	return w
}

// H_X07_rewards: what the queries report as rewards and stake of a delegator is what withdrawing pays and
// what can be undelegated. Any reward amounts in three coins; slashed in between or not.
func H_X07_rewards() {
	w := x07rewards()
	who := []string{ALICE, STAKER0, CHARLIE}[vs.Choose("who", 3)]
	q := w.askDelegator(STAKER0, who)
	r, e := w.Query.DelegatorsByStaker(w.Ctx, &querytypes.QueryDelegatorsByStakerRequest{Staker: STAKER0})
	vs.Assert(e == nil && r != nil && len(r.Delegators) == 3 && r.TotalDelegatorCount == 3, "all delegators are listed")
	vs.Assert(eq(bi(r.TotalDelegation), w.total(STAKER0)), "the reported total is the stake of the validator")
	sum, listed := bi(0), 0
	for _, d := range r.Delegators {
		sum = add(sum, bi(d.DelegationAmount))
		if d.Delegator == who {
			listed++
			vs.Assert(vs.And(d.Staker == STAKER0, d.DelegationAmount == q.DelegationAmount, sameCoins(d.CurrentRewards, q.CurrentRewards)), "the list and the single query agree")
		}
	}
	vs.Assert(le(sum, bi(r.TotalDelegation)), "the total covers the listed delegations")
	mine, e := w.Query.StakersByDelegator(w.Ctx, &querytypes.QueryStakersByDelegatorRequest{Delegator: who})
	vs.Assert(e == nil && mine.Delegator == who, "the query answers")
	vs.Assert(len(mine.Stakers) == map[string]int{ALICE: 2, STAKER0: 1, CHARLIE: 0}[who], "all validators of a delegator are listed")
	a := w.assets(who)
	stake, rewards := bi(0), sdk.Coins{}
	for _, s := range mine.Stakers {
		d := w.askDelegator(s.Staker.Address, who)
		vs.Assert(vs.And(s.DelegationAmount == d.DelegationAmount, sameCoins(s.CurrentRewards, d.CurrentRewards)), "the list and the single query agree")
		stake = add(stake, bi(d.DelegationAmount))
		rewards = rewards.Add(d.CurrentRewards...)
	}
	vs.Assert(eq(bi(a.ProtocolDelegation), stake), "assets report the stake of all delegations")
	vs.Assert(sameCoins(a.ProtocolRewards, rewards), "assets report the rewards of all delegations")
	vs.Assert(a.ProtocolSelfDelegation == w.askDelegator(who, who).DelegationAmount, "assets report the self delegation")
	if who == CHARLIE {
		vs.Assert(listed == 0 && q.DelegationAmount == 0 && len(q.CurrentRewards) == 0, "nothing is reported for somebody else")
		vs.Assert(w.withdraw(who, STAKER0) != nil, "nothing to withdraw")
		vs.Reach("stranger")
		return
	}
	vs.Assert(listed == 1, "the delegator is listed once")
	before := w.Bank.snap()
	must(w.withdraw(who, STAKER0))
	acc := sdk.MustAccAddressFromBech32(who)
	for _, d := range fDenoms {
		vs.Assert(eq(w.Bal(acc, d), add(before.get(acc, d).BigInt(), amt(q.CurrentRewards, d))), "withdrawing pays the reported rewards")
	}
	vs.Assert(w.askDelegator(STAKER0, who).CurrentRewards.IsZero(), "afterwards no rewards are reported")
	n := w.askDelegator(STAKER0, who).DelegationAmount
	vs.Assert(n == q.DelegationAmount, "withdrawing leaves the stake as it is")
	vs.Assert(w.undelegate(who, STAKER0, n+1) != nil, "not more than the reported stake can be undelegated")
	vs.Assert(w.undelegate(who, STAKER0, n) == nil, "the reported stake can be undelegated")
	vs.Reach("delegator")
}

// H_X07_unbonding: what the queries report as unbonding is what is paid back. Two undelegations of any
// amounts by a delegator or by the validator itself, in either order, seen at any time before and after they are due.
func H_X07_unbonding() {
	w := delegWorld(2).asLaunched()
	who := []string{ALICE, STAKER0}[vs.Choose("who", 2)]
	one, other := STAKER0, STAKER1
	if vs.Choose("order", 2) == 1 {
		one, other = other, one
	}
	have := vs.U64("have", 0, stakeCap)
	w.mustDelegate(who, one, 900_000)
	w.mustDelegate(who, other, 900_000)
	w.GiveU(who, have)
	x, y := vs.U64("x", 1, 900_000), vs.U64("y", 1, 900_000)
	t1 := w.Time()
	must(w.undelegate(who, one, x))
	gap := vs.I64("gap", 0, 500)
	w.At(6, t1+gap)
	must(w.undelegate(who, other, y))
	later := vs.I64("later", 0, 3_000)
	vs.Assume(later >= gap)
	w.At(7, t1+later)
	w.beginDelegation()
	r, e := w.Query.AccountDelegationUnbondings(w.Ctx, &querytypes.QueryAccountDelegationUnbondingsRequest{Address: who})
	vs.Assert(e == nil && r != nil, "the query answers")
	unbonding, self := bi(0), bi(0)
	for _, u := range r.Unbondings {
		unbonding = add(unbonding, bi(u.Amount))
		if u.Staker.Address == who {
			self = add(self, bi(u.Amount))
		}
		first := u.Staker.Address == one
		vs.Assert(vs.Or(vs.And(first, u.Amount == x, u.CreationTime == uint64(t1)), vs.And(u.Staker.Address == other, u.Amount == y, u.CreationTime == uint64(t1+gap))), "the listed undelegations are the requested ones")
		vs.Assert(u.CreationTime+1000 >= uint64(t1+later), "no listed undelegation is overdue")
	}
	a := w.assets(who)
	vs.Assert(vs.And(eq(bi(a.ProtocolDelegationUnbonding), unbonding), eq(bi(a.ProtocolSelfDelegationUnbonding), self)), "assets report all that is unbonding")
	if who == STAKER0 {
		vs.Assert(eq(bi(w.fullStaker(who).SelfDelegationUnbonding), self), "the validator query reports the unbonding self delegation")
	}
	vs.Assert(eq(bi(a.Balance), w.BalU(who)), "assets report the balance")
	vs.Assert(vs.And(eq(add(bi(a.Balance), bi(a.ProtocolDelegation)), add(bi(have), bi(1_800_000))), le(unbonding, bi(a.ProtocolDelegation))), "nothing is missing from the reported assets")
	s := w.askDelegator(who, who).DelegationAmount
	vs.Assert(a.ProtocolSelfDelegation == s, "assets report the self delegation")
	w.At(8, t1+10_000)
	w.beginDelegation()
	vs.Assert(eq(w.BalU(who), add(bi(a.Balance), unbonding)), "what was reported as unbonding is paid back")
	r, _ = w.Query.AccountDelegationUnbondings(w.Ctx, &querytypes.QueryAccountDelegationUnbondingsRequest{Address: who})
	vs.Assert(len(r.Unbondings) == 0, "afterwards nothing is unbonding")
	vs.Reach("paid")
}

// H_X07_redelegation: a redelegation is accepted exactly if the query reports an available slot. Three uses
// at any times, any cooldown, any maximum up to 5, and now any time.
func H_X07_redelegation() {
	w := delegWorld(2).asLaunched()
	w.mustDelegate(ALICE, STAKER0, 1_000)
	cool, max := vs.U64("cooldown", 0, 100_000), vs.U64("max", 0, 5)
	w.Delegation.SetParams(w.Ctx, delegationtypes.NewParams(1000, cool, max, dec("0.1"), dec("0.1"), dec("0.1")))
	t, used := uint64(1_500_000_000), vs.Choose("used", 4)
	for i := 0; i < used; i++ {
		t += vs.U64(nm("gap%d", i), 1, 100_000)
		w.Delegation.SetRedelegationCooldown(w.Ctx, delegationtypes.RedelegationCooldown{Address: ALICE, CreationDate: t})
	}
	now := t + vs.U64("now", 1, 200_000)
	w.At(9, int64(now))
	r, e := w.Query.AccountRedelegation(w.Ctx, &querytypes.QueryAccountRedelegationRequest{Address: ALICE})
	vs.Assert(e == nil && r != nil, "the query answers")
	for _, x := range r.RedelegationCooldownEntries {
		vs.Assert(vs.And(x.FinishDate == x.CreationDate+cool, x.FinishDate >= now), "every listed cooldown has not finished")
	}
	n := uint64(len(r.RedelegationCooldownEntries))
	vs.Assert(r.AvailableSlots <= max, "never more slots than the maximum")
	vs.Assert(vs.Or(r.AvailableSlots == 0, r.AvailableSlots+n == max), "the slots on cooldown are not available")
	e = w.redelegate(ALICE, STAKER0, STAKER1, 1)
	vs.Assert((e == nil) == (r.AvailableSlots > 0), "a redelegation is accepted exactly if a slot is reported as available")
	if e == nil {
		r2, _ := w.Query.AccountRedelegation(w.Ctx, &querytypes.QueryAccountRedelegationRequest{Address: ALICE})
		vs.Assert(r2.AvailableSlots == r.AvailableSlots-1, "a redelegation uses one slot")
		vs.Reach("accepted")
	} else {
		vs.Reach("rejected")
	}
}

// H_X07_votes: the reported vote distribution is the one the next submission is decided by. Three validators
// with any stakes and votes.
func H_X07_votes() {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.selfStake(i, vs.U64(nm("stake%d", i), 0, 1_000_000))
	}
	p := openBundle(STAKER0, STAKER0, 1_600_000_000)
	castVote(&p, STAKER1, vs.Choose("vote1", 4))
	castVote(&p, STAKER2, vs.Choose("vote2", 4))
	w.Bundles.SetBundleProposal(w.Ctx, p)
	r, e := w.Query.CurrentVoteStatus(w.Ctx, &querytypes.QueryCurrentVoteStatusRequest{PoolId: 0})
	vs.Assert(e == nil && r != nil, "the query answers")
	t := w.tally(0, p)
	vs.Assert(vs.And(eq(bi(r.Valid), t.valid), eq(bi(r.Invalid), t.invalid), eq(bi(r.Abstain), t.abstain), eq(bi(r.Total), t.total)), "the reported distribution is the stake behind the votes")
	total := w.pool(0).TotalBundles
	e = w.submit(w.plainSubmit(STAKER0))
	if e == nil {
		vs.Assert((w.pool(0).TotalBundles == total+1) == (2*r.Valid > r.Total), "finalized exactly with a reported valid majority")
		vs.Assert(vs.Or(2*r.Valid > r.Total, 2*r.Invalid >= r.Total), "replaced only with a reported majority")
		vs.Reach("decided")
	}
}

// H_X07_pool: the pool query reports members, stake, balance, fundings and whether the pool runs. Any
// stakes, balance and funding; every kind of pool.
func H_X07_pool() {
	w := bundlesWorld(2)
	s0, s1, d := vs.U64("s0", 1, stakeCap), vs.U64("s1", 1, stakeCap), vs.U64("d", 1, stakeCap)
	w.mustDelegate(STAKER0, STAKER0, s0)
	w.mustDelegate(STAKER1, STAKER1, s1)
	w.mustDelegate(ALICE, STAKER1, d)
	w.makeKind(0, vs.Choose("kind", nKinds))
	bal := vs.U64("balance", 0, stakeCap)
	w.GiveU(w.poolAcc(0).String(), bal)
	f := vs.Choose("funded", 3)
	if f > 0 {
		w.fund(ALICE, 0, symCoins("funds", denomSet(f)), symCoins("per", denomSet(f)))
	}
	r, e := w.Query.Pool(w.Ctx, &querytypes.QueryPoolRequest{Id: 0})
	vs.Assert(e == nil && r != nil, "the query answers")
	q := r.Pool
	pool := w.pool(0)
	vs.Assert(vs.And(q.Id == 0, vs.SameMsg(q.Data, &pool)), "the stored pool is reported")
	vs.Assert(len(q.Stakers) == 2 && has(q.Stakers, STAKER0) && has(q.Stakers, STAKER1), "all members are reported")
	vs.Assert(eq(bi(q.TotalSelfDelegation), add(bi(s0), bi(s1))), "the self delegations are reported")
	vs.Assert(eq(bi(q.TotalDelegation), sum(bi(s0), bi(s1), bi(d))), "the total stake is reported")
	vs.Assert(vs.And(eq(bi(q.AccountBalance), bi(bal)), q.Account == w.poolAcc(0).String()), "the balance of the pool is reported")
	vs.Assert(len(q.Fundings) == b2i(f > 0), "the fundings are reported")
	can := w.claim(bundlestypes.MsgClaimUploaderRole{Creator: VAL1A, Staker: STAKER1, PoolId: 0}) == nil
	vs.Assert(can == (q.Status == pooltypes.POOL_STATUS_ACTIVE || q.Status == pooltypes.POOL_STATUS_NO_FUNDS), "the pool works exactly if it is reported as running")
	if can {
		vs.Assert((q.Status == pooltypes.POOL_STATUS_NO_FUNDS) == (f == 0), "missing funds are reported")
		vs.Reach("runs")
	} else {
		vs.Reach("stopped")
	}
	full := w.fullStaker(STAKER1)
	vs.Assert(len(full.Pools) == 1 && full.Pools[0].Pool.Id == 0 && full.Pools[0].Pool.Status == q.Status && full.Pools[0].Pool.TotalDelegation == q.TotalDelegation, "the validator query reports the same pool")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// H_X07_staker: the validator query reports stake, commission, rewards, memberships and a pending change.
// Any stakes, balances, points and commission.
func H_X07_staker() {
	w := bundlesWorld(2)
	s, d, bal, points := vs.U64("self", 1, stakeCap), vs.U64("deleg", 1, stakeCap), vs.U64("bal", 0, stakeCap), vs.U64("points", 0, 100)
	w.mustDelegate(STAKER0, STAKER0, s)
	w.mustDelegate(ALICE, STAKER0, d)
	w.mustDelegate(BOB, STAKER1, 5)
	w.GiveU(VAL0B, bal)
	w.setPoints(1, STAKER0, points)
	c := vs.Dec("commission", "0", "1")
	pending := vs.Choose("pending", 2) == 1
	if pending {
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := smsg(w).UpdateCommission(ctx, &stakerstypes.MsgUpdateCommission{Creator: STAKER0, Commission: c})
			return e
		}))
	}
	leaving := vs.Choose("leaving", 2) == 1
	if leaving {
		must(w.leave(STAKER0, 1))
	}
	q := w.fullStaker(STAKER0)
	vs.Assert(q.Address == STAKER0, "the answer is about the question")
	vs.Assert(vs.And(q.SelfDelegation == s, eq(bi(q.TotalDelegation), add(bi(s), bi(d))), q.DelegatorCount == 2), "the stake is reported")
	vs.Assert(q.Metadata.Commission.Equal(dec("0.1")), "the commission in force is reported")
	vs.Assert((q.Metadata.PendingCommissionChange != nil) == pending, "a pending change is reported")
	vs.Assert(len(q.Pools) == 2 && q.Pools[0].Pool.Id == 0 && q.Pools[1].Pool.Id == 1, "all memberships are reported")
	vs.Assert(vs.And(q.Pools[1].Points == points, q.Pools[0].Points == 0, q.Pools[1].IsLeaving == leaving, !q.Pools[0].IsLeaving), "the membership is reported as it is")
	vs.Assert(vs.And(q.Pools[1].Valaddress == VAL0B, q.Pools[0].Valaddress == VAL0A, eq(bi(q.Pools[1].Balance), bi(bal))), "the worker accounts are reported")
	if pending {
		vs.Assert(q.Metadata.PendingCommissionChange.Commission.Equal(c), "the requested commission is reported")
		w.stakersBlock(w.Time() + 1001)
		vs.Assert(w.fullStaker(STAKER0).Metadata.Commission.Equal(c), "the reported change comes into force")
		vs.Assert(w.fullStaker(STAKER0).Metadata.PendingCommissionChange == nil, "afterwards nothing is pending")
		vs.Reach("pending")
	}
	r, e := w.Query.StakersByPool(w.Ctx, &querytypes.QueryStakersByPoolRequest{PoolId: 1})
	vs.Assert(e == nil && r != nil, "the query answers")
	want := 2 - b2i(leaving && pending)
	vs.Assert(len(r.Stakers) == want, "the members of a pool are listed")
	for _, x := range r.Stakers {
		vs.Assert(x.Valaccount.PoolId == 1 && x.Valaccount.Staker == x.Staker.Address && w.member(x.Staker.Address, 1), "only members are listed")
	}
}

// amounts up to a thousand times the token supply
func x07coins(n string, denoms []string) (c sdk.Coins) {
	for _, d := range denoms {
		c = append(c, sdk.Coin{Denom: d, Amount: math.NewIntFromUint64(vs.U64(n+"."+d, 1, stakeCap))})
	}
	return
}

func x07funding(n string, pool uint64, denoms []string) funderstypes.Funding {
	return funderstypes.Funding{FunderAddress: ALICE, PoolId: pool, Amounts: x07coins(n+".amt", denoms),
		AmountsPerBundle: x07coins(n+".per", denoms), TotalFunded: x07coins(n+".tot", denoms)}
}

// H_X07_funder: the funder queries report what was funded, is left and is charged per bundle, which can be
// defunded. Any amounts of two coins in two pools; the second one may be used up.
func H_X07_funder() {
	w := fundersWorld(plainWhitelist()).asLaunched()
	a, b := denomSet(1+vs.Choose("first", 3)), denomSet([]int{0, 1, 3}[vs.Choose("second", 3)])
	one := x07funding("one", 0, a)
	two := x07funding("two", 1, b)
	two.TotalFunded = x07coins("two.all", denomSet(3))
	w.addFunding(one)
	w.addFunding(two)
	w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: ALICE, Moniker: "m", Identity: "i", Website: "w", Contact: "c", Description: "d"})
	r, e := w.Query.Funder(w.Ctx, &querytypes.QueryFunderRequest{Address: ALICE})
	vs.Assert(e == nil && r != nil && r.Funder.Address == ALICE && r.Funder.Moniker == "m", "the query answers")
	vs.Assert(r.Funder.Identity == "i" && r.Funder.Website == "w" && r.Funder.Contact == "c" && r.Funder.Description == "d", "the description is reported")
	st := r.Funder.Stats
	wl := w.Funders.GetCoinWhitelistMap(w.Ctx)
	vs.Assert(st.Score == one.GetScore(wl)+two.GetScore(wl), "the value of all fundings is reported")
	vs.Assert(len(st.PoolsFunded) == 2 && st.PoolsFunded[0]+st.PoolsFunded[1] == 1, "the funded pools are reported")
	per := one.AmountsPerBundle
	if len(b) > 0 {
		per = per.Add(two.AmountsPerBundle...)
	}
	vs.Assert(sameCoins(st.TotalAllocatedFunds, one.Amounts.Add(two.Amounts...)), "what is left is reported")
	vs.Assert(sameCoins(st.TotalUsedFunds, one.TotalFunded.Add(two.TotalFunded...)), "what was funded is reported")
	vs.Assert(sameCoins(st.TotalAmountPerBundle, per), "what is charged per bundle is reported")
	vs.Assert(len(st.PoolsFunded) == 2 && len(r.Fundings) == 2, "all fundings are reported")
	vs.Assert(sameCoins(w.assets(ALICE).ProtocolFunding, one.Amounts.Add(two.Amounts...)), "assets report what is left")
	act, e1 := w.Query.Funder(w.Ctx, &querytypes.QueryFunderRequest{Address: ALICE, Status: querytypes.FUNDING_STATUS_ACTIVE})
	ina, e2 := w.Query.Funder(w.Ctx, &querytypes.QueryFunderRequest{Address: ALICE, Status: querytypes.FUNDING_STATUS_INACTIVE})
	vs.Assert(e1 == nil && e2 == nil && len(act.Fundings) == 1+b2i(len(b) > 0) && len(ina.Fundings) == b2i(len(b) == 0), "fundings are active while something is left")
	l, e := w.Query.AccountFundedList(w.Ctx, &querytypes.QueryAccountFundedListRequest{Address: ALICE})
	vs.Assert(e == nil && len(l.Funded) == len(act.Fundings), "the funded pools are listed")
	for _, f := range l.Funded {
		want := one
		if f.Pool.Id == 1 {
			want = two
		}
		vs.Assert(vs.And(sameCoins(f.Amounts, want.Amounts), sameCoins(f.Pool.TotalFunds, want.Amounts)), "the list reports what is left")
	}
	for _, f := range r.Fundings {
		want := one
		if f.PoolId == 1 {
			want = two
		}
		vs.Assert(vs.And(sameCoins(f.Amounts, want.Amounts), sameCoins(f.AmountsPerBundle, want.AmountsPerBundle), sameCoins(f.TotalFunded, want.TotalFunded)), "the funding is reported as it is")
	}
	all := r.Fundings[0].Amounts
	if r.Fundings[0].PoolId == 1 {
		all = r.Fundings[1].Amounts
	}
	acc := sdk.MustAccAddressFromBech32(ALICE)
	before := w.Bank.snap()
	must(w.Tx(func(ctx sdk.Context) error {
		_, e := fundersMsg(w).DefundPool(ctx, &funderstypes.MsgDefundPool{Creator: ALICE, PoolId: 0, Amounts: all})
		return e
	}))
	for _, d := range fDenoms {
		vs.Assert(eq(w.Bal(acc, d), add(before.get(acc, d).BigInt(), amt(all, d))), "the reported funds can be taken back")
	}
	vs.Reach("defunded")
}

// H_X07_team: the vesting status reports what can be claimed. Any allocation, any claim before, now and
// commencement at different distances; with a clawback or without.
func H_X07_team() {
	w := NewWorld()
	start := uint64(1_600_000_000)
	a := teamtypes.TeamVestingAccount{Id: 0, TotalAllocation: vs.U64("alloc", 1, teamCap), Commencement: start}
	if vs.Choose("clawback", 2) == 1 {
		a.Clawback = start + 2*yearSecs + 7
	}
	now := start + []uint64{yearSecs / 2, yearSecs + yearSecs/3, 3*yearSecs - 1, 7 * yearSecs}[vs.Choose("now", 4)]
	w.At(3, int64(now))
	symTeamHistoryAt(&a, now)
	w.Team.SetTeamVestingAccount(w.Ctx, a)
	w.GiveMod(teamtypes.ModuleName, teamCap)
	w.GiveMod(teamtypes.ModuleName, a.TotalRewards)
	r, e := w.Team.TeamVestingStatus(w.Ctx, &teamtypes.QueryTeamVestingStatusRequest{Id: 0})
	vs.Assert(e == nil && r != nil, "the query answers")
	s := r.Status
	vs.Assert(vs.And(s.ClaimedAmount == a.UnlockedClaimed, s.TotalRewards == a.TotalRewards, s.ClaimedRewards == a.RewardsClaimed), "what was claimed is reported")
	claim := func(n uint64) error {
		return w.Tx(func(ctx sdk.Context) error {
			_, e := teamMsg(w).ClaimUnlocked(ctx, &teamtypes.MsgClaimUnlocked{Authority: teamtypes.BCP_ADDRESS, Id: 0, Amount: n, Recipient: ALICE})
			return e
		})
	}
	rewards := func(n uint64) error {
		return w.Tx(func(ctx sdk.Context) error {
			_, e := teamMsg(w).ClaimAccountRewards(ctx, &teamtypes.MsgClaimAccountRewards{Authority: teamtypes.BCP_ADDRESS, Id: 0, Amount: n, Recipient: ALICE})
			return e
		})
	}
	vs.Assert(claim(s.CurrentClaimableAmount+1) != nil, "not more than reported can be claimed")
	vs.Assert(rewards(s.AvailableRewards+1) != nil, "not more rewards than reported can be claimed")
	vs.Assert(rewards(s.AvailableRewards) == nil, "the reported rewards can be claimed")
	vs.Assert(claim(s.CurrentClaimableAmount) == nil, "the reported amount can be claimed")
	vs.Assert(eq(w.BalU(ALICE), add(bi(s.CurrentClaimableAmount), bi(s.AvailableRewards))), "the recipient has the reported amounts")
	r, e = w.Team.TeamVestingStatus(w.Ctx, &teamtypes.QueryTeamVestingStatusRequest{Id: 0})
	vs.Assert(e == nil && r.Status.CurrentClaimableAmount == 0 && r.Status.AvailableRewards == 0, "afterwards nothing is claimable")
	vs.Reach("claimed")
}

func symTeamHistoryAt(a *teamtypes.TeamVestingAccount, now uint64) {
	a.TotalRewards = vs.U64("rewards", 0, teamCap)
	a.RewardsClaimed = vs.U64("rewardsClaimed", 0, teamCap)
	vs.Assume(a.RewardsClaimed <= a.TotalRewards)
	a.UnlockedClaimed = vs.U64("claimed", 0, teamCap)
	a.LastClaimedTime = 0
	if a.UnlockedClaimed > 0 {
		a.LastClaimedTime = now
		vs.Assume(a.UnlockedClaimed <= teamkeeper.GetVestingStatus(*a, now).TotalUnlockedAmount)
	}
}

// H_X07_teaminfo: the team's totals for one or two accounts with any history: exactly the reported allocation can still be
// issued, exactly the reported authority rewards can be claimed, and claims move balance and required balance alike.
func H_X07_teaminfo() {
	w := NewWorld()
	now := uint64(1_900_000_000)
	w.At(3, int64(now))
	n := 1 + vs.Choose("accounts", 2)
	issued, rew, claimed, unlocked := bi(0), bi(0), bi(0), bi(0)
	for i := 0; i < n; i++ {
		a := teamtypes.TeamVestingAccount{Id: uint64(i), TotalAllocation: vs.U64(nm("alloc%d", i), 1, teamCap), Commencement: []uint64{1_700_000_000, 1_600_000_000}[i]}
		if i == 1 {
			a.Clawback = a.Commencement + 2*yearSecs
		}
		a.TotalRewards, a.RewardsClaimed = vs.U64(nm("rewards%d", i), 0, teamCap), vs.U64(nm("rewardsClaimed%d", i), 0, teamCap)
		vs.Assume(a.RewardsClaimed <= a.TotalRewards)
		a.UnlockedClaimed = vs.U64(nm("claimed%d", i), 0, teamCap)
		vs.Assume(a.UnlockedClaimed <= teamkeeper.GetVestingStatus(a, now).TotalUnlockedAmount)
		w.Team.AppendTeamVestingAccount(w.Ctx, a)
		issued = add(issued, bi(teamkeeper.GetVestingPlan(a).MaximumVestingAmount))
		rew, claimed, unlocked = add(rew, bi(a.TotalRewards)), add(claimed, bi(a.RewardsClaimed)), add(unlocked, bi(a.UnlockedClaimed))
		r, e := w.Team.TeamVestingAccount(w.Ctx, &teamtypes.QueryTeamVestingAccountRequest{Id: uint64(i)})
		vs.Assert(e == nil && vs.SameMsg(&r.Account, &a), "the account is reported as stored")
		all, e := w.Team.TeamVestingAccounts(w.Ctx, &teamtypes.QueryTeamVestingAccountsRequest{})
		vs.Assert(e == nil && len(all.Accounts) == i+1, "all accounts are reported")
		vs.Assert(vs.SameMsg(&all.Accounts[i], &a), "all accounts are reported as stored")
	}
	_, e := w.Team.TeamVestingAccount(w.Ctx, &teamtypes.QueryTeamVestingAccountRequest{Id: uint64(n)})
	vs.Assert(e != nil, "no other account is reported")
	vs.Assume(le(issued, bi(teamCap)))
	auth := teamtypes.Authority{TotalRewards: vs.U64("rewards", 0, teamCap), RewardsClaimed: vs.U64("rewardsClaimed", 0, teamCap)}
	vs.Assume(auth.RewardsClaimed <= auth.TotalRewards)
	w.Team.SetAuthority(w.Ctx, auth)
	w.GiveMod(teamtypes.ModuleName, 5*teamCap)
	info := func() *teamtypes.QueryTeamInfoResponse {
		r, e := w.Team.TeamInfo(w.Ctx, &teamtypes.QueryTeamInfoRequest{})
		vs.Assert(e == nil && r != nil, "the query answers")
		return r
	}
	r := info()
	vs.Assert(r.FoundationAuthority == teamtypes.FOUNDATION_ADDRESS && r.BcpAuthority == teamtypes.BCP_ADDRESS, "the authorities are reported")
	vs.Assert(vs.And(r.TotalTeamAllocation == teamCap, eq(bi(r.IssuedTeamAllocation), issued)), "the issued allocation is what the accounts can vest")
	vs.Assert(vs.And(r.TotalAuthorityRewards == auth.TotalRewards, r.ClaimedAuthorityRewards == auth.RewardsClaimed), "the authority's rewards are reported")
	vs.Assert(vs.And(eq(bi(r.TotalAccountRewards), rew), eq(bi(r.ClaimedAccountRewards), claimed), eq(bi(r.AvailableAccountRewards), sub(rew, claimed))), "the accounts' rewards are the sums over the accounts")
	need := sub(add(add(bi(teamCap), sub(rew, claimed)), bi(r.AvailableAuthorityRewards)), unlocked)
	vs.Assert(vs.And(eq(bi(r.RequiredModuleBalance), need), r.TeamModuleBalance == 5*teamCap), "the required balance is what can still be paid out")
	// it is what transactions honour
	create := func(x uint64) error {
		return w.Tx(func(ctx sdk.Context) error {
			_, e := teamMsg(w).CreateTeamVestingAccount(ctx, &teamtypes.MsgCreateTeamVestingAccount{Authority: teamtypes.BCP_ADDRESS, TotalAllocation: x, Commencement: now})
			return e
		})
	}
	claim := func(x uint64) error {
		return w.Tx(func(ctx sdk.Context) error {
			_, e := teamMsg(w).ClaimAuthorityRewards(ctx, &teamtypes.MsgClaimAuthorityRewards{Authority: teamtypes.FOUNDATION_ADDRESS, Amount: x, Recipient: ALICE})
			return e
		})
	}
	vs.Assert(create(r.AvailableTeamAllocation+1) != nil, "not more than reported can be issued")
	vs.Assert(claim(r.AvailableAuthorityRewards+1) != nil, "not more than reported can be claimed")
	vs.Assert(claim(r.AvailableAuthorityRewards) == nil, "the reported authority rewards can be claimed")
	if vs.Fork(r.AvailableTeamAllocation > 0) {
		vs.Assert(create(r.AvailableTeamAllocation) == nil, "the reported allocation can be issued")
		vs.Reach("issued")
	}
	must(w.Tx(func(ctx sdk.Context) error {
		_, e := teamMsg(w).ClaimAccountRewards(ctx, &teamtypes.MsgClaimAccountRewards{Authority: teamtypes.BCP_ADDRESS, Id: 0, Amount: w.teamAcc(0).TotalRewards - w.teamAcc(0).RewardsClaimed, Recipient: ALICE})
		return e
	}))
	r = info()
	vs.Assert(vs.And(r.AvailableAuthorityRewards == 0, r.AvailableTeamAllocation == 0, r.IssuedTeamAllocation == teamCap), "afterwards nothing is left")
	paid := w.BalU(ALICE)
	vs.Assert(vs.And(eq(bi(r.TeamModuleBalance), sub(bi(5*teamCap), paid)), eq(bi(r.RequiredModuleBalance), sub(need, paid))), "claims move balance and required balance alike")
}

// H_X07_bundles: archived bundles, of any position and votes and from before or after the votes were archived, by id and by index.
func H_X07_bundles() {
	w := NewWorld()
	h := vs.U64("height", 0, i64cap)
	since := vs.U64("since", 0, i64cap)
	w.Bundles.SetBundleVersionMap(w.Ctx, bundlestypes.BundleVersionMap{Versions: []*bundlestypes.BundleVersionEntry{{Height: since, Version: 2}, {Height: since + 7, Version: 3}}})
	for i := uint64(0); i < 2; i++ {
		w.Pool.AppendPool(w.Ctx, pooltypes.Pool{Name: "p"})
		b := bundlestypes.FinalizedBundle{PoolId: i, Id: 0, StorageId: "x", Uploader: BOB, FromIndex: 0, ToIndex: 10, FinalizedAt: &bundlestypes.FinalizedAt{}, StakeSecurity: &bundlestypes.StakeSecurity{}}
		w.Bundles.SetFinalizedBundle(w.Ctx, b)
	}
	from, to := vs.U64("from", 10, 20), vs.U64("to", 21, 1<<40)
	b := bundlestypes.FinalizedBundle{PoolId: 0, Id: 1, StorageId: "st", Uploader: ALICE, FromIndex: from, ToIndex: to, FromKey: "fk", ToKey: "tk", BundleSummary: "su", DataHash: "da",
		FinalizedAt: &bundlestypes.FinalizedAt{Height: h, Timestamp: 1_700_000_000}, StorageProviderId: uint32(vs.U64("storage", 0, 1<<32-1)), CompressionId: uint32(vs.U64("compression", 0, 1<<32-1)),
		StakeSecurity: &bundlestypes.StakeSecurity{ValidVotePower: vs.U64("valid", 0, i64cap), TotalVotePower: vs.U64("total", 0, i64cap)}}
	w.Bundles.SetFinalizedBundle(w.Ctx, b)

	votes := func(s *querytypes.StakeSecurity) bool {
		if s == nil {
			return false
		}
		if vs.Fork(h < since) {
			return s.ValidVotePower == nil && s.TotalVotePower == nil
		}
		return s.ValidVotePower != nil && s.TotalVotePower != nil && vs.And(eq(s.ValidVotePower.BigInt(), bi(b.StakeSecurity.ValidVotePower)), eq(s.TotalVotePower.BigInt(), bi(b.StakeSecurity.TotalVotePower)))
	}
	r, e := w.Query.FinalizedBundleQuery(w.Ctx, &querytypes.QueryFinalizedBundleRequest{PoolId: 0, Id: 1})
	vs.Assert(e == nil && r != nil, "the query answers")
	vs.Assert(vs.And(r.PoolId == 0, r.Id == 1, r.StorageId == "st", r.Uploader == ALICE, r.FromIndex == from, r.ToIndex == to, r.FromKey == "fk", r.ToKey == "tk", r.BundleSummary == "su", r.DataHash == "da",
		r.StorageProviderId == uint64(b.StorageProviderId), r.CompressionId == uint64(b.CompressionId)), "the bundle is reported as archived")
	vs.Assert(eq(r.FinalizedAt.Height.BigInt(), bi(h)) && r.FinalizedAt.Timestamp == "2023-11-14T22:13:20Z", "when it was archived is reported")
	vs.Assert(votes(r.StakeSecurity), "its votes are reported once they are archived")
	for _, q := range [][2]uint64{{0, 2}, {1, 1}, {2, 0}} {
		_, e = w.Query.FinalizedBundleQuery(w.Ctx, &querytypes.QueryFinalizedBundleRequest{PoolId: q[0], Id: q[1]})
		vs.Assert(e != nil, "no other bundle is reported")
	}
	l, e := w.Query.FinalizedBundlesQuery(w.Ctx, &querytypes.QueryFinalizedBundlesRequest{PoolId: 0})
	vs.Assert(e == nil && len(l.FinalizedBundles) == 2 && l.Pagination.Total == 2 && l.Pagination.NextKey == nil, "all bundles are listed")
	vs.Assert(found(l.FinalizedBundles[1], b) && votes(l.FinalizedBundles[1].StakeSecurity), "bundles are listed as archived")
	i := vs.Choose("index", 6)
	l, e = w.Query.FinalizedBundlesQuery(w.Ctx, &querytypes.QueryFinalizedBundlesRequest{PoolId: 0, Index: []string{"9", "10", "20", "21", "18446744073709551615", "x"}[i]})
	vs.Assert((e == nil) == (i < 5), "an index is a number")
	if e == nil {
		in := vs.Fork(vs.And([]uint64{9, 10, 20, 21, u64max}[i] >= from, []uint64{9, 10, 20, 21, u64max}[i] < to))
		vs.Assert(len(l.FinalizedBundles) == b2n(in || i == 0), "an index has at most one bundle")
		if in {
			vs.Reach("by index")
			vs.Assert(found(l.FinalizedBundles[0], b) && votes(l.FinalizedBundles[0].StakeSecurity), "the bundle with that index is reported")
		}
	}
}

func b2n(b bool) int {
	if b {
		return 1
	}
	return 0
}

// H_X07_params: parameters of any values are reported by every module, and by the joint query, as they are in force.
func H_X07_params() {
	w := NewWorld()
	n, d, m := vs.U64("n", 0, u64max), anyDec("d"), vs.Int("m", "0", bigAmt)
	bp := bundlestypes.Params{UploadTimeout: n, MaxPoints: n / 2, NetworkFee: d, StorageCosts: []bundlestypes.StorageCost{{StorageProviderId: 1, Cost: d}, {StorageProviderId: 2, Cost: dec("0.7")}}}
	dp := delegationtypes.NewParams(n, n/3, 5, d, dec("0.2"), d)
	fp := funderstypes.Params{MinFundingMultiple: n, CoinWhitelist: []*funderstypes.WhitelistCoinEntry{{CoinDenom: DENOM, CoinDecimals: 6, MinFundingAmount: m, MinFundingAmountPerBundle: m, CoinWeight: d}}}
	gp := globaltypes.NewParams(d, dec("0.2"), []globaltypes.GasAdjustment{{Type: "a", Amount: n}}, []globaltypes.GasRefund{{Type: "b", Fraction: d}})
	pp := pooltypes.Params{ProtocolInflationShare: d, PoolInflationPayoutRate: dec("0.05"), MaxVotingPowerPerPool: d}
	sp := stakerstypes.NewParams(n, n/5)
	w.Bundles.SetParams(w.Ctx, bp)
	w.Delegation.SetParams(w.Ctx, dp)
	w.Funders.SetParams(w.Ctx, fp)
	w.Global.SetParams(w.Ctx, gp)
	w.Pool.SetParams(w.Ctx, pp)
	w.Stakers.SetParams(w.Ctx, sp)
	x, e1 := w.Bundles.Params(w.Ctx, &bundlestypes.QueryParamsRequest{})
	vs.Assert(e1 == nil && vs.SameMsg(&x.Params, &bp), "the parameters of bundles are reported")
	y, e2 := w.Delegation.Params(w.Ctx, &delegationtypes.QueryParamsRequest{})
	vs.Assert(e2 == nil && vs.SameMsg(&y.Params, &dp), "the parameters of delegations are reported")
	z, e3 := w.Funders.Params(w.Ctx, &funderstypes.QueryParamsRequest{})
	vs.Assert(e3 == nil && vs.SameMsg(&z.Params, &fp), "the parameters of fundings are reported")
	g, e4 := w.Global.Params(w.Ctx, &globaltypes.QueryParamsRequest{})
	vs.Assert(e4 == nil && vs.SameMsg(&g.Params, &gp), "the global parameters are reported")
	p, e5 := w.Pool.Params(w.Ctx, &pooltypes.QueryParamsRequest{})
	vs.Assert(e5 == nil && vs.SameMsg(&p.Params, &pp), "the parameters of pools are reported")
	s, e6 := w.Stakers.Params(w.Ctx, &stakerstypes.QueryParamsRequest{})
	vs.Assert(e6 == nil && vs.SameMsg(&s.Params, &sp), "the parameters of validators are reported")

	gov := 0
	for i, n := range modNames {
		if n == govtypes.StoreKey {
			gov = i
		}
	}
	cdc := w.Cdc.(codec.Codec)
	gk := &govkeeper.Keeper{Params: collections.NewItem(collections.NewSchemaBuilder(w.svc[gov]), govtypes.ParamsKey, "params", codec.CollValue[govv1.Params](cdc))}
	day := 24 * time.Hour
	rules := govv1.Params{VotingPeriod: &day, Quorum: "0.2", MinDeposit: sdk.NewCoins(sdk.NewInt64Coin(DENOM, 7))}
	q := querykeeper.NewKeeper(w.Cdc, log.NewNopLogger(), w.svc[3], authkeeper.AccountKeeper{}, queryBank{b: w.Bank}, distrkeeper.Keeper{}, w.Pool, w.Stakers, w.Delegation, w.Bundles, w.Global, gk, w.Team, w.Funders)
	must(gk.Params.Set(w.Ctx, rules))
	r, e := q.Params(w.Ctx, &querytypes.QueryParamsRequest{})
	vs.Assert(e == nil, "the query answers")
	vs.Assert(vs.And(vs.SameMsg(r.BundlesParams, &bp), vs.SameMsg(r.DelegationParams, &dp), vs.SameMsg(r.FundersParams, &fp), vs.SameMsg(r.GlobalParams, &gp), vs.SameMsg(r.PoolParams, &pp), vs.SameMsg(r.StakersParams, &sp)), "all parameters are reported")
	vs.Assert(r.GovParams.Quorum == "0.2" && *r.GovParams.VotingPeriod == day, "the rules of governance are reported")
}
