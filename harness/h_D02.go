//verif:use lib_funders.go
//verif:use lib_delegation.go

package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

var d02denoms = []string{coinB, DENOM}

// stakes of a validator's delegators which round in different ways
var d02sets = [][]uint64{{1, 2}, {3, 1, 3}, {999_999_999_999_999, 1}, {333_333_333_333_333_333, 666_666_666_666_666_667}, {7_000_000_000, 11}}

type d02ledger struct {
	w         *World
	paid      []*big.Int            // per denomination
	principal map[string]uint64     // returned stake which is in the user's account
	low, high map[string][]*big.Int // bounds of what every delegator has to get
	slack     uint64
	slashed   bool
}

func newD02(w *World) *d02ledger {
	return &d02ledger{w: w, paid: []*big.Int{bi(0), bi(0)}, principal: map[string]uint64{}, low: map[string][]*big.Int{}, high: map[string][]*big.Int{}}
}

// rewards of one payout: any amounts of up to two denominations
func d02coins(n string, kinds int) sdk.Coins {
	switch vs.Choose(n+".kind", kinds) {
	case 0:
		return sdk.Coins{{Denom: DENOM, Amount: vs.Int(n+".k", "1", "1000000000000000000")}}
	case 1:
		return sdk.Coins{{Denom: coinB, Amount: vs.Int(n+".b", "1", "1000000000000")}, {Denom: DENOM, Amount: vs.Int(n+".k", "1", "1000000000000000000")}}
	}
	return nil
}

// pay pays out to STAKER0 and notes what everyone is entitled to.
func (l *d02ledger) pay(c sdk.Coins) {
	w := l.w
	before := w.ModBal(delegationtypes.ModuleName)
	total := w.total(STAKER0)
	must(w.pay(STAKER0, c))
	vs.Assert(eq(sub(w.ModBal(delegationtypes.ModuleName), before), amt(c, DENOM)), "payout moves exactly the coins")
	l.slack++
	for _, u := range USERS {
		s := w.stake(STAKER0, u)
		if _, ok := w.Delegation.GetDelegator(w.Ctx, STAKER0, u); !ok {
			continue
		}
		for i, d := range d02denoms {
			x := vs.FloorDiv(mul(amt(c, d), s), total)
			l.low[u] = l.get(l.low, u)
			l.low[u][i] = add(l.low[u][i], x)
			if l.slashed { // the stake is known exactly only up to one unit
				x = vs.FloorDiv(mul(amt(c, d), add(s, bi(1))), total)
			}
			l.high[u] = l.get(l.high, u)
			l.high[u][i] = add(l.high[u][i], x)
		}
	}
	for i, d := range d02denoms {
		l.paid[i] = add(l.paid[i], amt(c, d))
	}
}

func (l *d02ledger) get(m map[string][]*big.Int, u string) []*big.Int {
	if x, ok := m[u]; ok {
		return x
	}
	return []*big.Int{bi(0), bi(0)}
}

// due is what a user claimed so far plus what it could claim now.
func (l *d02ledger) due(u string, i int) *big.Int {
	return add(l.claimed(u, i), amt(l.w.Delegation.GetOutstandingRewards(l.w.Ctx, STAKER0, u), d02denoms[i]))
}

func (l *d02ledger) claimed(u string, i int) *big.Int {
	b := l.w.Bal(Acc(u), d02denoms[i])
	if d02denoms[i] == DENOM {
		b = sub(b, bi(l.principal[u]))
	}
	return b
}

func (l *d02ledger) check(where string) {
	for i := range d02denoms {
		s := bi(0)
		for _, u := range USERS {
			x := l.due(u, i)
			s = add(s, x)
			low := l.get(l.low, u)[i]
			vs.Assert(le(low, add(x, bi(2*l.slack))), where+": a delegator gets its share of every payout")
			vs.Assert(le(x, add(l.get(l.high, u)[i], bi(l.slack))), where+": a delegator gets no more than its share of every payout")
		}
		vs.Assert(le(s, l.paid[i]), where+": claimed and claimable never exceed what was paid in")
	}
}

// withdraw claims for u; nobody else's claimable amount changes and a repetition pays nothing.
func (l *d02ledger) withdraw(u string) {
	w := l.w
	before := w.Delegation.GetOutstandingRewards(w.Ctx, STAKER0, u)
	var others []sdk.Coins
	for _, o := range USERS {
		others = append(others, w.Delegation.GetOutstandingRewards(w.Ctx, STAKER0, o))
	}
	mod := []*big.Int{w.modCoin(delegationtypes.ModuleName, coinB), w.modCoin(delegationtypes.ModuleName, DENOM)}
	bal := []*big.Int{w.Bal(Acc(u), coinB), w.Bal(Acc(u), DENOM)}
	st := w.stake(STAKER0, u)
	must(w.withdraw(u, STAKER0))
	for i, d := range d02denoms {
		got := sub(w.Bal(Acc(u), d), bal[i])
		vs.Assert(eq(got, amt(before, d)), "a withdrawal pays the outstanding rewards")
		vs.Assert(eq(got, sub(mod[i], w.modCoin(delegationtypes.ModuleName, d))), "rewards come out of the delegation account")
	}
	vs.Assert(eq(st, w.stake(STAKER0, u)), "a withdrawal keeps the stake")
	for i, o := range USERS {
		now := w.Delegation.GetOutstandingRewards(w.Ctx, STAKER0, o)
		if o == u {
			vs.Assert(sameCoins(now, nil), "nothing is claimable after a withdrawal")
		} else {
			for _, d := range d02denoms { // the running period ends, which truncates once more
				vs.Assert(vs.Or(eq(amt(now, d), amt(others[i], d)), vs.And(le(amt(now, d), amt(others[i], d)), le(amt(others[i], d), add(amt(now, d), bi(1))))), "withdrawing leaves the others' claimable rewards alone")
			}
		}
	}
	b2 := w.Bal(Acc(u), DENOM)
	must(w.withdraw(u, STAKER0))
	vs.Assert(eq(b2, w.Bal(Acc(u), DENOM)), "a second withdrawal pays nothing")
}

func (l *d02ledger) unbond(u string, amount uint64) {
	w := l.w
	if w.undelegate(u, STAKER0, amount) != nil {
		return
	}
	w.At(w.Ctx.BlockHeight()+1, w.Time()+1000)
	w.beginDelegation()
	l.principal[u] += amount
}

// H_D02_rewards: two payouts of any amounts around any kind of operation.
func H_D02_rewards() {
	sets, kinds, orders, nops := 3, 1, 2, 8
	if vs.Thorough() {
		sets, kinds, orders, nops = 5, 2, 3, 10
	}
	w := delegWorld(2)
	l := newD02(w)
	set := d02sets[vs.Choose("set", sets)]
	for i, a := range set {
		w.mustDelegate(USERS[i], STAKER0, a)
	}
	w.mustDelegate(DAVID, STAKER1, 1000)
	l.pay(d02coins("r1", 2))
	vs.Assert(sameCoins(w.Delegation.GetOutstandingRewards(w.Ctx, STAKER1, DAVID), nil), "rewards of one validator do not reach another's delegators")
	l.check("after a payout")
	a, b := USERS[0], USERS[1]
	switch vs.Choose("op", nops) {
	case 0:
		w.mustDelegate(DAVID, STAKER0, 5_000_000_003)
		vs.Assert(sameCoins(w.Delegation.GetOutstandingRewards(w.Ctx, STAKER0, DAVID), nil), "a later delegator gets nothing of earlier rewards")
	case 1:
		w.setSlash(fracs[0], "0", "0")
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
		l.slack++
		l.slashed = true
	case 2:
		l.withdraw(a)
	case 3:
		l.unbond(a, set[0]/2)
	case 4:
		l.unbond(a, set[0])
	case 5:
		w.mustDelegate(b, STAKER0, 1_000_000_007)
	case 6:
		must(w.redelegate(b, STAKER0, STAKER1, set[1]))
	case 7:
		must(w.pay(STAKER1, sdk.Coins{{Denom: DENOM, Amount: math.NewInt(1_000_000_000_000)}}))
	case 8:
		w.setSlash(fracs[0], "0", "0")
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
		l.slack += 2
		l.slashed = true
	case 9:
		l.withdraw(b)
		l.unbond(b, set[1])
		l.withdraw(a)
	}
	l.check("after the operation")
	if w.total(STAKER0).Sign() == 0 {
		return
	}
	l.pay(d02coins("r2", kinds))
	l.check("after a second payout")
	us := [][]string{{ALICE, BOB, CHARLIE, DAVID}, {DAVID, CHARLIE, BOB, ALICE}, {BOB, DAVID, ALICE, CHARLIE}}[vs.Choose("order", orders)]
	for _, u := range us {
		if w.stake(STAKER0, u).Sign() > 0 {
			l.withdraw(u)
		}
	}
	l.check("after all withdrawals")
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
	vs.Reach("end")
}
