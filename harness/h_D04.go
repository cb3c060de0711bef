//verif:use lib_funders.go
//verif:use lib_delegation.go

package main

import (
	"math/big"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

type d04req struct {
	who, staker string
	amount      uint64
	at          int64
}

// d04model is the waiting queue as users expect it.
type d04model struct {
	w       *World
	unbond  uint64
	pending []d04req
}

// request asks for an unbonding now; it is accepted exactly if no more than owned is asked for.
func (m *d04model) request(who, staker string, amount uint64) {
	w := m.w
	owned := w.stake(staker, who)
	bank := w.Bank.snap()
	e := w.undelegate(who, staker, amount)
	vs.Assert(vs.Iff(e == nil, le(bi(amount), owned)), "a request is accepted exactly up to what is owned")
	vs.Assert(vs.And(eq(owned, w.stake(staker, who)), SameBank(bank, w.Bank)), "a request keeps the stake bonded")
	if e == nil {
		m.pending = append(m.pending, d04req{who, staker, amount, w.Time()})
	}
}

// block runs the begin blocker at a time and compares stakes and balances with the model.
func (m *d04model) block(t int64) {
	w := m.w
	w.At(w.Ctx.BlockHeight()+1, t)
	stake := map[string]*big.Int{}
	bal := map[string]*big.Int{}
	for _, u := range USERS {
		bal[u] = w.BalU(u)
		for _, s := range STAKERS[:2] {
			stake[u+s] = w.stake(s, u)
		}
	}
	mod := w.ModBal(delegationtypes.ModuleName)
	w.beginDelegation()
	paid := bi(0)
	for len(m.pending) > 0 {
		r := m.pending[0]
		if !vs.Fork(le(add(vs.I64Big(r.at), bi(m.unbond)), vs.I64Big(t))) {
			break
		}
		m.pending = m.pending[1:]
		x := minBig(bi(r.amount), stake[r.who+r.staker])
		stake[r.who+r.staker] = sub(stake[r.who+r.staker], x)
		bal[r.who] = add(bal[r.who], x)
		paid = add(paid, x)
	}
	for _, u := range USERS {
		vs.Assert(eq(w.BalU(u), bal[u]), "exactly the due requests are paid, to the requester")
		for _, s := range STAKERS[:2] {
			vs.Assert(eq(w.stake(s, u), stake[u+s]), "stake is unbonded exactly when due, in the order of the requests")
		}
	}
	vs.Assert(eq(sub(mod, w.ModBal(delegationtypes.ModuleName)), paid), "what is paid leaves the delegation account")
	vs.Assert(len(w.Delegation.GetAllUnbondingDelegationQueueEntries(w.Ctx)) == len(m.pending), "requests leave the queue exactly when they are paid")
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
}

var d04who = [][2]string{{ALICE, STAKER0}, {BOB, STAKER0}, {ALICE, STAKER1}, {CHARLIE, STAKER0}}

func d04world(unbond uint64) *d04model {
	w := delegWorld(2)
	p := delegationtypes.NewParams(unbond, 1000, 5, dec("0.333333333333333333"), dec("1"), dec("0.02"))
	w.Delegation.SetParams(w.Ctx, p)
	w.mustDelegate(DAVID, STAKER0, 9)
	w.mustDelegate(DAVID, STAKER1, 10)
	return &d04model{w: w, unbond: unbond}
}

// H_D04_queue: requests of any amounts at any times, blocks at any times, any unbonding time.
func H_D04_queue() {
	m := d04world(vs.U64("unbonding", 0, 100_000_000))
	w := m.w
	w.mustDelegate(ALICE, STAKER0, 1_000_000)
	w.mustDelegate(ALICE, STAKER1, 500)
	w.mustDelegate(BOB, STAKER0, 777)
	n := 3
	k := 2
	if vs.Thorough() {
		n, k = 4, 4
	}
	t := int64(1_700_000_000)
	for i := 0; i < n; i++ {
		t += vs.I64(nm("dt%d", i), 0, 200_000_000)
		w.At(w.Ctx.BlockHeight()+1, t)
		x := d04who[0]
		if i > 0 {
			x = d04who[vs.Choose(nm("who%d", i), 1+k)%4]
		}
		max := uint64(2_000_000)
		if i > 0 && !vs.Thorough() {
			max = 500 // more than what is left after the other requests, but not rejected
		}
		m.request(x[0], x[1], vs.U64(nm("amount%d", i), 0, max))
		if i == 1 && vs.Choose("block", 2) == 1 {
			t += vs.I64("block.dt", 0, 200_000_000)
			m.block(t)
		}
	}
	t += vs.I64("end.dt", 0, 400_000_000)
	m.block(t)
	vs.Reach(nm("%d left", len(m.pending)))
	// everything is paid in the end
	t += 100_000_000
	m.block(t)
	vs.Assert(len(m.pending) == 0, "no request is lost")
}

// H_D04_shrink: the stake shrinks or moves while requests wait.
func H_D04_shrink() {
	m := d04world(1000)
	w := m.w
	stake := vs.U64("stake", 1, stakeCap)
	w.mustDelegate(ALICE, STAKER0, stake)
	w.mustDelegate(BOB, STAKER0, 50)
	m.request(ALICE, STAKER0, vs.U64("first", 0, stakeCap))
	m.request(BOB, STAKER0, 50)
	m.request(ALICE, STAKER0, vs.U64("second", 0, stakeCap))
	t := w.Time() + 10
	w.At(w.Ctx.BlockHeight()+1, t)
	switch vs.Choose("event", 5) {
	case 0:
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	case 1:
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_UPLOAD)
	case 2:
		_ = w.redelegate(ALICE, STAKER0, STAKER1, vs.U64("moved", 0, stakeCap))
	case 3:
		w.mustDelegate(ALICE, STAKER0, vs.U64("more", 0, stakeCap))
	}
	m.block(t + vs.I64("dt", 0, 2000))
	m.block(t + 5000)
	vs.Assert(len(m.pending) == 0, "no request is lost")
	w.checkDelegationSums(8)
	vs.Reach("end")
}
