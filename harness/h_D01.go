//verif:use lib_funders.go
//verif:use lib_delegation.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// d01op performs one operation touching validator 0 (and for a redelegation validator 1).
func d01op(w *World, i, op int, slashed *bool, nf int) {
	n := nm("amt%d", i)
	switch op {
	case 0, 1:
		a := vs.U64(n, 0, stakeCap)
		w.mustDelegate(USERS[op], STAKER0, a)
	case 2, 3: // undelegate, processed at the end of the unbonding time
		u := USERS[op-2]
		a := vs.U64(n, 0, stakeCap)
		if w.undelegate(u, STAKER0, a) == nil {
			w.At(w.Ctx.BlockHeight()+1, w.Time()+1000)
			w.beginDelegation()
		}
	case 4, 5:
		u := USERS[op-4]
		a := vs.U64(n, 0, stakeCap)
		w.At(w.Ctx.BlockHeight()+1, w.Time()+10)
		_ = w.redelegate(u, STAKER0, STAKER1, a)
	case 6:
		if !*slashed {
			*slashed = true
			w.setSlash(fracs[vs.Choose("frac", nf)], "0", "0")
		}
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	case 7:
		_ = w.pay(STAKER0, sdk.Coins{{Denom: DENOM, Amount: math.NewInt(1000)}})
		_ = w.withdraw(ALICE, STAKER0)
	}
}

// H_D01_sequences: every sequence of operations with any amounts.
func H_D01_sequences() {
	depth := 4
	nf := 1
	if vs.Thorough() {
		depth, nf = 5, 4
	}
	ops := []int{0, 1, 2, 3, 4, 6, 7}
	if vs.Thorough() {
		ops = append(ops, 5)
	}
	bob := false
	w := delegWorld(2)
	slashed := false
	w.mustDelegate(DAVID, STAKER1, 1_000_003)
	w.mustDelegate(DAVID, STAKER0, 7)
	w.mustDelegate(ALICE, STAKER0, vs.U64("first", 1, stakeCap))
	other := w.stake(STAKER1, DAVID)
	for i := 1; i < depth; i++ {
		op := ops[vs.Choose(nm("op%d", i), len(ops))]
		bob = bob || op == 1
		if (op == 3 || op == 5) && !bob {
			return // there is nothing to take out
		}
		d01op(w, i, op, &slashed, nf)
		vs.Assert(eq(w.stake(STAKER1, DAVID), other), "operations on one validator leave delegations to another alone")
	}
	vs.Reach("end")
	w.checkDelegationSums(uint64(2 * depth))
}

// H_D01_slashes: one or two delegators with any stakes and several slashes in a row.
func H_D01_slashes() {
	w := delegWorld(2)
	n, cap := 3, uint64(stakeCap)
	if vs.Thorough() {
		n = 5
	}
	w.mustDelegate(ALICE, STAKER0, vs.U64("stake0", 1, cap))
	if vs.Choose("delegators", 2) == 1 {
		w.mustDelegate(BOB, STAKER0, vs.U64("stake1", 1, cap))
	}
	w.setSlash([]string{"0.08", "0.5", "0.333333333333333333"}[vs.Choose("frac", 3)], "0", "0")
	for i := 0; i < n; i++ {
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	}
	w.checkDelegationSums(uint64(n + 3))
	vs.Reach("slashed")
}

// H_D01_restart: all delegators leave a slashed validator, then up to three new ones come.
func H_D01_restart() {
	w := delegWorld(2)
	frac := []string{"0.5", "1", "0"}[vs.Choose("frac", 3)]
	w.setSlash(frac, "0", "0")
	a := vs.U64("stake", 1, stakeCap)
	w.mustDelegate(ALICE, STAKER0, a)
	before := vs.Choose("slashes before", 3)
	for i := 0; i < before; i++ {
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	}
	left := w.stake(STAKER0, ALICE)
	if before == 0 {
		must(w.undelegate(ALICE, STAKER0, a))
		w.slash(STAKER0, delegationtypes.SLASH_TYPE_VOTE)
	} else if vs.Fork(lt(bi(0), left)) {
		must(w.undelegate(ALICE, STAKER0, w.Delegation.GetDelegationAmountOfDelegator(w.Ctx, STAKER0, ALICE)))
	}
	w.At(w.Ctx.BlockHeight()+1, w.Time()+1000)
	w.beginDelegation()
	w.checkDelegationSums(4)
	n := 1 + vs.Choose("new", 3)
	var want []uint64
	for i := 0; i < n; i++ {
		x := vs.U64(nm("new%d", i), 1, stakeCap)
		want = append(want, x)
		w.mustDelegate([]string{BOB, CHARLIE, ALICE}[i], STAKER0, x)
	}
	for i, x := range want {
		got := w.stake(STAKER0, []string{BOB, CHARLIE, ALICE}[i])
		vs.Assert(le(bi(x), got), "a new delegation counts in full")
	}
	w.checkDelegationSums(6)
	vs.Reach("restarted")
}
