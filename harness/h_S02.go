//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"math/big"

	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func s02addr(i int) string {
	b := make([]byte, 20)
	b[0], b[1], b[19] = byte(i*37), byte(i>>8), byte(i)
	return sdk.AccAddress(b).String()
}

// H_S02_join: a pool with a slot left, exactly full or full with members who hold no stake; any
// stakes of three of the members and of the newcomer; a member may have announced to leave.
func H_S02_join() {
	w := stakersWorld(3, 2)
	n := []int{stakerstypes.MaxStakers, stakerstypes.MaxStakers - 1, stakerstypes.MaxStakers + 0}[vs.Choose("members", 2)]
	sym := []int{0, 17, n - 1}
	if !vs.Thorough() {
		sym = sym[:2]
	}
	var who []string
	stake := map[string]*big.Int{}
	for i := 0; i < n; i++ {
		a := s02addr(i)
		w.Stakers.AppendStaker(w.Ctx, stakerstypes.Staker{Address: a, Commission: dec("0.1")})
		w.Stakers.AddValaccountToPool(w.Ctx, 0, a, a)
		s := uint64(1_000 + i%7)
		for k, j := range sym {
			if i == j {
				s = vs.U64(nm("stake%d", k), 0, 2_000)
			}
		}
		if vs.Fork(s > 0) {
			w.mustDelegate(ALICE, a, s)
		}
		who = append(who, a)
		stake[a] = bi(s)
	}
	if k := vs.Choose("leaving", 3); k > 0 {
		must(w.leave(who[sym[k-1]], 0))
	}
	w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER1, VAL1A)
	w.Stakers.AddValaccountToPool(w.Ctx, 1, who[0], VAL3A)
	mine := vs.U64("newcomer", 0, 2_000)
	if vs.Fork(mine > 0) {
		w.mustDelegate(BOB, STAKER0, mine)
	}
	w.mustDelegate(BOB, STAKER1, 1)
	before := w.Stakers.GetAllValaccountsOfPool(w.Ctx, 0)
	e := w.join(STAKER0, 0, VAL0A, 0)
	after := w.Stakers.GetAllValaccountsOfPool(w.Ctx, 0)
	vs.Assert(len(after) <= stakerstypes.MaxStakers, "never more members than slots")
	vs.Assert(w.Stakers.GetStakerCountOfPool(w.Ctx, 0) == uint64(len(after)), "count of validators matches")
	min := stake[who[0]]
	for _, a := range who {
		min = minBig(min, stake[a])
	}
	gone := 0
	for i, b := range before {
		a, ok := w.Stakers.GetValaccount(w.Ctx, 0, b.Staker)
		if !ok {
			gone++
			vs.Assert(eq(stake[b.Staker], min), "only a weakest member is displaced")
			continue
		}
		vs.Assert(vs.SameMsg(before[i], &a), "the other members stay as they are")
	}
	if e != nil {
		vs.Assert(gone == 0 && len(after) == n, "a rejected join displaces nobody")
		vs.Assert(vs.And(n == stakerstypes.MaxStakers, le(bi(mine), min)), "refused only if full and not stronger than the weakest")
		vs.Reach("rejected")
	} else {
		vs.Assert(w.member(STAKER0, 0), "the newcomer is in")
		if n < stakerstypes.MaxStakers {
			vs.Assert(gone == 0, "below the limit nobody is removed")
			vs.Reach("free slot")
		} else {
			vs.Assert(gone == 1, "exactly one member makes room")
			vs.Assert(lt(min, bi(mine)), "only a stronger newcomer displaces")
			vs.Reach("displaced")
		}
	}
	vs.Assert(w.member(STAKER1, 1) && w.member(who[0], 1) && w.Stakers.GetStakerCountOfPool(w.Ctx, 1) == 2, "other pools are untouched")
}
