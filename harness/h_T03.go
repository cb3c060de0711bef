//verif:use lib_team.go

package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_T03_create: a creation request (any uint64 allocation and commencement, any signer) on top
// of 0..2 existing accounts (3 in the thorough tier) whose issued total respects the cap.
func H_T03_create() {
	w := NewWorld()
	k := 3
	if vs.Thorough() {
		k = 4
	}
	n := vs.Choose("n", k)
	issued := bi(0)
	var before []teamtypes.TeamVestingAccount
	for i := 0; i < n; i++ {
		nm := []string{"a", "b", "c"}[i]
		a := symTeamAccount(nm)
		a.Id = uint64(i)
		a.LastClaimedTime = vs.U64(nm+".lastClaim", 0, 5_000_000_000)
		a.UnlockedClaimed = vs.U64(nm+".claimed", 0, teamCap)
		a.TotalRewards = vs.U64(nm+".rewards", 0, teamCap)
		a.RewardsClaimed = vs.U64(nm+".rewardsClaimed", 0, teamCap)
		vs.Assume(a.RewardsClaimed <= a.TotalRewards)
		vs.Assume(a.UnlockedClaimed <= teamkeeper.GetVestingPlan(a).MaximumVestingAmount)
		w.Team.AppendTeamVestingAccount(w.Ctx, a)
		before = append(before, a)
		issued = add(issued, bi(teamkeeper.GetVestingPlan(a).MaximumVestingAmount))
	}
	vs.Assume(le(issued, bi(teamCap)))
	signer := teamSigner("signer")
	msg := &teamtypes.MsgCreateTeamVestingAccount{Authority: signer, TotalAllocation: vs.U64("alloc", 0, 1<<64-1), Commencement: vs.U64("start", 0, 1<<64-1)}
	err := w.Tx(func(ctx sdk.Context) error {
		_, e := teamMsg(w).CreateTeamVestingAccount(ctx, msg)
		return e
	})
	all := w.Team.GetTeamVestingAccounts(w.Ctx)
	for i := range before {
		vs.Assert(vs.SameMsg(&before[i], &all[i]), "existing accounts untouched")
	}
	vs.Assert(le(issued, bi(teamCap)) && eq(bi(w.Team.GetTeamVestingAccountCount(w.Ctx)), bi(uint64(len(all)))), "count equals number of accounts")
	if err != nil {
		vs.Assert(len(all) == n, "rejected creation leaves no account")
		if isTeamAuthority(signer) {
			vs.Assert(vs.Or(msg.TotalAllocation == 0, msg.Commencement == 0, lt(bi(teamCap), add(issued, bi(msg.TotalAllocation)))), "an admissible creation is accepted")
		}
		vs.Reach("rejected")
		return
	}
	vs.Reach("created")
	vs.Assert(isTeamAuthority(signer), "created only by an authority")
	vs.Assert(len(all) == n+1, "exactly one account is created")
	a := all[n]
	vs.Assert(a.Id == uint64(n), "account gets the next id")
	vs.Assert(vs.And(a.TotalAllocation == msg.TotalAllocation, a.Commencement == msg.Commencement), "account as requested")
	vs.Assert(vs.And(a.Clawback == 0, a.UnlockedClaimed == 0, a.TotalRewards == 0, a.RewardsClaimed == 0, a.LastClaimedTime == 0), "account starts empty")
	vs.Assert(vs.And(a.TotalAllocation > 0, a.Commencement > 0), "non-zero allocation and commencement")
	vs.Assert(le(add(issued, bi(a.TotalAllocation)), bi(teamCap)), "issued allocations stay within the team allocation")
	info := w.Team.GetTeamInfo(w.Ctx)
	vs.Assert(eq(add(bi(info.IssuedTeamAllocation), bi(info.AvailableTeamAllocation)), bi(teamCap)), "issued plus available is the team allocation")
	vs.Observe("issued", info.IssuedTeamAllocation)
}
