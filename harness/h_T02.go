//verif:use lib_team.go

package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func t02world() (*World, teamtypes.TeamVestingAccount, uint64) {
	w := NewWorld()
	now := vs.U64("now", 1_600_000_000, 5_000_000_000)
	w.At(1000, int64(now))
	a := symTeamAccount("a")
	symTeamHistory("a", &a, now)
	w.Team.AppendTeamVestingAccount(w.Ctx, a)
	other := teamtypes.TeamVestingAccount{TotalAllocation: 5, Commencement: 1_600_000_000, TotalRewards: 9, RewardsClaimed: 2}
	w.Team.AppendTeamVestingAccount(w.Ctx, other)
	w.Team.SetAuthority(w.Ctx, teamtypes.Authority{TotalRewards: 77, RewardsClaimed: 7})
	w.GiveMod(teamtypes.ModuleName, vs.U64("module", 0, 2*teamCap))
	return w, a, now
}

// H_T02_claimUnlocked: one claim of unlocked tokens on an account with any claim history.
func H_T02_claimUnlocked() {
	w, a, now := t02world()
	signer := teamSigner("signer")
	amt := vs.U64("amount", 0, 1<<64-1)
	id := uint64(vs.Choose("id", 3)) // 2 does not exist
	if id == 1 {
		vs.Assume(amt > 5)
	}
	m0, u0 := w.ModBal(teamtypes.ModuleName), w.BalU(BOB)
	o0 := w.teamAcc(1)
	claimable := teamkeeper.GetVestingStatus(a, now).CurrentClaimableAmount
	err := w.Tx(func(ctx sdk.Context) error {
		_, e := teamMsg(w).ClaimUnlocked(ctx, &teamtypes.MsgClaimUnlocked{Authority: signer, Id: id, Amount: amt, Recipient: BOB})
		return e
	})
	b := w.teamAcc(0)
	vs.Assert(w.Team.GetAuthority(w.Ctx) == teamtypes.Authority{TotalRewards: 77, RewardsClaimed: 7}, "authority rewards untouched")
	o1 := w.teamAcc(1)
	vs.Assert(vs.SameMsg(&o0, &o1), "other accounts untouched")
	if err != nil {
		vs.Assert(eq(w.BalU(BOB), u0), "rejected claim pays nothing")
		vs.Assert(vs.SameMsg(&a, &b), "rejected claim changes nothing")
		if isTeamAuthority(signer) && id == 0 {
			vs.Assert(vs.Or(amt > claimable, lt(m0, bi(amt))), "a covered claim of unlocked tokens is accepted")
		}
		vs.Reach("rejected")
		return
	}
	vs.Reach("accepted")
	vs.Assert(isTeamAuthority(signer), "claim accepted only from an authority")
	vs.Assert(id == 0, "claim accepted only for an existing account")
	vs.Assert(eq(w.BalU(BOB), add(u0, bi(amt))), "recipient gets exactly the claimed amount")
	vs.Assert(eq(w.ModBal(teamtypes.ModuleName), sub(m0, bi(amt))), "module pays exactly the claimed amount")
	vs.Assert(eq(bi(b.UnlockedClaimed), add(bi(a.UnlockedClaimed), bi(amt))), "claimed counter grows by the amount")
	vs.Assert(b.UnlockedClaimed <= teamkeeper.GetVestingStatus(a, now).TotalUnlockedAmount, "never claim more than unlocked")
	vs.Assert(b.LastClaimedTime == now, "claim time recorded")
	b.UnlockedClaimed, b.LastClaimedTime = a.UnlockedClaimed, a.LastClaimedTime
	vs.Assert(vs.SameMsg(&a, &b), "claim changes nothing else")
	vs.Observe("bob", w.BalU(BOB))
}

// H_T02_claimRewards: one claim of account rewards.
func H_T02_claimRewards() {
	w, a, _ := t02world()
	signer := teamSigner("signer")
	amt := vs.U64("amount", 0, 1<<64-1)
	id := uint64(vs.Choose("id", 2)) * 2
	m0, u0 := w.ModBal(teamtypes.ModuleName), w.BalU(BOB)
	err := w.Tx(func(ctx sdk.Context) error {
		_, e := teamMsg(w).ClaimAccountRewards(ctx, &teamtypes.MsgClaimAccountRewards{Authority: signer, Id: id, Amount: amt, Recipient: BOB})
		return e
	})
	b := w.teamAcc(0)
	vs.Assert(w.Team.GetAuthority(w.Ctx) == teamtypes.Authority{TotalRewards: 77, RewardsClaimed: 7}, "authority rewards untouched")
	if err != nil {
		vs.Assert(eq(w.BalU(BOB), u0), "rejected claim pays nothing")
		vs.Assert(vs.SameMsg(&a, &b), "rejected claim changes nothing")
		if isTeamAuthority(signer) && id == 0 {
			vs.Assert(vs.Or(amt > a.TotalRewards-a.RewardsClaimed, lt(m0, bi(amt))), "a covered claim of rewards is accepted")
		}
		vs.Reach("rejected")
		return
	}
	vs.Reach("accepted")
	vs.Assert(isTeamAuthority(signer), "claim accepted only from an authority")
	vs.Assert(id == 0, "claim accepted only for an existing account")
	vs.Assert(eq(w.BalU(BOB), add(u0, bi(amt))), "recipient gets exactly the claimed amount")
	vs.Assert(eq(w.ModBal(teamtypes.ModuleName), sub(m0, bi(amt))), "module pays exactly the claimed amount")
	vs.Assert(eq(bi(b.RewardsClaimed), add(bi(a.RewardsClaimed), bi(amt))), "claimed counter grows by the amount")
	vs.Assert(b.RewardsClaimed <= b.TotalRewards, "never claim more than rewarded")
	b.RewardsClaimed = a.RewardsClaimed
	vs.Assert(vs.SameMsg(&a, &b), "claim changes nothing else")
}

// H_T02_claimAuthority: one claim of the authority's rewards.
func H_T02_claimAuthority() {
	w, a, _ := t02world()
	au := teamtypes.Authority{TotalRewards: vs.U64("au.total", 0, teamCap), RewardsClaimed: vs.U64("au.claimed", 0, teamCap)}
	vs.Assume(au.RewardsClaimed <= au.TotalRewards)
	w.Team.SetAuthority(w.Ctx, au)
	signer := teamSigner("signer")
	amt := vs.U64("amount", 0, 1<<64-1)
	m0, u0 := w.ModBal(teamtypes.ModuleName), w.BalU(BOB)
	err := w.Tx(func(ctx sdk.Context) error {
		_, e := teamMsg(w).ClaimAuthorityRewards(ctx, &teamtypes.MsgClaimAuthorityRewards{Authority: signer, Amount: amt, Recipient: BOB})
		return e
	})
	b := w.Team.GetAuthority(w.Ctx)
	acc := w.teamAcc(0)
	vs.Assert(vs.SameMsg(&a, &acc), "vesting accounts untouched")
	if err != nil {
		vs.Assert(eq(w.BalU(BOB), u0), "rejected claim pays nothing")
		vs.Assert(b == au, "rejected claim changes nothing")
		if signer == teamtypes.FOUNDATION_ADDRESS {
			vs.Assert(vs.Or(amt > au.TotalRewards-au.RewardsClaimed, lt(m0, bi(amt))), "a covered claim of rewards is accepted")
		}
		vs.Reach("rejected")
		return
	}
	vs.Reach("accepted")
	vs.Assert(signer == teamtypes.FOUNDATION_ADDRESS, "authority rewards are claimed by the foundation only")
	vs.Assert(eq(w.BalU(BOB), add(u0, bi(amt))), "recipient gets exactly the claimed amount")
	vs.Assert(eq(w.ModBal(teamtypes.ModuleName), sub(m0, bi(amt))), "module pays exactly the claimed amount")
	vs.Assert(eq(bi(b.RewardsClaimed), add(bi(au.RewardsClaimed), bi(amt))), "claimed counter grows by the amount")
	vs.Assert(b.RewardsClaimed <= b.TotalRewards, "never claim more than rewarded")
	vs.Assert(b.TotalRewards == au.TotalRewards, "claiming does not change the total")
}

// H_T02_clawback: one clawback on an account with any claim history, judged at any later time.
func H_T02_clawback() {
	w, a, now := t02world()
	signer := teamSigner("signer")
	cb := vs.U64("clawback", 0, 5_000_000_000)
	id := uint64(vs.Choose("id", 2)) * 2
	m0 := w.ModBal(teamtypes.ModuleName)
	err := w.Tx(func(ctx sdk.Context) error {
		_, e := teamMsg(w).Clawback(ctx, &teamtypes.MsgClawback{Authority: signer, Id: id, Clawback: cb})
		return e
	})
	b := w.teamAcc(0)
	vs.Assert(eq(w.ModBal(teamtypes.ModuleName), m0), "a clawback moves no coins")
	if err != nil {
		vs.Assert(vs.SameMsg(&a, &b), "rejected clawback changes nothing")
		if isTeamAuthority(signer) && id == 0 {
			vs.Assert(vs.And(cb != 0, vs.Or(cb < a.Commencement, cb < a.LastClaimedTime)), "an admissible clawback is accepted")
		}
		vs.Reach("rejected")
		return
	}
	vs.Reach("accepted")
	vs.Assert(isTeamAuthority(signer), "clawback accepted only from an authority")
	vs.Assert(id == 0, "clawback accepted only for an existing account")
	vs.Assert(b.Clawback == cb, "clawback stored")
	vs.Assert(vs.Or(cb == 0, vs.And(cb >= a.Commencement, cb >= a.LastClaimedTime)), "clawback never predates commencement or last claim")
	later := vs.U64("later", 0, 6_000_000_000)
	vs.Assume(later >= now)
	vs.Assert(teamkeeper.GetVestingStatus(b, later).TotalUnlockedAmount >= a.UnlockedClaimed, "claimed tokens stay unlocked after a clawback")
	b.Clawback = a.Clawback
	vs.Assert(vs.SameMsg(&a, &b), "clawback changes nothing else")
}
