package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	teammod "github.com/KYVENetwork/chain/x/team"
	"github.com/KYVENetwork/chain/zz_verif/vs"
)

const (
	yearSecs = 365 * 24 * 3600
	teamCap  = 165_000_000_000_000_000
)

// any account a creation followed by an accepted clawback can produce
func symTeamAccount(n string) teamtypes.TeamVestingAccount {
	a := teamtypes.TeamVestingAccount{
		TotalAllocation: vs.U64(n+".alloc", 1, teamCap),
		Commencement:    vs.U64(n+".start", 1_500_000_000, 4_000_000_000),
		Clawback:        vs.U64(n+".clawback", 0, 5_000_000_000),
	}
	vs.Assume(vs.Or(a.Clawback == 0, a.Clawback >= a.Commencement))
	return a
}

// symTeamHistory adds a claim history: what was claimed was unlocked at the last claim.
func symTeamHistory(n string, a *teamtypes.TeamVestingAccount, now uint64) {
	a.LastClaimedTime = vs.U64(n+".lastClaim", 0, 5_000_000_000)
	a.UnlockedClaimed = vs.U64(n+".claimed", 0, teamCap)
	a.TotalRewards = vs.U64(n+".rewards", 0, teamCap)
	a.RewardsClaimed = vs.U64(n+".rewardsClaimed", 0, teamCap)
	vs.Assume(a.LastClaimedTime <= now)
	vs.Assume(a.RewardsClaimed <= a.TotalRewards)
	vs.Assume(a.UnlockedClaimed <= teamkeeper.GetVestingStatus(*a, a.LastClaimedTime).TotalUnlockedAmount)
}

func teamSigner(n string) string {
	return []string{teamtypes.FOUNDATION_ADDRESS, teamtypes.BCP_ADDRESS, ALICE}[vs.Choose(n, 3)]
}

func isTeamAuthority(s string) bool {
	return s == teamtypes.FOUNDATION_ADDRESS || s == teamtypes.BCP_ADDRESS
}

func (w *World) teamAcc(id uint64) teamtypes.TeamVestingAccount {
	a, ok := w.Team.GetTeamVestingAccount(w.Ctx, id)
	vs.Assert(ok, "vesting account still exists")
	return a
}

func teamMsg(w *World) teamtypes.MsgServer { return teamkeeper.NewMsgServerImpl(w.Team) }

var _ = sdk.Context{}

// beginTeam is the team part of a block's beginning.
func (w *World) beginTeam() {
	if e := teammod.NewAppModule(nil, w.Bank, w.Mint, w.Team, w.Upg).BeginBlock(w.Ctx); e != nil {
		panic(e)
	}
}
