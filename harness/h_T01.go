//verif:use lib_team.go

package main

import (
	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// H_T01_bounds: for every account (allocation up to the team allocation, any commencement and
// clawback) and any two times t <= u up to 6e9, the schedule is bounded and monotone.
func H_T01_bounds() {
	a := symTeamAccount("a")
	t := vs.U64("t", 0, 6_000_000_000)
	u := vs.U64("u", 0, 6_000_000_000)
	vs.Assume(t <= u)
	s := teamkeeper.GetVestingStatus(a, t)
	r := teamkeeper.GetVestingStatus(a, u)
	p := teamkeeper.GetVestingPlan(a)
	vs.Assert(s.TotalVestedAmount <= r.TotalVestedAmount, "vested amount never decreases")
	vs.Assert(s.TotalUnlockedAmount <= r.TotalUnlockedAmount, "unlocked amount never decreases")
	vs.Assert(s.TotalVestedAmount <= p.MaximumVestingAmount, "vested amount at most the maximum")
	vs.Assert(s.TotalUnlockedAmount <= s.TotalVestedAmount, "unlocked never exceeds vested")
	vs.Observe("vested", s.TotalVestedAmount)
	vs.Observe("unlocked", s.TotalUnlockedAmount)
	vs.Observe("max", p.MaximumVestingAmount)
	vs.Reach("end")
}

// H_T01_exact: every reported figure equals the schedule the specification gives, computed in
// exact integers: linear vesting over three years with a one year cliff, frozen at the clawback,
// linear unlocking over two years from one year after the later of commencement and TGE.
func H_T01_exact() {
	a := symTeamAccount("a")
	t := vs.U64("t", 0, 6_000_000_000)
	a.UnlockedClaimed = vs.U64("a.claimed", 0, teamCap)
	s := teamkeeper.GetVestingStatus(a, t)
	p := teamkeeper.GetVestingPlan(a)

	vested := func(at uint64) uint64 {
		end := at
		if a.Clawback > 0 && a.Clawback < at {
			end = a.Clawback
		}
		if end < a.Commencement+yearSecs {
			return 0
		}
		d := end - a.Commencement
		if d >= 3*yearSecs {
			return a.TotalAllocation
		}
		return vs.FloorDiv(mul(bi(a.TotalAllocation), bi(d)), bi(3*yearSecs)).Uint64()
	}
	max := vested(a.Commencement + 3*yearSecs)
	v := vested(t)
	ref := a.Commencement
	if ref < teamtypes.TGE {
		ref = teamtypes.TGE
	}
	ref += yearSecs
	unlocked := uint64(0)
	if t >= ref {
		if t-ref >= 2*yearSecs {
			unlocked = max
		} else {
			unlocked = vs.FloorDiv(mul(bi(v), bi(t-ref)), bi(2*yearSecs)).Uint64()
		}
	}
	vs.Assert(s.TotalVestedAmount == v, "vested amount follows the schedule")
	vs.Assert(s.TotalUnlockedAmount == unlocked, "unlocked amount follows the schedule")
	vs.Assert(p.MaximumVestingAmount == max, "maximum is the amount vested after three years")
	vs.Assert(p.ClawbackAmount == a.TotalAllocation-max, "clawback amount is the rest of the allocation")
	vs.Assert(s.LockedVestedAmount == v-unlocked, "locked vested amount is vested minus unlocked")
	vs.Assert(s.RemainingUnvestedAmount == max-v, "remaining unvested amount is the rest of the maximum")
	claimable := uint64(0)
	if unlocked > a.UnlockedClaimed {
		claimable = unlocked - a.UnlockedClaimed
	}
	vs.Assert(s.CurrentClaimableAmount == claimable, "claimable is unlocked minus claimed")
	vs.Assert(p.TokenVestingStart == a.Commencement+yearSecs, "vesting starts at the cliff")
	vs.Assert(p.TokenVestingFinished == a.Commencement+3*yearSecs, "vesting ends after three years")
	vs.Assert(p.TokenUnlockStart == ref, "unlocking starts at the lock-up date")
	vs.Assert(p.TokenUnlockFinished == ref+2*yearSecs, "unlocking ends two years later")
	vs.Observe("vested", s.TotalVestedAmount)
	vs.Observe("unlocked", s.TotalUnlockedAmount)
	vs.Observe("claimable", s.CurrentClaimableAmount)
	vs.Reach("end")
}
