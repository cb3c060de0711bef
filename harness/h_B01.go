//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func b01check(w *World) {
	p := w.proposal(0)
	t := w.tally(0, p)
	d := w.Bundles.GetVoteDistribution(w.Ctx, 0)
	vs.Assert(eq(bi(d.Valid), t.valid), "valid power is the stake of the members who voted valid")
	vs.Assert(eq(bi(d.Invalid), t.invalid), "invalid power is the stake of the members who voted invalid")
	vs.Assert(eq(bi(d.Abstain), t.abstain), "abstain power is the stake of the members who abstained")
	vs.Assert(eq(bi(d.Total), t.total), "total power is the stake of all members")
	valid, invalid := t.isValid(), t.isInvalid()
	vs.Assert(vs.Iff(d.Status == bundlestypes.BUNDLE_STATUS_VALID, valid), "valid exactly with more than half of the stake")
	vs.Assert(vs.Iff(d.Status == bundlestypes.BUNDLE_STATUS_INVALID, invalid), "invalid exactly with at least half of the stake")
	vs.Assert(vs.Iff(d.Status == bundlestypes.BUNDLE_STATUS_NO_QUORUM, vs.Not(vs.Or(valid, invalid))), "otherwise no quorum")
	vs.Assert(!vs.And(valid, invalid), "valid and invalid never hold at once")
}

// H_B01_tally: any stakes, every vote of three pool validators, of which any may have left the pool since.
func H_B01_tally() {
	w := bundlesWorld(3)
	p := openBundle(STAKER0, STAKER1, 1_700_000_000)
	p.VotersValid = nil
	left := vs.Choose("left", 4) // one of them, or nobody
	for i := 2; i >= 0; i-- {
		castVote(&p, STAKERS[i], vs.Choose(nm("vote%d", i), 4))
		lo := uint64(1)
		if i == 0 {
			lo = 0
		}
		w.selfStake(i, vs.U64(nm("stake%d", i), lo, stakeCap))
	}
	w.mustDelegate(STAKER3, STAKER3, vs.U64("stake3", 1, stakeCap)) // only in the other pool
	w.Bundles.SetBundleProposal(w.Ctx, p)
	if left < 3 {
		w.Stakers.LeavePool(w.Ctx, STAKERS[left], 0)
	}
	store := w.Dump(false)
	b01check(w)
	vs.Assert(SameDump(store, w.Dump(false)), "counting votes changes nothing")
	vs.Reach("counted")
}

// H_B01_delegators: stake includes delegations, undelegations in progress do not count, slashes do.
func H_B01_delegators() {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], []uint64{3, 1_000_001, 999_999_999_999}[i])
	}
	a := vs.U64("delegated", 1, stakeCap)
	w.mustDelegate(ALICE, STAKER1, a)
	switch vs.Choose("then", 4) {
	case 1:
		must(w.undelegate(ALICE, STAKER1, 1))
	case 2:
		w.slash(STAKER2, 1)
	case 3:
		w.GiveU(ALICE, 5)
		must(w.redelegate(ALICE, STAKER1, STAKER0, 1))
	}
	p := openBundle(STAKER0, STAKER1, 1_700_000_000)
	castVote(&p, STAKER1, vs.Choose("vote1", 4))
	castVote(&p, STAKER2, vs.Choose("vote2", 4))
	w.Bundles.SetBundleProposal(w.Ctx, p)
	b01check(w)
}

// H_B01_none: no stake or no proposal at all never gives a verdict.
func H_B01_none() {
	w := bundlesWorld(3)
	k := vs.Choose("case", 3)
	if k > 0 {
		w.mustDelegate(STAKER3, STAKER3, 5)
		p := openBundle(STAKER0, STAKER1, 1)
		castVote(&p, STAKER1, vs.Choose("vote", 4))
		w.Bundles.SetBundleProposal(w.Ctx, p)
	}
	if k == 2 {
		for i := 0; i < 3; i++ {
			w.Stakers.LeavePool(w.Ctx, STAKERS[i], 0)
		}
	}
	d := w.Bundles.GetVoteDistribution(w.Ctx, 0)
	vs.Assert(d.Valid == 0 && d.Invalid == 0 && d.Abstain == 0 && d.Total == 0, "no power without stake")
	vs.Assert(d.Status != bundlestypes.BUNDLE_STATUS_VALID && d.Status != bundlestypes.BUNDLE_STATUS_INVALID, "no verdict without stake")
}
