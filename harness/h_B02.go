//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// b02check sends one vote and compares with the property.
func b02check(w *World, m bundlestypes.MsgVoteBundleProposal, ok bool) {
	store, bank := w.Dump(true), w.Bank.snap()
	was := w.proposal(m.PoolId)
	e := w.vote(m)
	vs.Assert((e == nil) == ok, "a vote is accepted exactly if the voter may cast it")
	vs.Assert(SameBank(bank, w.Bank), "voting moves no coins")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "a rejected vote changes nothing")
		vs.Reach("rejected")
		return
	}
	now := w.proposal(m.PoolId)
	want := was
	want.VotersAbstain = without(was.VotersAbstain, m.Staker)
	castVote(&want, m.Staker, map[bundlestypes.VoteType]int{bundlestypes.VOTE_TYPE_VALID: voteValid, bundlestypes.VOTE_TYPE_INVALID: voteInvalid, bundlestypes.VOTE_TYPE_ABSTAIN: voteAbstain}[m.Vote])
	for _, s := range STAKERS {
		n := count(now.VotersValid, s) + count(now.VotersInvalid, s) + count(now.VotersAbstain, s)
		vs.Assert(n <= 1, "nobody is counted twice")
		vs.Assert(voteOf(now, s) == voteOf(want, s), "exactly the voter's vote changes, to what it chose")
	}
	vs.Assert(len(now.VotersValid) == len(want.VotersValid) && len(now.VotersInvalid) == len(want.VotersInvalid) && len(now.VotersAbstain) == len(want.VotersAbstain), "no other votes appear")
	vs.Assert(w.points(m.PoolId, m.Staker) == 0, "voting clears the inactivity points")
	now.VotersValid, now.VotersInvalid, now.VotersAbstain = was.VotersValid, was.VotersInvalid, was.VotersAbstain
	vs.Assert(vs.SameMsg(&now, &was), "the bundle itself stays as it was")
	vs.Reach("accepted")
}

func b02world() *World {
	w := bundlesWorld(3)
	for i := 0; i < 4; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	return w
}

// H_B02_vote: any earlier votes, any vote value, by a member.
func H_B02_vote() {
	w := b02world()
	pts := vs.U64("points", 0, 1<<40)
	other := vs.U64("points of another", 0, 1<<40)
	w.setPoints(0, STAKER1, pts)
	w.setPoints(0, STAKER2, other)
	p := openBundle([]string{STAKER0, STAKER2}[vs.Choose("uploader", 2)], STAKER1, 1_700_000_000)
	prev := vs.Choose("previous", 4)
	first := vs.Choose("order", 2) == 1
	if first {
		castVote(&p, STAKER1, prev)
	}
	if p.Uploader == STAKER0 {
		castVote(&p, STAKER2, vs.Choose("other", 4))
	} else {
		castVote(&p, STAKER0, vs.Choose("other", 4))
	}
	if !first {
		castVote(&p, STAKER1, prev)
	}
	w.Bundles.SetBundleProposal(w.Ctx, p)
	v := bundlestypes.VoteType(vs.I64("vote", -1<<31, 1<<31-1))
	ok := prev == noVote && vs.Fork(vs.And(v >= 1, v <= 3)) || prev == voteAbstain && vs.Fork(vs.And(v >= 1, v <= 2))
	for i := bundlestypes.VoteType(1); ok && i <= 3; i++ {
		if vs.Fork(v == i) {
			v = i
			break
		}
	}
	before := w.members(2)
	b02check(w, bundlestypes.MsgVoteBundleProposal{Creator: w.valaddr(0, STAKER1), Staker: STAKER1, PoolId: 0, StorageId: sid, Vote: v}, ok)
	w.sameMembers(before, 2, "no other membership changes", nm("%s|0", STAKER1))
}

// H_B02_who: any sender, validator, pool, storage id and kind of pool.
func H_B02_who() {
	w := b02world()
	kind := vs.Choose("kind", nKinds)
	w.makeKind(0, kind)
	open := vs.Choose("open", 3) // no bundle ever, dropped bundle, open bundle
	p := openBundle(STAKER0, STAKER1, 1_700_000_000)
	if open == 1 {
		p = bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: 7}
	}
	if open > 0 {
		w.Bundles.SetBundleProposal(w.Ctx, p)
	}
	q := openBundle(STAKER0, STAKER3, 1_700_000_000) // pool 1 has its own bundle
	q.PoolId, q.StorageId = 1, "other-id"
	w.Bundles.SetBundleProposal(w.Ctx, q)
	w.Stakers.LeavePool(w.Ctx, STAKER2, 0) // no longer a member
	m := bundlestypes.MsgVoteBundleProposal{
		PoolId:    uint64(vs.Choose("pool", 3)),
		Staker:    STAKER1,
		Creator:   VALSA[1],
		StorageId: []string{sid, "other-id", ""}[vs.Choose("storage", 3)],
		Vote:      bundlestypes.VOTE_TYPE_VALID,
	}
	if kind == runs {
		m.Staker = []string{STAKER1, STAKER2, STAKER3, ALICE}[vs.Choose("staker", 4)]
		m.Creator = []string{VALSA[1], VALSA[2], VALSA[0], VAL3B, STAKER1}[vs.Choose("sender", 5)]
	}
	ok := m.PoolId == 0 && kind == runs && open == 2 && m.Staker == STAKER1 && m.Creator == VALSA[1] && m.StorageId == sid ||
		m.PoolId == 1 && m.Staker == STAKER3 && m.Creator == VAL3B && m.StorageId == "other-id"
	b02check(w, m, ok)
}

// H_B02_time: a bundle stays open for votes until it is concluded, and upgrades close it exactly at their time.
func H_B02_time() {
	w := b02world()
	at := vs.U64("scheduled", 0, 1<<62)
	now := vs.I64("now", 1, 1<<40)
	p := w.pool(0)
	p.UpgradePlan.ScheduledAt, p.UpgradePlan.Version, p.UpgradePlan.Duration = at, "2", vs.U64("duration", 0, u64max)
	p.Disabled = vs.Choose("disabled", 2) == 1
	w.Pool.SetPool(w.Ctx, p)
	b := openBundle(STAKER0, STAKER1, vs.U64("updated", 0, u64max))
	w.Bundles.SetBundleProposal(w.Ctx, b)
	w.At(1000, now)
	up := vs.Fork(vs.And(at > 0, uint64(now) >= at))
	b02check(w, bundlestypes.MsgVoteBundleProposal{Creator: VALSA[2], Staker: STAKER2, PoolId: 0, StorageId: sid, Vote: bundlestypes.VOTE_TYPE_INVALID}, !up && !p.Disabled)
}
