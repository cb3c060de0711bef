//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func (w *World) maxPoints(n uint64) {
	p := w.Bundles.GetParams(w.Ctx)
	p.MaxPoints = n
	w.Bundles.SetParams(w.Ctx, p)
}

// b07check ends the round; stakes are such that the verdict does not depend on removals.
func b07check(w *World, way int, max uint64) {
	p := w.proposal(0)
	was := w.stakes()
	var pts []uint64
	var in []bool
	for _, s := range STAKERS {
		x, ok := w.pointsOf(0, s)
		pts, in = append(pts, x), append(in, ok)
	}
	other, _ := w.pointsOf(1, STAKER0)
	t := w.tally(0, p)
	store := w.Dump(true)
	e := w.endRound(way)
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "an undecided round goes on")
		return
	}
	open := p.StorageId != ""
	verdict := t.verdict()
	decided := open && verdict != verdictNone
	for i, s := range STAKERS {
		now, ok := w.pointsOf(0, s)
		if !in[i] {
			vs.Assert(!ok, "nobody joins")
			continue
		}
		v := voteOf(p, s)
		loser := decided && (verdict == verdictValid && v == voteInvalid || verdict == verdictInvalid && v == voteValid)
		if loser {
			continue // slashed for its vote
		}
		want := pts[i]
		if s == STAKER1 && way != byTimeout {
			want = 0 // submitting and skipping prove activity
		}
		missed := open && v == noVote
		if missed {
			want++
		}
		removed := missed && vs.Fork(want >= max)
		if s == STAKER1 && way == byTimeout && (!open || decided) && !removed {
			want++ // missed its slot
			removed = vs.Fork(want >= max)
		}
		if removed {
			vs.Assert(!ok, "at the limit the validator is removed")
			vs.Assert(lost(was[i], w.total(s), 2, 1), "at the limit the validator is slashed for timeout")
			vs.Reach("limit")
			continue
		}
		if !open {
			vs.Assert(ok && now == want, "nobody misses a bundle while none is open")
		} else {
			vs.Assert(ok, "below the limit nobody is removed")
			vs.Assert(now == want, "exactly the validators without a vote gain a point")
		}
		vs.Assert(eq(was[i], w.total(s)), "below the limit nobody is slashed")
		vs.Reach("below")
	}
	after, ok := w.pointsOf(1, STAKER0)
	vs.Assert(ok && after == other, "points in other pools stay")
	vs.Assert(eq(was[3], w.total(STAKER3)), "validators of other pools are not affected")
}

func b07world(votes []int, stakes []uint64) (*World, uint64) {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], stakes[i])
	}
	w.mustDelegate(STAKER3, STAKER3, 1000)
	max := vs.U64("limit", 1, 1<<40)
	w.maxPoints(max)
	w.setPoints(1, STAKER0, vs.U64("points elsewhere", 0, 1<<40))
	if votes != nil {
		p := openBundle(STAKER0, STAKER1, 1_600_000_000)
		for i, v := range votes {
			castVote(&p, STAKERS[i+1], v)
		}
		w.Bundles.SetBundleProposal(w.Ctx, p)
	} else {
		w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: 1_600_000_000})
	}
	return w, max
}

// symPoints gives a pool member any points; at or above the limit if governance lowered the limit since.
func (w *World) symPoints(i int) {
	w.setPoints(0, STAKERS[i], vs.U64(nm("points%d", i), 0, 1<<40))
}

// H_B07_valid: the uploader's side has the majority whoever is removed; any points and limit.
func H_B07_valid() {
	way := vs.Choose("way", nWays)
	w, max := b07world([]int{vs.Choose("vote1", 4), vs.Choose("vote2", 4)}, []uint64{100_000, 3_000, 2_000})
	for i := 0; i < 3; i++ {
		w.symPoints(i)
	}
	b07check(w, way, max)
}

// H_B07_invalid: a heavy validator voted invalid, the other one anything.
func H_B07_invalid() {
	way := vs.Choose("way", nWays)
	k := 1 + vs.Choose("heavy", 2)
	st := []uint64{3_000, 2_000, 2_000}
	st[k] = 100_000
	votes := []int{vs.Choose("light", 4), vs.Choose("light2", 4)}
	votes[k-1] = voteInvalid
	w, max := b07world(votes, st)
	for i := 0; i < 3; i++ {
		w.symPoints(i)
	}
	b07check(w, way, max)
}

// H_B07_none: no bundle is open, or it stays undecided because the heavy validator abstained.
func H_B07_none() {
	way := vs.Choose("way", nWays)
	var votes []int
	if vs.Choose("open", 2) == 1 {
		votes = []int{vs.Choose("vote1", 4), voteAbstain}
	}
	w, max := b07world(votes, []uint64{3_000, 2_000, 100_000})
	for i := 0; i < 3; i++ {
		w.symPoints(i)
	}
	b07check(w, way, max)
}

// H_B07_repeat: a validator which never votes is removed exactly after the limit's number of bundles.
func H_B07_repeat() {
	limit := uint64(1 + vs.Choose("limit", 4))
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], []uint64{100_000, 3_000, 2_000}[i])
	}
	w.maxPoints(limit)
	back := uint64(vs.Choose("votes in round", 4)) // 0: never
	missed := uint64(0)
	in := true
	for r := uint64(1); r <= 5; r++ {
		p := openBundle(STAKER0, STAKER0, 1_600_000_000+r)
		castVote(&p, STAKER1, voteAbstain)
		w.Bundles.SetBundleProposal(w.Ctx, p)
		if r == back && in {
			must(w.vote(bundlestypes.MsgVoteBundleProposal{Creator: VALSA[2], Staker: STAKER2, PoolId: 0, StorageId: sid, Vote: bundlestypes.VOTE_TYPE_ABSTAIN}))
			missed = 0
		} else {
			missed++
		}
		must(w.submit(w.plainSubmit(STAKER0)))
		in = in && missed < limit
		x, ok := w.pointsOf(0, STAKER2)
		vs.Assert(ok == in, "removed exactly when the limit is reached")
		vs.Assert(!in || x == missed, "one point per missed bundle since the last vote")
	}
	if in {
		return
	}
	// a validator which comes back starts without points
	w.GiveU(STAKER2, 5)
	if w.join(STAKER2, 0, VALSA[2], 0) == nil {
		x, ok := w.pointsOf(0, STAKER2)
		vs.Assert(ok && x == 0, "points are cleared on removal")
		vs.Reach("back")
	}
}
