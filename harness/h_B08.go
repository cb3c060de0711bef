//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

const quarter = 1 << 60 // bound of every time and duration, so that their sums stay in 64 bits

type b08case struct {
	kind, open int // open: 0 nothing stored, 1 no bundle, 2 open bundle
	votes      []int
	designated string
	stakes     []uint64
	inPool     int // validators in the pool
	maxed      int // the one whose points are one below the limit; 3: nobody
}

// b08world prepares pool 0 with arbitrary times.
func b08world(c b08case) (w *World, updated, interval, timeout uint64, now int64) {
	w = bundlesWorld(3)
	updated, interval, timeout, now = vs.U64("updated", 0, quarter), vs.U64("interval", 0, quarter), vs.U64("timeout", 0, quarter), vs.I64("now", 1, 1<<62)
	for i := 0; i < 3; i++ {
		w.selfStake(i, c.stakes[i])
	}
	w.mustDelegate(STAKER3, STAKER3, 1000)
	w.setBundlesParams(timeout, 5, "0.01", "0.00000002")
	w.makeKind(0, c.kind)
	w.setPool(0, func(p *pooltypes.Pool) {
		p.UploadInterval, p.CurrentIndex, p.TotalBundles = interval, 50, 3
		if c.kind == upgrading {
			p.UpgradePlan.ScheduledAt = 1
		}
	})
	w.setPool(1, func(p *pooltypes.Pool) { p.UploadInterval = 1 << 62; p.CurrentIndex = 7 }) // never due
	if c.open == 2 {
		p := openBundle(STAKER0, c.designated, updated)
		for i, v := range c.votes {
			castVote(&p, STAKERS[i+1], v)
		}
		w.Bundles.SetBundleProposal(w.Ctx, p)
	} else if c.open == 1 {
		w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: c.designated, UpdatedAt: updated})
	}
	q := openBundle(STAKER0, STAKER3, 5)
	q.PoolId = 1
	w.Bundles.SetBundleProposal(w.Ctx, q)
	for i := 2; i >= c.inPool; i-- {
		w.Stakers.LeavePool(w.Ctx, STAKERS[i], 0)
	}
	for i := 0; i < c.inPool; i++ {
		if i == c.maxed {
			w.setPoints(0, STAKERS[i], 4)
		}
	}
	w.At(1000, now)
	return
}

func b08check(c b08case) {
	w, updated, interval, timeout, now := b08world(c)
	prop, pool := w.proposal(0), w.pool(0)
	if c.open == 0 {
		updated = 0
	}
	t := w.tally(0, prop)
	verdict := verdictNone
	if c.open == 2 {
		verdict = t.verdict()
	}
	was, bank, store, before := w.stakes(), w.Bank.snap(), w.Dump(true), w.members(2)
	w.endBundles()
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
	got := w.proposal(0)
	q := openBundle(STAKER0, STAKER3, 5)
	q.PoolId = 1
	q1 := w.proposal(1)
	vs.Assert(vs.SameMsg(&q, &q1), "other pools keep their bundle")
	p1 := w.pool(1)
	vs.Assert(p1.CurrentIndex == 7 && p1.TotalBundles == 0, "other pools keep their position")

	if c.kind != runs {
		want := prop
		if c.kind == disabled && c.open == 2 {
			want = bundlestypes.BundleProposal{UpdatedAt: uint64(now)}
		}
		want.NextUploader = ""
		if c.open == 0 {
			want = prop
		}
		vs.Assert(vs.SameMsg(&got, &want), "a pool which can not run only loses its uploader, and its bundle if disabled")
		if c.open != 0 {
			w.Bundles.SetBundleProposal(w.Ctx, prop)
		}
		vs.Assert(SameDump(store, w.Dump(true)) && SameBank(bank, w.Bank), "a pool which can not run penalises nobody")
		vs.Reach("not running")
		return
	}
	due := vs.Fork(uint64(now) >= updated+interval)
	late := vs.Fork(uint64(now) >= updated+interval+timeout)
	undecided := c.open == 2 && verdict == verdictNone
	if !due || !late && !undecided {
		vs.Assert(SameDump(store, w.Dump(true)) && SameBank(bank, w.Bank), "before the deadline nothing changes")
		vs.Reach("early")
		return
	}
	// points: one for every missed bundle, one for the missed slot
	for i, s := range STAKERS[:3] {
		v := voteOf(prop, s)
		if c.open == 2 && (verdict == verdictValid && v == voteInvalid || verdict == verdictInvalid && v == voteValid) {
			// also those who left meanwhile
			rate := uint64(10)
			if s == prop.Uploader {
				rate = 20
			}
			vs.Assert(!w.member(s, 0) && (eq(was[i], bi(0)) || lost(was[i], w.total(s), rate, 1)), "the losing side is slashed and removed")
			continue
		}
		if i >= c.inPool {
			vs.Assert(!w.member(s, 0) && eq(was[i], w.total(s)), "validators outside the pool are not affected")
			continue
		}
		pts := uint64(0)
		if i == c.maxed {
			pts = 4
		}
		if c.open == 2 && v == noVote {
			pts++
		}
		if s == c.designated && !undecided && pts < 5 {
			pts++
		}
		x, ok := w.pointsOf(0, s)
		if pts >= 5 {
			vs.Assert(!ok && (eq(was[i], bi(0)) || lost(was[i], w.total(s), 2, 1)), "at the limit the validator is slashed and removed")
			vs.Reach("limit")
		} else {
			vs.Assert(ok && x == pts, "exactly one point for a missed bundle and one for a missed slot")
			vs.Assert(eq(was[i], w.total(s)), "below the limit nobody is slashed")
		}
	}
	w.sameMembers(before, 2, "other memberships stay", nm("%s|0", STAKER0), nm("%s|0", STAKER1), nm("%s|0", STAKER2))
	vs.Assert(eq(was[3], w.total(STAKER3)), "validators of other pools are not affected")
	np := w.pool(0)
	if verdict == verdictValid {
		vs.Assert(np.TotalBundles == 4 && np.CurrentIndex == 60, "a valid bundle is archived")
	} else {
		w.samePool(np, pool, "the position stays")
	}
	want := bundlestypes.BundleProposal{NextUploader: got.NextUploader, UpdatedAt: uint64(now)}
	vs.Assert(vs.SameMsg(&got, &want), "the next uploader's time starts now, without an open bundle")
	// a new uploader
	candidates := 0
	for i, s := range STAKERS[:3] {
		if w.member(s, 0) && c.stakes[i] > 0 {
			candidates++
		}
	}
	if candidates == 0 {
		vs.Assert(got.NextUploader == "" || w.member(got.NextUploader, 0), "only a member is uploader")
	} else {
		vs.Assert(got.NextUploader != "" && w.member(got.NextUploader, 0), "the new uploader is a member of the pool")
	}
	vs.Reach("replaced")
}

// H_B08_times: every kind of pool, bundle state and designated uploader, any times.
func H_B08_times() {
	c := b08case{kind: vs.Choose("kind", nKinds), open: vs.Choose("bundle", 3), stakes: []uint64{1000, 1000, 1000}, inPool: 3, maxed: 3}
	if c.open > 0 {
		c.designated = []string{STAKER1, "", STAKER3, STAKER0}[vs.Choose("designated", 4)]
	}
	if c.open == 2 {
		k := vs.Choose("votes", 5)
		c.votes = [][]int{{noVote, noVote}, {voteValid, noVote}, {voteInvalid, voteInvalid}, {voteAbstain, voteInvalid}, {voteValid, voteInvalid}}[k]
	}
	b08check(c)
}

// H_B08_limit: one validator is at its last point, stakes differ, members have left.
func H_B08_limit() {
	c := b08case{kind: runs, open: 1 + vs.Choose("bundle", 2), designated: []string{STAKER1, "", STAKER0}[vs.Choose("designated", 3)], maxed: vs.Choose("at the limit", 3), inPool: 1 + vs.Choose("members", 3)}
	c.stakes = [][]uint64{{1000, 2000, 3000}, {3000, 100, 2}, {0, 5, 5}, {5, 5, 0}}[vs.Choose("stakes", 4)]
	if c.maxed >= c.inPool {
		c.maxed = 0
	}
	if c.open == 2 {
		c.votes = [][]int{{noVote, noVote}, {voteValid, noVote}, {voteInvalid, voteInvalid}}[vs.Choose("votes", 3)]
	}
	b08check(c)
}

// H_B08_empty: a pool without validators has no uploader.
func H_B08_empty() {
	c := b08case{kind: runs, open: vs.Choose("bundle", 3), stakes: []uint64{10, 20, 0}, inPool: 0, maxed: 3}
	if c.open > 0 {
		c.designated = []string{STAKER1, "", STAKER3}[vs.Choose("designated", 3)]
	}
	if c.open == 2 {
		c.votes = [][]int{{noVote, noVote}, {voteValid, voteInvalid}}[vs.Choose("votes", 2)]
	}
	b08check(c)
}

// H_B08_order: two pools are due in the same block; each is handled as if it were alone, also if the first can not run.
func H_B08_order() {
	w := bundlesWorld(3)
	kind := vs.Choose("kind", nKinds)
	for i := 0; i < 4; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: 100})
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{PoolId: 1, NextUploader: []string{STAKER3, STAKER0, STAKER2}[vs.Choose("other", 3)], UpdatedAt: 100})
	other := w.proposal(1).NextUploader
	iv := vs.U64("interval", 1, quarter)
	w.setPool(1, func(p *pooltypes.Pool) { p.UploadInterval = iv })
	w.makeKind(0, kind)
	if kind == upgrading {
		w.setPool(0, func(p *pooltypes.Pool) { p.UpgradePlan.ScheduledAt = 1 })
	}
	now := vs.I64("now", 760, 1<<62)
	w.At(1000, now)
	late := vs.Fork(uint64(now) >= 100+iv+600)
	w.endBundles()
	if kind != runs {
		vs.Assert(w.points(0, STAKER1) == 0 && w.proposal(0).NextUploader == "", "a pool which can not run only loses its uploader")
	} else {
		vs.Assert(w.points(0, STAKER1) == 1 && w.points(0, STAKER0) == 0 && w.points(0, STAKER2) == 0, "the late uploader gets its point")
		vs.Assert(w.proposal(0).UpdatedAt == uint64(now) && w.member(w.proposal(0).NextUploader, 0), "the late pool gets a new uploader")
	}
	for _, s := range []string{STAKER0, STAKER3} {
		want := uint64(0)
		if late && s == other {
			want = 1
		}
		vs.Assert(w.points(1, s) == want, "each pool is judged by its own times")
	}
	q := w.proposal(1)
	if late {
		vs.Assert(q.UpdatedAt == uint64(now) && w.member(q.NextUploader, 1), "the other late pool gets a new uploader")
		vs.Reach("both")
	} else {
		vs.Assert(q.UpdatedAt == 100 && q.NextUploader == other, "the other pool stays before its deadline")
		vs.Reach("one")
	}
}
