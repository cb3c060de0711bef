//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func b12world() *World {
	w := bundlesWorld(3)
	for i := 0; i < 4; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	q := openBundle(STAKER0, STAKER3, 1_600_000_000)
	q.PoolId, q.StorageId = 1, "other-id"
	w.Bundles.SetBundleProposal(w.Ctx, q)
	return w
}

// b12bundle sets one of: nothing, dropped bundle, open bundle; with the given designated uploader.
func (w *World) b12bundle(open int, next string, updated uint64) {
	switch open {
	case 1:
		w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: next, UpdatedAt: updated})
	case 2:
		w.Bundles.SetBundleProposal(w.Ctx, openBundle(STAKER0, next, updated))
	}
}

// H_B12_claim: any sender, validator, pool, bundle state, designated uploader and kind of pool.
func H_B12_claim() {
	w := b12world()
	kind := vs.Choose("kind", nKinds)
	w.makeKind(0, kind)
	open := vs.Choose("bundle", 3)
	next := ""
	if open > 0 {
		next = []string{"", STAKER1, STAKER2, STAKER0, STAKER3}[vs.Choose("designated", 5)]
	}
	updated, now := vs.U64("updated", 0, u64max), vs.I64("now", 1_600_000_000, 2_000_000_000)
	w.b12bundle(open, next, updated)
	w.At(1000, now)
	w.Stakers.LeavePool(w.Ctx, STAKER2, 0)
	w.setPoints(0, STAKER1, vs.U64("points", 0, 4))
	m := bundlestypes.MsgClaimUploaderRole{PoolId: uint64(vs.Choose("pool", 3)), Staker: STAKER1, Creator: VALSA[1]}
	if kind == runs {
		m.Staker = []string{STAKER1, STAKER0, STAKER2, STAKER3}[vs.Choose("staker", 4)]
		m.Creator = []string{VALSA[1], VALSA[0], VALSA[2], VAL3B, STAKER1}[vs.Choose("sender", 5)]
	}
	ok := m.PoolId == 0 && kind == runs && next == "" && (m.Staker == STAKER1 && m.Creator == VALSA[1] || m.Staker == STAKER0 && m.Creator == VALSA[0])
	store, bank := w.Dump(true), w.Bank.snap()
	want := w.proposal(0)
	e := w.claim(m)
	vs.Assert((e == nil) == ok, "the free role is claimed by a member of a pool which can run")
	vs.Assert(SameBank(bank, w.Bank), "claiming moves no coins")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "a rejected claim changes nothing")
		vs.Reach("rejected")
		return
	}
	got := w.proposal(0)
	vs.Assert(got.NextUploader == m.Staker && got.UpdatedAt == uint64(now), "the claimer is designated from now on")
	want.NextUploader, want.UpdatedAt = got.NextUploader, got.UpdatedAt
	vs.Assert(vs.SameMsg(&got, &want), "claiming leaves the open bundle as it is")
	if open > 0 {
		got.NextUploader, got.UpdatedAt = "", updated
		w.Bundles.SetBundleProposal(w.Ctx, got)
		vs.Assert(SameDump(store, w.Dump(true)), "claiming changes nothing else")
	}
	vs.Reach("claimed")
}

// H_B12_skipwho: who may skip, when.
func H_B12_skipwho() {
	w := b12world()
	kind := vs.Choose("kind", nKinds)
	w.makeKind(0, kind)
	open := vs.Choose("bundle", 3)
	next := ""
	if open > 0 {
		next = []string{"", STAKER1, STAKER0, STAKER2}[vs.Choose("designated", 4)]
	}
	w.b12bundle(open, next, 1_600_000_000)
	w.Stakers.LeavePool(w.Ctx, STAKER2, 0)
	m := bundlestypes.MsgSkipUploaderRole{PoolId: uint64(vs.Choose("pool", 3)), Staker: STAKER1, Creator: VALSA[1], FromIndex: w.proposal(0).BundleSize}
	if kind == runs {
		m.Staker = []string{STAKER1, STAKER0, STAKER2, STAKER3}[vs.Choose("staker", 4)]
		m.Creator = []string{VALSA[1], VALSA[0], VALSA[2], VAL3B, STAKER1}[vs.Choose("sender", 5)]
	}
	if m.PoolId == 1 {
		m.FromIndex = 10
	}
	ok := m.PoolId == 0 && kind == runs && m.Staker == next && (m.Staker == STAKER1 && m.Creator == VALSA[1] || m.Staker == STAKER0 && m.Creator == VALSA[0]) ||
		m.PoolId == 1 && m.Staker == STAKER3 && m.Creator == VAL3B
	store, bank := w.Dump(true), w.Bank.snap()
	e := w.skip(m)
	vs.Assert((e == nil) == ok, "the role is skipped by its holder's account in a pool which can run")
	vs.Assert(SameBank(bank, w.Bank), "no coins move") // no verdict here: nobody but the uploader has voted
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "a rejected skip changes nothing")
		return
	}
	n := w.proposal(m.PoolId).NextUploader
	vs.Assert(w.member(n, m.PoolId) && n != m.Staker, "the role passes to another member")
	vs.Reach("skipped")
}

// H_B12_skip: any time, position, votes and stakes; the bundle's content and everybody's stake stay unless it is decided.
func H_B12_skip() {
	w := bundlesWorld(3)
	index, size := vs.U64("index", 0, half), vs.U64("size", 1, 1<<40)
	updated, interval := vs.U64("updated", 0, half), vs.U64("interval", 1, half)
	now := vs.I64("now", 1, half)
	w.setPool(0, func(p *pooltypes.Pool) { p.CurrentIndex, p.UploadInterval, p.MaxBundleSize = index, interval, 1<<41 })
	// at most one of the other validators is without stake
	none := vs.Choose("without stake", 4)
	for i := 0; i < 3; i++ {
		if i != none {
			w.mustDelegate(STAKERS[i], STAKERS[i], []uint64{1000, 1400, 1100}[i])
		}
	}
	p := openBundle(STAKER0, STAKER1, updated)
	p.BundleSize = size
	open := vs.Choose("open", 2) == 1
	if open {
		castVote(&p, STAKER1, vs.Choose("vote1", 4))
		castVote(&p, STAKER2, vs.Choose("vote2", 4))
	} else {
		p = bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: updated}
		size = 0
	}
	w.Bundles.SetBundleProposal(w.Ctx, p)
	from := vs.U64("from", 0, u64max)
	w.At(1000, now)
	ok := vs.Fork(vs.And(uint64(now) >= updated+interval, from == index+size))
	t := w.tally(0, p)
	verdict := t.verdict()
	if !open {
		verdict = verdictNone
	}
	pool := w.pool(0)
	store, bank := w.Dump(true), w.Bank.snap()
	before := w.stakes()
	e := w.skip(bundlestypes.MsgSkipUploaderRole{Creator: VALSA[1], Staker: STAKER1, PoolId: 0, FromIndex: from})
	vs.Assert((e == nil) == ok, "the role is skipped exactly after the upload interval at the right position")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "a rejected skip changes nothing")
		vs.Assert(SameBank(bank, w.Bank), "a rejected skip moves no coins")
		vs.Reach("rejected")
		return
	}
	got, np := w.proposal(0), w.pool(0)
	vs.Assert(got.UpdatedAt == uint64(now), "the next uploader's time starts now")
	others := 0
	for i := range STAKERS[:3] {
		if i != 1 && w.member(STAKERS[i], 0) && i != none {
			others++
		}
	}
	if others > 0 {
		vs.Assert(w.member(got.NextUploader, 0) && got.NextUploader != STAKER1, "the role passes to another member if there is one")
	} else {
		vs.Assert(got.NextUploader == "" || w.member(got.NextUploader, 0), "nobody outside the pool becomes uploader")
	}
	switch verdict {
	case verdictNone:
		want := p
		want.NextUploader, want.UpdatedAt = got.NextUploader, got.UpdatedAt
		vs.Assert(vs.SameMsg(&got, &want), "an undecided bundle stays as it is")
		w.samePool(np, pool, "the position stays")
		vs.Assert(sameStakes(before, w.stakes()), "nobody's stake changes")
		vs.Assert(SameBank(bank, w.Bank), "no coins move")
		vs.Reach("undecided")
	case verdictInvalid:
		vs.Assert(got.StorageId == "" && got.BundleSize == 0, "an invalid bundle is dropped")
		w.samePool(np, pool, "the position stays")
		vs.Reach("invalid")
	case verdictValid:
		vs.Assert(got.StorageId == "" && got.BundleSize == 0, "a valid bundle is archived")
		vs.Assert(np.TotalBundles == pool.TotalBundles+1 && np.CurrentIndex == index+size, "a valid bundle is archived")
		vs.Reach("valid")
	}
}
