//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// registered compares the open bundle with the accepted submission.
func (w *World) registered(m bundlestypes.MsgSubmitBundleProposal, now uint64) {
	p, pool := w.proposal(m.PoolId), w.pool(m.PoolId)
	want := bundlestypes.BundleProposal{PoolId: m.PoolId, StorageId: m.StorageId, Uploader: m.Staker, NextUploader: p.NextUploader, DataSize: m.DataSize, DataHash: m.DataHash, BundleSize: m.BundleSize,
		FromKey: m.FromKey, ToKey: m.ToKey, BundleSummary: m.BundleSummary, UpdatedAt: now, VotersValid: []string{m.Staker}, StorageProviderId: pool.CurrentStorageProviderId, CompressionId: pool.CurrentCompressionId}
	vs.Assert(vs.SameMsg(&p, &want), "the open bundle is exactly what was submitted, with the submitter as only voter")
	vs.Assert(w.member(p.NextUploader, m.PoolId), "the next uploader is a member of the pool")
	vs.Assert(vs.Fork(!eq(w.total(p.NextUploader), bi(0))), "the next uploader has stake")
	vs.Assert(pool.CurrentIndex <= m.FromIndex && pool.CurrentIndex == m.FromIndex, "the bundle starts where the archive ends")
}

func b03world() *World {
	w := bundlesWorld(3)
	w.setBundlesParams(600, 5, "0.01", "0.00000002")
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	return w
}

// b03msg has every number arbitrary and at most one text empty.
func b03msg(w *World) (m bundlestypes.MsgSubmitBundleProposal, texts bool) {
	empty := vs.Choose("empty text", 6)
	t := func(i int, s string) string {
		if i == empty {
			return ""
		}
		return s
	}
	m = bundlestypes.MsgSubmitBundleProposal{Creator: VALSA[1], Staker: STAKER1, PoolId: 0, StorageId: t(1, "next-id"), DataSize: vs.U64("size in bytes", 0, u64max),
		FromIndex: vs.U64("from", 0, u64max), BundleSize: vs.U64("size", 0, u64max), FromKey: t(2, "10"), ToKey: t(3, "12"), BundleSummary: t(4, "sum2"), DataHash: t(5, "hash2")}
	return m, empty == 0 || empty > 3
}

// b03position gives pool 0 an arbitrary position, limits and interval.
func (w *World) b03position() (index, max, interval uint64) {
	index, max, interval = vs.U64("index", 0, half), vs.U64("max size", 1, u64max), vs.U64("interval", 1, half)
	w.setPool(0, func(p *pooltypes.Pool) {
		p.CurrentIndex, p.MaxBundleSize, p.UploadInterval = index, max, interval
		p.TotalBundles, p.CurrentStorageProviderId, p.CurrentCompressionId = 17, uint32(vs.U64("storage", 0, 1<<32-1)), uint32(vs.U64("compression", 0, 1<<32-1))
		p.CurrentKey = "9"
	})
	return
}

// H_B03_first: no bundle is open; any numbers and times.
func H_B03_first() {
	w := b03world()
	index, max, interval := w.b03position()
	updated := vs.U64("updated", 0, half)
	now := vs.I64("now", 1, half)
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: updated})
	w.setPoints(0, STAKER1, vs.U64("points", 0, 4))
	m, ok := b03msg(w)
	ok = ok && vs.Fork(vs.And(uint64(now) >= updated+interval, m.FromIndex == index, m.BundleSize >= 1, m.BundleSize <= max))
	w.At(1000, now)
	pool := w.pool(0)
	store, bank, before := w.Dump(true), w.Bank.snap(), w.members(2)
	e := w.submit(m)
	vs.Assert((e == nil) == ok, "a submission is accepted exactly if it is in time and fits the pool's position and limits")
	vs.Assert(SameBank(bank, w.Bank), "no coins move")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "a rejected submission changes nothing")
		vs.Reach("rejected")
		return
	}
	w.registered(m, uint64(now))
	w.samePool(w.pool(0), pool, "the pool's position stays")
	vs.Assert(w.points(0, STAKER1) == 0, "submitting clears the inactivity points")
	w.sameMembers(before, 2, "no other membership changes", nm("%s|0", STAKER1))
	vs.Reach("accepted")
}

// H_B03_who: any sender, validator, pool, designated uploader and kind of pool.
func H_B03_who() {
	w := b03world()
	kind := vs.Choose("kind", nKinds)
	w.makeKind(0, kind)
	designated := []string{STAKER1, STAKER0, "", STAKER2}[vs.Choose("designated", 4)]
	if vs.Choose("open", 2) == 1 {
		p := openBundle(STAKER0, designated, 1_600_000_000)
		castVote(&p, STAKER1, voteValid)
		castVote(&p, STAKER2, voteAbstain)
		w.Bundles.SetBundleProposal(w.Ctx, p)
	} else {
		w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: designated, UpdatedAt: 1_600_000_000})
	}
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{PoolId: 1, NextUploader: STAKER3, UpdatedAt: 1_600_000_000})
	w.mustDelegate(STAKER3, STAKER3, 1000)
	m := w.plainSubmit(STAKER1)
	m.Creator = VALSA[1]
	m.PoolId = uint64(vs.Choose("pool", 3))
	if kind == runs {
		m.Staker = []string{STAKER1, STAKER0, STAKER3, ALICE}[vs.Choose("staker", 4)]
		m.Creator = []string{VALSA[1], VALSA[0], VAL3B, VAL0B, STAKER1}[vs.Choose("sender", 5)]
	}
	if m.PoolId == 1 {
		m.FromIndex = 0
	}
	ok := m.PoolId == 0 && kind == runs && m.Staker == designated && (m.Staker == STAKER1 && m.Creator == VALSA[1] || m.Staker == STAKER0 && m.Creator == VALSA[0]) ||
		m.PoolId == 1 && m.Staker == STAKER3 && m.Creator == VAL3B
	store, bank := w.Dump(true), w.Bank.snap()
	e := w.submit(m)
	vs.Assert((e == nil) == ok, "only the designated uploader's account of a pool which can run may submit")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "a rejected submission changes nothing")
		vs.Assert(SameBank(bank, w.Bank), "a rejected submission moves no coins")
		return
	}
	w.registered(m, uint64(w.Ctx.BlockTime().Unix()))
	vs.Reach("accepted")
}

// H_B03_next: a bundle of the submitter or of somebody else is open; any position, sizes, votes; the submission takes over only if the open bundle is valid.
func H_B03_next() {
	w := b03world()
	index, max, interval := w.b03position()
	updated, size := vs.U64("updated", 0, half), vs.U64("open size", 1, 1<<40)
	now := vs.I64("now", 1, half)
	up, other := STAKER0, STAKER1
	if vs.Choose("own bundle", 2) == 1 {
		up, other = STAKER1, STAKER0
	}
	p := openBundle(up, STAKER1, updated)
	p.BundleSize = size
	v1, v2 := vs.Choose("vote1", 4), vs.Choose("vote2", 4)
	castVote(&p, other, v1)
	castVote(&p, STAKER2, v2)
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.setPoints(0, STAKER2, vs.U64("points", 0, 4))
	m, ok := b03msg(w)
	ok = ok && vs.Fork(vs.And(uint64(now) >= updated+interval, m.FromIndex == index+size, m.BundleSize >= 1, m.BundleSize <= max))
	nValid, nInvalid := 1, 0
	for _, v := range []int{v1, v2} {
		if v == voteValid {
			nValid++
		}
		if v == voteInvalid {
			nInvalid++
		}
	}
	// the third validator is removed at the points limit before the votes are counted
	nTotal := 3
	if v2 == noVote && vs.Fork(w.points(0, STAKER2)+1 >= 5) {
		nTotal = 2
	}
	valid, invalid := 2*nValid > nTotal, 2*nInvalid >= nTotal
	w.At(1000, now)
	pool := w.pool(0)
	store, bank := w.Dump(true), w.Bank.snap()
	e := w.submit(m)
	vs.Assert((e == nil) == (ok && (valid || invalid)), "a fitting submission is taken once the open bundle is decided")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(true)), "a rejected submission changes nothing")
		vs.Assert(SameBank(bank, w.Bank), "a rejected submission moves no coins")
		vs.Reach("rejected")
		return
	}
	q, np := w.proposal(0), w.pool(0)
	if !valid {
		vs.Assert(q.StorageId == "" && q.Uploader == "" && q.BundleSize == 0 && len(q.VotersValid) == 0, "after an invalid bundle the submission is not used")
		if up != STAKER1 {
			vs.Assert(q.NextUploader == STAKER1, "after an invalid bundle the same uploader submits again")
		} else {
			vs.Assert(q.NextUploader != STAKER1 && w.member(q.NextUploader, 0), "who uploaded an invalid bundle does not submit again")
		}
		w.samePool(np, pool, "after an invalid bundle the position stays")
		vs.Reach("invalid")
		return
	}
	vs.Assert(np.TotalBundles == pool.TotalBundles+1, "the open bundle is archived")
	w.registered(m, uint64(now))
	vs.Reach("valid")
}
