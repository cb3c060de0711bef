//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"github.com/cosmos/cosmos-sdk/types/query"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func archived(pool, id, from, to uint64, key string) bundlestypes.FinalizedBundle {
	return bundlestypes.FinalizedBundle{PoolId: pool, Id: id, StorageId: "id-" + key, Uploader: STAKER2, FromIndex: from, ToIndex: to, FromKey: key, ToKey: key,
		BundleSummary: "s" + key, DataHash: "h" + key, FinalizedAt: &bundlestypes.FinalizedAt{Height: 9, Timestamp: 8}, StakeSecurity: &bundlestypes.StakeSecurity{ValidVotePower: 2, TotalVotePower: 3}}
}

// H_B04_finalize: an open bundle of any size at any position of an archive of any length ends in any way.
func H_B04_finalize() {
	w := bundlesWorld(3)
	w.setBundlesParams(600, 5, "0.01", "0.00000002")
	s := [3]uint64{}
	for i := range s {
		s[i] = []uint64{1000, 999, 1001}[i]
		w.mustDelegate(STAKERS[i], STAKERS[i], s[i])
	}
	way := vs.Choose("way", nWays)
	total, index, size := vs.U64("archived bundles", 1, half), vs.U64("position", 7, half), vs.U64("size", 1, 1<<40)
	if vs.Choose("first bundle", 2) == 1 {
		total = 0
	}
	now, height := vs.I64("now", 2000, half), vs.I64("height", 1, half)
	w.setPool(0, func(p *pooltypes.Pool) {
		p.CurrentIndex, p.TotalBundles, p.CurrentKey, p.CurrentSummary, p.UploadInterval = index, total, "k", "s", 60
		p.CurrentStorageProviderId, p.CurrentCompressionId = 4, 5 // since changed
	})
	old := archived(0, total-1, index-7, index, "k")
	if total > 0 {
		w.Bundles.SetFinalizedBundle(w.Ctx, old)
	}
	other := archived(1, total, index, index+3, "other")
	w.Bundles.SetFinalizedBundle(w.Ctx, other)
	p := openBundle(STAKER0, STAKER1, 1000)
	p.BundleSize = size
	p.DataSize = vs.U64("bytes", 0, half)
	p.StorageProviderId, p.CompressionId = uint32(vs.U64("storage", 0, 1<<32-1)), uint32(vs.U64("compression", 0, 1<<32-1))
	castVote(&p, STAKER1, vs.Choose("vote1", 4))
	castVote(&p, STAKER2, vs.Choose("vote2", 4))
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.At(height, now)
	t, pool, pool1 := w.tally(0, p), w.pool(0), w.pool(1)
	verdict := t.verdict()
	e := w.endRound(way)
	vs.Assert((e != nil) == (way == bySubmit && verdict == verdictNone), "the round ends once the bundle is decided")
	arch := w.archive(0)
	n := 0
	if total > 0 {
		n = 1
		vs.Assert(len(arch) > 0 && vs.SameMsg(&arch[0], &old), "archived bundles never change")
	}
	x := vs.U64("index looked up", 0, u64max)
	inside := vs.And(x >= index, x < index+size)
	q, ok := w.Bundles.GetFinalizedBundleByIndex(w.Ctx, 0, x)
	if verdict == verdictValid {
		vs.Assert(len(arch) == n+1, "a valid bundle is archived")
		want := bundlestypes.FinalizedBundle{PoolId: 0, Id: total, StorageId: p.StorageId, Uploader: p.Uploader, FromIndex: index, ToIndex: index + size, FromKey: p.FromKey, ToKey: p.ToKey,
			BundleSummary: p.BundleSummary, DataHash: p.DataHash, StorageProviderId: p.StorageProviderId, CompressionId: p.CompressionId,
			FinalizedAt:   &bundlestypes.FinalizedAt{Height: uint64(height), Timestamp: uint64(now)},
			StakeSecurity: &bundlestypes.StakeSecurity{ValidVotePower: t.valid.Uint64(), TotalVotePower: t.total.Uint64()}}
		vs.Assert(vs.SameMsg(&arch[n], &want), "the archived bundle has the next id and position and the content of the open bundle")
		g, has := w.Bundles.GetFinalizedBundle(w.Ctx, 0, total)
		vs.Assert(has && vs.SameMsg(&g, &want), "the bundle is found by its id")
		pool.CurrentIndex, pool.TotalBundles, pool.CurrentKey, pool.CurrentSummary = index+size, total+1, p.ToKey, p.BundleSummary
		if vs.Fork(inside) {
			vs.Assert(ok && found(q, want), "every index of the bundle finds the bundle")
			vs.Reach("found")
		} else if total > 0 && vs.Fork(vs.And(x >= index-7, x < index)) {
			vs.Assert(ok && found(q, old), "every index of an earlier bundle finds that bundle")
		} else {
			vs.Assert(!ok, "an index outside the archive finds nothing")
		}
		vs.Reach("archived")
	} else {
		vs.Assert(len(arch) == n, "only valid bundles are archived")
		vs.Assert(vs.Or(!ok, vs.And(total > 0, x >= index-7, x < index)), "an index outside the archive finds nothing")
		vs.Reach("not archived")
	}
	w.samePool(w.pool(0), pool, "the pool advances exactly to the end of the archived bundle")
	w.samePool(w.pool(1), pool1, "other pools stay")
	a1 := w.archive(1)
	vs.Assert(len(a1) == 1 && vs.SameMsg(&a1[0], &other), "archives of other pools never change")
}

// H_B04_history: rounds follow each other, each bundle judged either way and ended in any way.
func H_B04_history() {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	index := vs.U64("position", 0, half)
	w.setPool(0, func(p *pooltypes.Pool) { p.CurrentIndex = index; p.MaxBundleSize = 1 << 40; p.UploadInterval = 60 })
	w.At(1000, 1_700_000_000)
	w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: 1_600_000_000})
	rounds := 5
	if vs.Thorough() {
		rounds = 7
	}
	var want []bundlestypes.BundleProposal // archived contents
	for r := 0; r < rounds; r++ {
		open, now := w.proposal(0), 1_700_000_000+10_000*int64(r)
		w.At(1000+int64(r), now)
		way, valid := bySubmit, false
		if open.StorageId != "" {
			way = vs.Choose("way", nWays)
			v := 1 + vs.Choose("vote", 2)
			valid = v == voteValid
			for i := 0; i < 3; i++ {
				if s := STAKERS[i]; s != open.Uploader {
					castVote(&open, s, v)
				}
			}
			w.Bundles.SetBundleProposal(w.Ctx, open)
		}
		next := open.NextUploader
		vs.Assert(w.member(next, 0), "the next uploader is a member")
		switch way {
		case bySubmit:
			m := w.plainSubmit(next)
			m.BundleSize = vs.U64("size", 1, 1<<40)
			m.StorageId, m.FromKey, m.ToKey = nm("storage-%d", r), nm("from-%d", r), nm("to-%d", r)
			vs.Assert(w.submit(m) == nil, "the designated uploader can submit")
		case bySkip:
			vs.Assert(w.skip(w.plainSkip(next)) == nil, "the designated uploader can skip")
		default:
			w.endBundles()
		}
		if valid {
			want = append(want, open)
		}
		arch, pos := w.archive(0), index
		vs.Assert(len(arch) == len(want) && w.pool(0).TotalBundles == uint64(len(want)), "exactly the valid bundles are archived")
		for i, b := range arch {
			vs.Assert(b.Id == uint64(i), "ids are sequential")
			vs.Assert(b.FromIndex == pos && b.ToIndex == pos+want[i].BundleSize, "bundles follow each other without gap")
			vs.Assert(b.StorageId == want[i].StorageId && b.FromKey == want[i].FromKey && b.ToKey == want[i].ToKey && b.Uploader == want[i].Uploader, "the archive holds what was judged")
			pos += want[i].BundleSize
		}
		vs.Assert(w.pool(0).CurrentIndex == pos, "the pool stands where the archive ends")
		if len(arch) == 2 {
			vs.Reach("two bundles")
		}
	}
}

// H_B04_lookup: any index in an archive of three bundles of any sizes, also after a restart of the node.
func H_B04_lookup() {
	w := bundlesWorld(1)
	pos := vs.U64("start", 0, half)
	other := archived(1, 0, 0, u64max, "other")
	w.Bundles.SetFinalizedBundle(w.Ctx, other)
	var bs []bundlestypes.FinalizedBundle
	n := 3
	if vs.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		b := archived(0, uint64(i), pos, pos+vs.U64("size", 1, 1<<40), nm("%d", i))
		pos = b.ToIndex
		bs = append(bs, b)
		w.Bundles.SetFinalizedBundle(w.Ctx, b)
	}
	if vs.Choose("restart", 2) == 1 {
		w.Clear(5, true)
		w.Bundles.InitMemStore(w.Ctx)
	}
	x := vs.U64("index looked up", 0, u64max)
	q, ok := w.Bundles.GetFinalizedBundleByIndex(w.Ctx, 0, x)
	for _, b := range bs {
		if vs.Fork(vs.And(b.FromIndex <= x, x < b.ToIndex)) {
			vs.Assert(ok && found(q, b), "an archived index finds the one bundle which contains it")
			vs.Reach("found")
			return
		}
	}
	vs.Assert(!ok, "an index outside the archive finds nothing")
	vs.Reach("nothing")
}

// H_B04_pages: paging through an archive of four bundles lists every bundle once and in order.
func H_B04_pages() {
	w := bundlesWorld(1)
	n := vs.Choose("archived", 4)
	for i := 0; i < n; i++ {
		w.Bundles.SetFinalizedBundle(w.Ctx, archived(0, uint64(i), 10*uint64(i), 10*uint64(i)+10, nm("%d", i)))
	}
	for i := 0; i < 3; i++ {
		w.Bundles.SetFinalizedBundle(w.Ctx, archived(1, uint64(i), 7*uint64(i), 7*uint64(i)+7, nm("other%d", i)))
	}
	reverse := vs.Choose("reverse", 2) == 1
	offset, limit := vs.U64("offset", 0, u64max), vs.U64("limit", 1, u64max)
	var want []uint64
	for i := 0; i < n; i++ {
		if vs.Fork(uint64(i) >= offset) {
			if reverse {
				want = append(want, uint64(n-1-i))
			} else {
				want = append(want, uint64(i))
			}
		}
	}
	rq := &query.PageRequest{Offset: offset, Limit: limit, Reverse: reverse, CountTotal: true}
	for page := 0; page < 5; page++ {
		got, rs, e := w.Bundles.GetPaginatedFinalizedBundleQuery(w.Ctx, rq, 0)
		vs.Assert(e == nil, "a page of the archive can be queried")
		vs.Assert(rs.Total == uint64(n), "the total is the number of archived bundles")
		vs.Assert(uint64(len(got)) <= limit && len(got) <= len(want), "a page has no more bundles than asked for")
		for i, b := range got {
			vs.Assert(b.PoolId == 0 && b.Id == want[i], "the pages list the bundles in order")
		}
		want = want[len(got):]
		if rs.NextKey == nil {
			vs.Assert(len(want) == 0, "the pages list all bundles")
			vs.Reach("listed")
			return
		}
		rq = &query.PageRequest{Key: rs.NextKey, Limit: limit, Reverse: reverse, CountTotal: true}
	}
	vs.Assert(false, "the pages end")
}
