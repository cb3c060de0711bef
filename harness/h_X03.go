//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"errors"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	querytypes "github.com/KYVENetwork/chain/x/query/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X03: the eligibility queries answer what the transactions then do.

// x03world has three validators with stake in pool 0 and a pool 0 of any kind; the worker accounts differ per pool.
func x03world() *World {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	kind := vs.Choose("kind", nKinds)
	w.makeKind(0, kind)
	return w
}

// x03caller is any combination of pool, validator and sender.
func x03caller() (pool uint64, staker, sender string) {
	pool = []uint64{0, 1, 2}[vs.Choose("pool", 3)]
	staker = []string{STAKER1, STAKER0, STAKER3, ""}[vs.Choose("staker", 4)]
	sender = []string{VAL1A, VAL0B, VAL3B, STAKER1, ""}[vs.Choose("sender", 5)]
	return
}

// askPropose compares the query with what happens to an otherwise acceptable submission.
func (w *World) askPropose(pool uint64, staker, sender string, from uint64) {
	before := w.Dump(true)
	r, e := w.Query.CanPropose(w.Ctx, &querytypes.QueryCanProposeRequest{PoolId: pool, Staker: staker, Proposer: sender, FromIndex: from})
	vs.Assert(e == nil && r != nil, "the query answers")
	vs.Assert(SameDump(before, w.Dump(true)), "a query changes nothing")
	vs.Assert(r.Possible == (r.Reason == ""), "a refusal names its reason")
	m := bundlestypes.MsgSubmitBundleProposal{Creator: sender, Staker: staker, PoolId: pool, StorageId: "next-id", DataSize: 7, FromIndex: from, BundleSize: 3, FromKey: "10", ToKey: "12", BundleSummary: "sum2", DataHash: "hash2"}
	undecided := false
	if p := w.proposal(pool); p.StorageId != "" {
		undecided = w.tally(pool, p).verdict() == verdictNone
	}
	e = w.submit(m)
	if undecided {
		// everybody eligible has to wait for the votes
		vs.Assert(errors.Is(e, bundlestypes.ErrQuorumNotReached) == r.Possible, "only the missing votes stop a submission if the query says yes")
		vs.Assert(e != nil, "nothing can be proposed while the open bundle is undecided")
		return
	}
	vs.Assert((e == nil) == r.Possible, "a bundle can be proposed exactly if the query says so")
	if r.Possible {
		vs.Reach("possible")
	} else {
		vs.Reach("refused")
	}
}

// H_X03_propose_who: any caller, pool and designated uploader.
func H_X03_propose_who() {
	w := x03world()
	pool, staker, sender := x03caller()
	w.setPool(0, func(p *pooltypes.Pool) { p.CurrentIndex, p.UploadInterval = 20, 60 })
	designated := []string{STAKER1, STAKER0, ""}[vs.Choose("designated", 3)]
	p := openBundle(STAKER0, designated, uint64(w.Time()-100))
	castVote(&p, STAKER1, voteValid)
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.askPropose(pool, staker, sender, 30)
}

// H_X03_propose_when: any position, times and votes.
func H_X03_propose_when() {
	w := bundlesWorld(3)
	w.mustDelegate(STAKER0, STAKER0, vs.U64("s0", 1, turnCap))
	w.mustDelegate(STAKER1, STAKER1, vs.U64("s1", 1, turnCap))
	w.mustDelegate(STAKER2, STAKER2, vs.U64("s2", 1, turnCap))
	now, updated, index, interval := vs.I64("now", 1, half), vs.U64("updated", 0, half), vs.U64("index", 0, half), vs.U64("interval", 0, half)
	w.setPool(0, func(p *pooltypes.Pool) { p.CurrentIndex, p.UploadInterval = index, interval })
	if vs.Choose("open", 2) == 1 {
		p := openBundle(STAKER0, STAKER1, updated)
		castVote(&p, STAKER1, vs.Choose("vote", 4))
		castVote(&p, STAKER2, vs.Choose("vote2", 3))
		w.Bundles.SetBundleProposal(w.Ctx, p)
	} else {
		w.Bundles.SetBundleProposal(w.Ctx, bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: updated})
	}
	w.At(1000, now)
	w.askPropose(0, STAKER1, VAL1A, vs.U64("from", 0, u64max))
}

// H_X03_vote_who: any caller, pool and storage id.
func H_X03_vote_who() {
	w := x03world()
	pool, staker, sender := x03caller()
	w.Bundles.SetBundleProposal(w.Ctx, openBundle(STAKER0, STAKER2, uint64(w.Time())))
	w.askVote(pool, staker, sender, []string{sid, "other"}[vs.Choose("id", 2)], bundlestypes.VOTE_TYPE_VALID)
}

// H_X03_vote_what: any votes so far and any vote.
func H_X03_vote_what() {
	w := x03world()
	p := openBundle(STAKER0, STAKER2, uint64(w.Time()))
	if vs.Choose("open", 2) == 0 {
		p = bundlestypes.BundleProposal{NextUploader: STAKER1, UpdatedAt: p.UpdatedAt}
	}
	castVote(&p, STAKER1, vs.Choose("voted", 4))
	castVote(&p, STAKER2, vs.Choose("other", 4))
	w.Bundles.SetBundleProposal(w.Ctx, p)
	v := []bundlestypes.VoteType{bundlestypes.VOTE_TYPE_VALID, bundlestypes.VOTE_TYPE_INVALID, bundlestypes.VOTE_TYPE_ABSTAIN}[vs.Choose("vote", 3)]
	w.askVote(0, STAKER1, VAL1A, []string{sid, ""}[vs.Choose("id", 2)], v)
}

func (w *World) askVote(pool uint64, staker, sender, id string, v bundlestypes.VoteType) {
	before := w.Dump(true)
	r, e := w.Query.CanVote(w.Ctx, &querytypes.QueryCanVoteRequest{PoolId: pool, Staker: staker, Voter: sender, StorageId: id})
	vs.Assert(e == nil && r != nil, "the query answers")
	vs.Assert(SameDump(before, w.Dump(true)), "a query changes nothing")
	done := w.vote(bundlestypes.MsgVoteBundleProposal{Creator: sender, Staker: staker, PoolId: pool, StorageId: id, Vote: v}) == nil
	abstained := "KYVE_VOTE_NO_ABSTAIN_ALLOWED"
	want := r.Possible
	if v == bundlestypes.VOTE_TYPE_ABSTAIN {
		want = r.Possible && r.Reason != abstained
	}
	vs.Assert(done == want, "a vote can be cast exactly if the query says so")
	vs.Assert(r.Possible == (r.Reason == "" || r.Reason == abstained), "a refusal names its reason")
	if done {
		vs.Reach("voted")
	}
}

func H_X03_validate() {
	w := x03world()
	if vs.Choose("gone", 2) == 1 {
		w.Stakers.LeavePool(w.Ctx, STAKER1, 0)
	}
	pool := []uint64{0, 1, 2}[vs.Choose("pool", 3)]
	val := []string{VAL1A, VAL0A, VAL0B, VAL3B, STAKER0, ""}[vs.Choose("val", 6)]
	before := w.Dump(true)
	r, e := w.Query.CanValidate(w.Ctx, &querytypes.QueryCanValidateRequest{PoolId: pool, Valaddress: val})
	vs.Assert(e == nil && r != nil, "the query answers")
	vs.Assert(SameDump(before, w.Dump(true)), "a query changes nothing")
	by := ""
	for _, s := range STAKERS {
		if pool < 2 && w.Stakers.AssertValaccountAuthorized(w.Ctx, pool, s, val) == nil {
			by = s
		}
	}
	vs.Assert(r.Possible == (by != ""), "an account can validate exactly if the query says so")
	if r.Possible {
		vs.Assert(r.Reason == by, "the query names the validator the account works for")
		vs.Reach("possible")
	} else {
		vs.Assert(r.Reason != "", "a refusal names its reason")
	}
}
