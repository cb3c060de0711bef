package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundleskeeper "github.com/KYVENetwork/chain/x/bundles/keeper"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	querytypes "github.com/KYVENetwork/chain/x/query/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	bundlesmod "github.com/KYVENetwork/chain/x/bundles"
	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func bmsg(w *World) bundlestypes.MsgServer { return bundleskeeper.NewMsgServerImpl(w.Bundles) }

const sid = "storage-id"

func (w *World) setBundlesParams(timeout, maxPoints uint64, fee, cost string) {
	w.Bundles.SetParams(w.Ctx, bundlestypes.Params{UploadTimeout: timeout, MaxPoints: maxPoints, NetworkFee: dec(fee),
		StorageCosts: []bundlestypes.StorageCost{{StorageProviderId: 1, Cost: dec(cost)}}})
}

// bundlesWorld has n validators in pool 0 (STAKER0..) and STAKER3 and STAKER0 in pool 1; both pools can run
// as soon as somebody has stake. Nobody has stake yet.
func bundlesWorld(n int) *World {
	w := NewWorld()
	w.Funders.SetParams(w.Ctx, plainWhitelist())
	w.setPoolParams("0.04", "0.05", "1")
	w.setBundlesParams(600, 5, "0.01", "0.00000002")
	w.setSlash("0.1", "0.2", "0.02")
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(1000, 1000))
	for i := 0; i < 2; i++ {
		id := w.Pool.AppendPool(w.Ctx, basePool(dec("1")))
		w.Funders.CreateFundingState(w.Ctx, id)
	}
	for i := 0; i < n; i++ {
		w.addStaker(i)
		w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKERS[i], VALSA[i])
	}
	if n < 4 {
		w.addStaker(3)
	}
	w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER3, VAL3B)
	w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER0, VAL0B)
	return w
}

// selfStake gives a validator stake (possibly none).
func (w *World) selfStake(i int, amount uint64) {
	if vs.Fork(amount > 0) {
		w.mustDelegate(STAKERS[i], STAKERS[i], amount)
	}
}

func (w *World) proposal(pool uint64) bundlestypes.BundleProposal {
	p, _ := w.Bundles.GetBundleProposal(w.Ctx, pool)
	return p
}

// openBundle is an open bundle of pool 0 by the given uploader; the uploader has voted valid.
func openBundle(uploader, next string, updated uint64) bundlestypes.BundleProposal {
	return bundlestypes.BundleProposal{PoolId: 0, StorageId: sid, Uploader: uploader, NextUploader: next, DataSize: 100, BundleSize: 10,
		FromKey: "0", ToKey: "9", BundleSummary: "sum", DataHash: "hash", UpdatedAt: updated, VotersValid: []string{uploader}, StorageProviderId: 1, CompressionId: 2}
}

const (
	noVote = iota
	voteValid
	voteInvalid
	voteAbstain
)

func castVote(p *bundlestypes.BundleProposal, staker string, v int) {
	switch v {
	case voteValid:
		p.VotersValid = append(p.VotersValid, staker)
	case voteInvalid:
		p.VotersInvalid = append(p.VotersInvalid, staker)
	case voteAbstain:
		p.VotersAbstain = append(p.VotersAbstain, staker)
	}
}

func voteOf(p bundlestypes.BundleProposal, staker string) int {
	switch {
	case has(p.VotersValid, staker):
		return voteValid
	case has(p.VotersInvalid, staker):
		return voteInvalid
	case has(p.VotersAbstain, staker):
		return voteAbstain
	}
	return noVote
}

func has(l []string, s string) bool { return count(l, s) > 0 }

func count(l []string, s string) (n int) {
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return
}

func (w *World) submit(m bundlestypes.MsgSubmitBundleProposal) error {
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := bmsg(w).SubmitBundleProposal(ctx, &m)
		return e
	})
}

func (w *World) vote(m bundlestypes.MsgVoteBundleProposal) error {
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := bmsg(w).VoteBundleProposal(ctx, &m)
		return e
	})
}

func (w *World) skip(m bundlestypes.MsgSkipUploaderRole) error {
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := bmsg(w).SkipUploaderRole(ctx, &m)
		return e
	})
}

func (w *World) claim(m bundlestypes.MsgClaimUploaderRole) error {
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := bmsg(w).ClaimUploaderRole(ctx, &m)
		return e
	})
}

// plainSubmit is an acceptable submission of the given uploader for pool 0.
func (w *World) plainSubmit(uploader string) bundlestypes.MsgSubmitBundleProposal {
	p := w.proposal(0)
	return bundlestypes.MsgSubmitBundleProposal{Creator: w.valaddr(0, uploader), Staker: uploader, PoolId: 0, StorageId: "next-id", DataSize: 7,
		FromIndex: w.pool(0).CurrentIndex + p.BundleSize, BundleSize: 3, FromKey: "10", ToKey: "12", BundleSummary: "sum2", DataHash: "hash2"}
}

func (w *World) plainSkip(uploader string) bundlestypes.MsgSkipUploaderRole {
	return bundlestypes.MsgSkipUploaderRole{Creator: w.valaddr(0, uploader), Staker: uploader, PoolId: 0, FromIndex: w.pool(0).CurrentIndex + w.proposal(0).BundleSize}
}

func (w *World) valaddr(pool uint64, staker string) string {
	v, _ := w.Stakers.GetValaccount(w.Ctx, pool, staker)
	return v.Valaddress
}

func (w *World) points(pool uint64, staker string) uint64 {
	v, ok := w.Stakers.GetValaccount(w.Ctx, pool, staker)
	vs.Assert(ok, "membership exists")
	return v.Points
}

func (w *World) setPoints(pool uint64, staker string, n uint64) {
	v, _ := w.Stakers.GetValaccount(w.Ctx, pool, staker)
	v.Points = n
	w.Stakers.SetValaccount(w.Ctx, v)
}

func (w *World) bundlesModule() bundlesmod.AppModule {
	return bundlesmod.NewAppModule(nil, w.Bundles, nil, w.Bank, nil, w.Mint, w.Upg, w.Pool, w.Team)
}

func (w *World) endBundles() { must(w.bundlesModule().EndBlock(w.Ctx)) }

// fund puts a funding of the given coins into a pool.
func (w *World) fund(addr string, pool uint64, amounts, per sdk.Coins) {
	w.addFunding(fundingOf(addr, pool, amounts, per))
}

func coin(d string, n int64) sdk.Coin { return sdk.Coin{Denom: d, Amount: math.NewInt(n)} }

// voters of a proposal with their verdict-relevant stakes, from the records
type tally struct{ valid, invalid, abstain, total *big.Int }

func (w *World) tally(pool uint64, p bundlestypes.BundleProposal) (t tally) {
	t = tally{bi(0), bi(0), bi(0), bi(0)}
	for _, s := range STAKERS {
		if !w.member(s, pool) {
			continue
		}
		x := w.total(s)
		t.total = add(t.total, x)
		switch voteOf(p, s) {
		case voteValid:
			t.valid = add(t.valid, x)
		case voteInvalid:
			t.invalid = add(t.invalid, x)
		case voteAbstain:
			t.abstain = add(t.abstain, x)
		}
	}
	return
}

const (
	verdictNone = iota
	verdictValid
	verdictInvalid
)

func (t tally) isValid() bool { return lt(t.total, add(t.valid, t.valid)) }
func (t tally) isInvalid() bool {
	return vs.And(lt(bi(0), t.total), le(t.total, add(t.invalid, t.invalid)))
}

// verdict forks over the outcome.
func (t tally) verdict() int {
	switch {
	case vs.Fork(t.isValid()):
		return verdictValid
	case vs.Fork(t.isInvalid()):
		return verdictInvalid
	}
	return verdictNone
}

// sameAddrs compares lists of addresses.
func sameAddrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *World) archive(pool uint64) []bundlestypes.FinalizedBundle {
	return w.Bundles.GetFinalizedBundlesByPool(w.Ctx, pool)
}

func (w *World) setPool(id uint64, f func(p *pooltypes.Pool)) {
	p := w.pool(id)
	f(&p)
	w.Pool.SetPool(w.Ctx, p)
}

// makeKind turns pool 0 or 1 into a pool of the given kind; belowMin pools need more stake than there is.
func (w *World) makeKind(id uint64, kind int) {
	w.setPool(id, func(p *pooltypes.Pool) {
		switch kind {
		case disabled:
			p.Disabled = true
		case belowMin:
			p.MinDelegation = 1 << 63
		case upgrading:
			p.UpgradePlan = &pooltypes.UpgradePlan{Version: "2", Binaries: "{}", ScheduledAt: 1_600_000_000, Duration: 1_000_000_000}
		case ended:
			p.CurrentKey, p.EndKey = "9", "9"
		}
	})
}

// lists with one validator removed, order kept
func without(l []string, s string) []string {
	var out []string
	for _, x := range l {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

const half = 1 << 62 // positions and times stay below this; beyond, the chain's own sums would wrap around

// stakes of all validators
func (w *World) stakes() (out []*big.Int) {
	for _, s := range STAKERS {
		out = append(out, w.total(s))
	}
	return
}

func sameStakes(a, b []*big.Int) bool {
	r := true
	for i := range a {
		r = vs.And(r, eq(a[i], b[i]))
	}
	return r
}

// ways a round of the open bundle ends
const (
	bySubmit = iota
	bySkip
	byTimeout
	nWays
)

// endRound lets the round of pool 0's open bundle end; STAKER1 is the designated uploader.
func (w *World) endRound(way int) error {
	switch way {
	case bySubmit:
		return w.submit(w.plainSubmit(STAKER1))
	case bySkip:
		return w.skip(w.plainSkip(STAKER1))
	}
	w.endBundles()
	return nil
}

// lost is true if x is what remains of before after one slash with the given rate (in parts of a hundred); every
// delegator may lose one token more to rounding, and the slash itself is rounded down.
func lost(before, after *big.Int, rate, delegators uint64) bool {
	keep := mul(before, bi(100-rate))
	d := sub(keep, mul(after, bi(100)))
	return vs.And(le(sub(bi(0), d), bi(100)), le(d, bi(100*(delegators+1))))
}

// pointsOf returns false for validators which are not in the pool.
func (w *World) pointsOf(pool uint64, s string) (uint64, bool) {
	v, ok := w.Stakers.GetValaccount(w.Ctx, pool, s)
	return v.Points, ok
}

const turnCap = 100_000_000_000_000_000 // stake per validator, a hundred times the token supply

func (w *World) progress(pool uint64) (map[string]*big.Int, int) {
	p, _ := w.Bundles.GetRoundRobinProgress(w.Ctx, pool)
	out := map[string]*big.Int{}
	for _, e := range p.ProgressList {
		out[e.Address] = vs.I64Big(e.Progress)
	}
	return out, len(p.ProgressList)
}

func (w *World) setProgress(pool uint64, who []string, v []int64) {
	p := bundlestypes.RoundRobinProgress{PoolId: pool}
	for i := range who {
		p.ProgressList = append(p.ProgressList, &bundlestypes.RoundRobinSingleValidatorProgress{Address: who[i], Progress: v[i]})
	}
	w.Bundles.SetRoundRobinProgress(w.Ctx, p)
}

// found is true if the query's answer is the archived bundle.
func found(q querytypes.FinalizedBundle, b bundlestypes.FinalizedBundle) bool {
	return vs.And(q.PoolId == b.PoolId, q.Id == b.Id, q.FromIndex == b.FromIndex, q.ToIndex == b.ToIndex,
		q.StorageId == b.StorageId, q.FromKey == b.FromKey, q.ToKey == b.ToKey, q.BundleSummary == b.BundleSummary, q.DataHash == b.DataHash, q.Uploader == b.Uploader)
}
