//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/log"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	govkeeper "github.com/cosmos/cosmos-sdk/x/gov/keeper"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	gogoproto "github.com/cosmos/gogoproto/proto"

	v1_5 "github.com/KYVENetwork/chain/app/upgrades/v1_5"
	oldbundles "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/bundles"
	olddelegation "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/delegation"
	oldfunders "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/funders"
	oldgov "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/gov"
	oldpool "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/pool"
	oldstakers "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/stakers"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X06: the upgrade to v1.5 keeps what everybody owns.

// symMulti lets code which asks the context for a store find the engine's.
type symMulti struct {
	storetypes.MultiStore
}

func (symMulti) GetKVStore(k storetypes.StoreKey) storetypes.KVStore {
	for i, n := range modNames {
		if n == k.Name() {
			return symKV{id: i}
		}
	}
	panic("unknown store")
}

type symKV struct {
	storetypes.KVStore
	id int
}

func (s symKV) Get(key []byte) []byte { return vs.KVGet(s.id, key) }
func (s symKV) Has(key []byte) bool   { return vs.KVHas(s.id, key) }
func (s symKV) Set(key, value []byte) { vs.KVSet(s.id, key, value) }
func (s symKV) Delete(key []byte)     { vs.KVDelete(s.id, key) }
func (s symKV) Iterator(start, end []byte) storetypes.Iterator {
	k, v := vs.KVRange(s.id, start, end, false)
	return &kvIter{start: start, end: end, k: k, v: v}
}
func (s symKV) ReverseIterator(start, end []byte) storetypes.Iterator {
	k, v := vs.KVRange(s.id, start, end, true)
	return &kvIter{start: start, end: end, k: k, v: v}
}

// put writes a record the way the previous version did.
func (w *World) put(mod string, key []byte, m gogoproto.Message) {
	for i, n := range modNames {
		if n == mod {
			bz, e := w.Cdc.Marshal(m)
			must(e)
			must(w.svc[i].OpenKVStore(w.Ctx).Set(key, bz))
		}
	}
}

// get reads the raw record under a key.
func (w *World) get(mod string, key []byte) []byte {
	for i, n := range modNames {
		if n == mod {
			bz, e := w.svc[i].OpenKVStore(w.Ctx).Get(key)
			must(e)
			return bz
		}
	}
	panic("unknown store")
}

func cat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// upgrade runs the handler of the v1.5 upgrade; there are no module migrations and no proposals.
func (w *World) upgrade() {
	cdc := w.Cdc.(codec.Codec)
	gov := -1
	var keys []storetypes.StoreKey
	if vs.Symbolic() {
		w.Ctx = w.Ctx.WithMultiStore(symMulti{}).WithGasMeter(storetypes.NewInfiniteGasMeter()).WithLogger(log.NewNopLogger())
		for _, n := range modNames {
			keys = append(keys, storetypes.NewKVStoreKey(n))
		}
	} else {
		for _, k := range w.keys {
			keys = append(keys, k)
		}
	}
	for i, n := range modNames {
		if n == govtypes.StoreKey {
			gov = i
		}
	}
	gk := &govkeeper.Keeper{Params: collections.NewItem(collections.NewSchemaBuilder(w.svc[gov]), govtypes.ParamsKey, "params", codec.CollValue[govv1.Params](cdc))}
	d := 24 * time.Hour
	must(gk.Params.Set(w.Ctx, govv1.Params{VotingPeriod: &d, Quorum: "0.2", MinDeposit: sdk.NewCoins(sdk.NewInt64Coin(DENOM, 7))}))
	h := v1_5.CreateUpgradeHandler(&module.Manager{}, module.NewConfigurator(cdc, nil, nil), cdc, keys, w.Bundles, w.Delegation, w.Funders, w.Stakers, w.Pool, gk)
	_, e := h(w.Ctx, upgradetypes.Plan{Name: v1_5.UpgradeName}, module.VersionMap{})
	vs.Assert(e == nil, "the upgrade succeeds")
	p, e := gk.Params.Get(w.Ctx)
	vs.Assert(e == nil && *p.VotingPeriod == d && p.Quorum == "0.2" && sdk.Coins(p.MinDeposit).Equal(sdk.NewCoins(sdk.NewInt64Coin(DENOM, 7))), "the rules of the governance stay")
}

// inNative is the condition that c is exactly x of the native coin.
func inNative(c sdk.Coins, x uint64) bool {
	ok := eq(amt(c, DENOM), bi(x))
	for _, y := range c {
		if y.Denom != DENOM {
			return false
		}
	}
	return vs.And(ok, c.IsValid())
}

// H_X06_funders: two fundings with any amounts and any old parameters.
func H_X06_funders() {
	w := NewWorld()
	p := oldfunders.Params{MinFundingAmount: vs.U64("min", 0, i64cap), MinFundingAmountPerBundle: vs.U64("min per bundle", 0, i64cap), MinFundingMultiple: vs.U64("multiple", 0, i64cap)}
	w.put(funderstypes.StoreKey, funderstypes.ParamsKey, &p)
	var old []oldfunders.Funding
	for i, f := range []string{ALICE, BOB, ALICE} {
		x := oldfunders.Funding{FunderAddress: f, PoolId: uint64(i), Amount: vs.U64(nm("amount%d", i), 0, i64cap), AmountPerBundle: vs.U64(nm("per bundle%d", i), 0, i64cap), TotalFunded: vs.U64(nm("total%d", i), 0, i64cap)}
		old = append(old, x)
		w.put(funderstypes.StoreKey, cat(funderstypes.FundingKeyPrefixByFunder, funderstypes.FundingKeyByFunder(x.FunderAddress, x.PoolId)), &x)
		w.put(funderstypes.StoreKey, cat(funderstypes.FundingKeyPrefixByPool, funderstypes.FundingKeyByPool(x.FunderAddress, x.PoolId)), &x)
	}
	st := funderstypes.FundingState{PoolId: 0, ActiveFunderAddresses: []string{ALICE}}
	w.Funders.SetFundingState(w.Ctx, &st)
	fu := funderstypes.Funder{Address: ALICE, Moniker: "a"}
	w.Funders.SetFunder(w.Ctx, &fu)
	w.upgrade()
	all := w.Funders.GetAllFundings(w.Ctx)
	vs.Assert(len(all) == 3, "no funding appears or disappears")
	for _, x := range old {
		f, ok := w.Funders.GetFunding(w.Ctx, x.FunderAddress, x.PoolId)
		vs.Assert(ok && f.FunderAddress == x.FunderAddress && f.PoolId == x.PoolId, "every funding stays")
		vs.Assert(vs.And(inNative(f.Amounts, x.Amount), inNative(f.AmountsPerBundle, x.AmountPerBundle), inNative(f.TotalFunded, x.TotalFunded)), "every funding keeps its amounts")
		n := 0
		for _, g := range w.Funders.GetFundingsOfPool(w.Ctx, x.PoolId) {
			if g.FunderAddress == x.FunderAddress {
				vs.Assert(vs.SameMsg(&g, &f), "both indexes hold the same funding")
				n++
			}
		}
		vs.Assert(n == 1, "every funding is found by its pool")
	}
	q := w.Funders.GetParams(w.Ctx)
	vs.Assert(q.MinFundingMultiple == p.MinFundingMultiple, "the parameters stay")
	native := 0
	for _, c := range q.CoinWhitelist {
		if c.CoinDenom == DENOM {
			native++
			vs.Assert(vs.And(eq(c.MinFundingAmount.BigInt(), bi(p.MinFundingAmount)), eq(c.MinFundingAmountPerBundle.BigInt(), bi(p.MinFundingAmountPerBundle))), "the minimum amounts of the native coin stay")
		}
	}
	vs.Assert(native == 1, "the native coin can be used for funding")
	s2, ok := w.Funders.GetFundingState(w.Ctx, 0)
	vs.Assert(ok && vs.SameMsg(&s2, &st), "the active funders stay")
	f2, ok := w.Funders.GetFunder(w.Ctx, ALICE)
	vs.Assert(ok && vs.SameMsg(&f2, &fu), "funders stay")
	vs.Reach("upgraded")
}

// H_X06_delegation: two validators with any stake, unpaid rewards and periods; the outstanding rewards are the
// ones which the previous version would have paid.
func H_X06_delegation() {
	w := NewWorld()
	var data []olddelegation.DelegationData
	var entries []olddelegation.DelegationEntry
	for i := 0; i < 2; i++ {
		d := olddelegation.DelegationData{Staker: STAKERS[i], CurrentRewards: vs.U64(nm("rewards%d", i), 0, i64cap), TotalDelegation: vs.U64(nm("total%d", i), 0, u64max), LatestIndexK: vs.U64(nm("k%d", i), 0, u64max), DelegatorCount: vs.U64(nm("count%d", i), 0, u64max), LatestIndexWasUndelegation: vs.Bool(nm("was%d", i))}
		data = append(data, d)
		w.put(delegationtypes.StoreKey, cat(delegationtypes.DelegationDataKeyPrefix, delegationtypes.DelegationDataKey(d.Staker)), &d)
		for k := uint64(3); k < 5; k++ {
			x := olddelegation.DelegationEntry{Staker: STAKERS[i], KIndex: k, Value: vs.Dec(nm("value%d_%d", i, int(k)), "0", "1000000000000")}
			entries = append(entries, x)
			w.put(delegationtypes.StoreKey, cat(delegationtypes.DelegationEntriesKeyPrefix, delegationtypes.DelegationEntriesKey(x.Staker, x.KIndex)), &x)
		}
	}
	dg := delegationtypes.Delegator{Staker: STAKER0, Delegator: ALICE, KIndex: 3, InitialAmount: vs.U64("stake", 0, u64max)}
	w.Delegation.SetDelegator(w.Ctx, dg)
	uq := delegationtypes.UndelegationQueueEntry{Index: 1, Staker: STAKER0, Delegator: ALICE, Amount: vs.U64("unbonding", 0, u64max), CreationTime: 5}
	w.Delegation.SetUndelegationQueueEntry(w.Ctx, uq)
	sl := delegationtypes.DelegationSlash{Staker: STAKER0, KIndex: 4, Fraction: vs.Dec("slashed", "0", "1")}
	w.Delegation.SetDelegationSlashEntry(w.Ctx, sl)
	w.GiveMod(stakerstypes.ModuleName, vs.U64("funds", 0, u64max))
	bank := w.Bank.snap()
	w.upgrade()
	vs.Assert(SameBank(bank, w.Bank), "no coins move")
	for _, d := range data {
		x, ok := w.Delegation.GetDelegationData(w.Ctx, d.Staker)
		vs.Assert(ok && x.Staker == d.Staker, "every validator's delegation stays")
		vs.Assert(vs.And(x.TotalDelegation == d.TotalDelegation, x.LatestIndexK == d.LatestIndexK, x.DelegatorCount == d.DelegatorCount, x.LatestIndexWasUndelegation == d.LatestIndexWasUndelegation), "totals, counts and periods stay")
		vs.Assert(inNative(x.CurrentRewards, d.CurrentRewards), "the unpaid rewards stay")
	}
	vs.Assert(len(w.Delegation.GetAllDelegationData(w.Ctx)) == len(data) && len(w.Delegation.GetAllDelegationEntries(w.Ctx)) == len(entries), "no record appears or disappears")
	for _, y := range entries {
		x, ok := w.Delegation.GetDelegationEntry(w.Ctx, y.Staker, y.KIndex)
		vs.Assert(ok && x.Staker == y.Staker && x.KIndex == y.KIndex && len(x.Value) <= 1, "every period stays")
		vs.Assert(x.Value.AmountOf(DENOM).Equal(y.Value), "the reward per stake stays")
	}
	d2, ok := w.Delegation.GetDelegator(w.Ctx, STAKER0, ALICE)
	vs.Assert(ok && vs.SameMsg(&d2, &dg), "delegators stay")
	u2, ok := w.Delegation.GetUndelegationQueueEntry(w.Ctx, 1)
	vs.Assert(ok && vs.SameMsg(&u2, &uq), "undelegations stay")
	ss := w.Delegation.GetAllDelegationSlashEntries(w.Ctx)
	vs.Assert(len(ss) == 1 && vs.SameMsg(&ss[0], &sl), "slashes stay")
	vs.Reach("upgraded")
}

// H_X06_stakers: validators with any commission and accrued rewards, with a membership.
func H_X06_stakers() {
	w := NewWorld()
	var old []oldstakers.Staker
	for i := 0; i < 2; i++ {
		s := oldstakers.Staker{Address: STAKERS[i], Commission: vs.Dec(nm("commission%d", i), "0", "1"), Moniker: nm("m%d", i), Website: "w", Identity: "i", SecurityContact: "c", Details: "d", CommissionRewards: vs.U64(nm("rewards%d", i), 0, i64cap)}
		old = append(old, s)
		w.put(stakerstypes.StoreKey, cat(stakerstypes.StakerKeyPrefix, stakerstypes.StakerKey(s.Address)), &s)
	}
	v := stakerstypes.Valaccount{PoolId: 1, Staker: STAKER0, Valaddress: VAL0A, Points: vs.U64("points", 0, u64max), IsLeaving: vs.Bool("leaving")}
	w.Stakers.SetValaccount(w.Ctx, v)
	w.GiveMod(stakerstypes.ModuleName, vs.U64("funds", 0, u64max))
	bank := w.Bank.snap()
	w.upgrade()
	vs.Assert(SameBank(bank, w.Bank), "no coins move")
	for _, s := range old {
		x, ok := w.Stakers.GetStaker(w.Ctx, s.Address)
		vs.Assert(ok, "every validator stays")
		vs.Assert(inNative(x.CommissionRewards, s.CommissionRewards), "the accrued commission stays")
		vs.Assert(x.Commission.Equal(s.Commission), "the commission stays")
		vs.Assert(x.Address == s.Address && x.Moniker == s.Moniker && x.Website == s.Website && x.Identity == s.Identity && x.SecurityContact == s.SecurityContact && x.Details == s.Details, "the description stays")
	}
	vs.Assert(len(w.Stakers.GetAllStakers(w.Ctx)) == 2, "no validator appears or disappears")
	v2, ok := w.Stakers.GetValaccount(w.Ctx, 1, STAKER0)
	vs.Assert(ok && vs.SameMsg(&v2, &v), "memberships stay")
	vs.Reach("upgraded")
}

// H_X06_pools: two pools in any state, with a scheduled upgrade or not, and any old parameters.
func H_X06_pools() {
	w := NewWorld()
	now := vs.I64("now", 1, 1<<62)
	w.At(77, now)
	bp := oldbundles.Params{UploadTimeout: vs.U64("timeout", 0, u64max), StorageCost: dec("0.1"), NetworkFee: vs.Dec("fee", "0", "1"), MaxPoints: vs.U64("max points", 0, u64max)}
	w.put(bundlestypes.StoreKey, bundlestypes.ParamsPrefix, &bp)
	pp := oldpool.Params{ProtocolInflationShare: vs.Dec("share", "0", "1"), PoolInflationPayoutRate: vs.Dec("rate", "0", "1")}
	w.put(pooltypes.StoreKey, pooltypes.ParamsKey, &pooltypes.Params{ProtocolInflationShare: pp.ProtocolInflationShare, PoolInflationPayoutRate: pp.PoolInflationPayoutRate})
	var old []oldpool.Pool
	for i := 0; i < 2; i++ {
		rt := []string{"@kyvejs/tendermint", "@kyvejs/tendermint-bsync", "@kyvejs/tendermint-ssync", "@kyvejs/other"}[vs.Choose(nm("runtime%d", i), 4)]
		p := oldpool.Pool{Id: uint64(i), Name: nm("n%d", i), Runtime: rt, Logo: "l", Config: "c", StartKey: "s", CurrentKey: "k", CurrentSummary: "y",
			CurrentIndex: vs.U64(nm("index%d", i), 0, u64max), TotalBundles: vs.U64(nm("bundles%d", i), 0, u64max), UploadInterval: vs.U64(nm("interval%d", i), 0, u64max),
			InflationShareWeight: 1_000_000, MinDelegation: vs.U64(nm("min%d", i), 0, u64max), MaxBundleSize: vs.U64(nm("size%d", i), 0, u64max), Disabled: vs.Bool(nm("disabled%d", i)),
			Protocol: &oldpool.Protocol{Version: "1", Binaries: "b", LastUpgrade: vs.U64(nm("last%d", i), 0, u64max)}, UpgradePlan: &oldpool.UpgradePlan{},
			CurrentStorageProviderId: 2, CurrentCompressionId: 1, EndKey: "e"}
		if i == 0 && vs.Choose("scheduled", 2) == 1 {
			p.UpgradePlan = &oldpool.UpgradePlan{Version: "2", Binaries: "x", ScheduledAt: vs.U64("at", 1, u64max), Duration: vs.U64("duration", 0, u64max)}
		}
		old = append(old, p)
		w.put(pooltypes.StoreKey, cat(pooltypes.PoolKey, pooltypes.PoolKeyPrefix(p.Id)), &p)
	}
	w.Pool.SetPoolCount(w.Ctx, 2)
	b := openBundle(STAKER0, STAKER1, vs.U64("updated", 0, u64max))
	castVote(&b, STAKER2, voteInvalid)
	w.Bundles.SetBundleProposal(w.Ctx, b)
	fb := bundlestypes.FinalizedBundle{PoolId: 1, Id: 4, StorageId: "x", FromIndex: vs.U64("from", 0, u64max), ToIndex: vs.U64("to", 0, u64max)}
	w.Bundles.SetFinalizedBundle(w.Ctx, fb)
	w.GiveMod(pooltypes.ModuleName, vs.U64("funds", 0, u64max))
	bank := w.Bank.snap()
	w.upgrade()
	vs.Assert(SameBank(bank, w.Bank), "no coins move")
	b2 := w.proposal(0)
	vs.Assert(vs.SameMsg(&b2, &b), "the open bundle stays")
	fb2, ok := w.Bundles.GetFinalizedBundle(w.Ctx, 1, 4)
	vs.Assert(ok && vs.SameMsg(&fb2, &fb), "finalised bundles stay")
	vs.Assert(len(w.Pool.GetAllPools(w.Ctx)) == 2 && w.Pool.GetPoolCount(w.Ctx) == 2, "no pool appears or disappears")
	for _, p := range old {
		x := w.pool(p.Id)
		vs.Assert(x.Name == p.Name && x.Runtime == p.Runtime && x.Logo == p.Logo && x.Config == p.Config && x.StartKey == p.StartKey && x.EndKey == p.EndKey && x.CurrentStorageProviderId == 2 && x.CurrentCompressionId == 1, "the settings stay")
		vs.Assert(vs.And(x.CurrentIndex == p.CurrentIndex, x.TotalBundles == p.TotalBundles, x.CurrentKey == p.CurrentKey, x.CurrentSummary == p.CurrentSummary), "the position stays")
		vs.Assert(vs.And(x.UploadInterval == p.UploadInterval, x.MinDelegation == p.MinDelegation, x.MaxBundleSize == p.MaxBundleSize, x.Disabled == p.Disabled), "the limits stay")
		vs.Assert(x.InflationShareWeight.Equal(math.LegacyOneDec()), "equal weights stay equal")
		vs.Assert(vs.And(x.Protocol.Version == "1", x.Protocol.Binaries == "b", x.Protocol.LastUpgrade == p.Protocol.LastUpgrade), "the protocol version stays")
		switch {
		case p.UpgradePlan.Version != "":
			vs.Assert(vs.And(x.UpgradePlan.Version == "2", x.UpgradePlan.Binaries == "x", x.UpgradePlan.ScheduledAt == p.UpgradePlan.ScheduledAt, x.UpgradePlan.Duration == p.UpgradePlan.Duration), "a scheduled upgrade stays")
		case p.Runtime == "@kyvejs/other":
			vs.Assert(x.UpgradePlan.ScheduledAt == 0 && x.UpgradePlan.Version == "", "other runtimes are not upgraded")
		default:
			vs.Assert(vs.And(x.UpgradePlan.ScheduledAt == uint64(now), x.UpgradePlan.Duration == 600, x.UpgradePlan.Version == "1.2.0"), "the runtimes are upgraded")
		}
	}
	q := w.Bundles.GetParams(w.Ctx)
	vs.Assert(vs.And(q.UploadTimeout == bp.UploadTimeout, q.NetworkFee.Equal(bp.NetworkFee), q.MaxPoints == bp.MaxPoints), "the parameters stay")
	r := w.Pool.GetParams(w.Ctx)
	vs.Assert(vs.And(r.ProtocolInflationShare.Equal(pp.ProtocolInflationShare), r.PoolInflationPayoutRate.Equal(pp.PoolInflationPayoutRate)), "the shares stay")
	vs.Reach("upgraded")
}

// H_X06_proposals: three governance proposals with messages of any kind: the creation of a pool with any numbers is
// translated, everything else stays, and so do the proposals' times, deposits and state.
func H_X06_proposals() {
	w := NewWorld()
	key := func(id uint64) []byte {
		return cat(govtypes.ProposalsKeyPrefix, sdk.Uint64ToBigEndian(id))
	}
	at := time.Unix(1000, 0).UTC()
	end := time.Unix(2000, 0).UTC()
	var olds []*oldgov.Proposal
	var creates []*oldpool.MsgCreatePool
	for i, id := range []uint64{3, 1000, 1001} {
		c := &oldpool.MsgCreatePool{Authority: "a", Name: nm("n%d", i), Runtime: "r", Logo: "l", Config: "c", StartKey: "s", UploadInterval: vs.U64(nm("interval%d", i), 0, u64max), InflationShareWeight: vs.U64(nm("weight%d", i), 0, i64cap),
			MinDelegation: vs.U64(nm("min%d", i), 0, u64max), MaxBundleSize: vs.U64(nm("size%d", i), 0, u64max), Version: "v", Binaries: "b", StorageProviderId: 2, CompressionId: 1}
		bz, e := w.Cdc.Marshal(c)
		must(e)
		create := &codectypes.Any{TypeUrl: "/kyve.pool.v1beta1.MsgCreatePool", Value: bz}
		other := &codectypes.Any{TypeUrl: "/cosmos.bank.v1beta1.MsgSend", Value: []byte{1, 2, byte(i)}}
		msgs := [][]*codectypes.Any{{create}, {other, create}, {other}}[i]
		p := &oldgov.Proposal{Id: id, Messages: msgs, Status: oldgov.ProposalStatus(1 + i), FinalTallyResult: &oldgov.TallyResult{YesCount: "1", AbstainCount: "2", NoCount: "3", NoWithVetoCount: "4"},
			SubmitTime: &at, DepositEndTime: &end, TotalDeposit: sdk.NewCoins(sdk.NewInt64Coin(DENOM, int64(5+i))), VotingStartTime: &at, VotingEndTime: &end, Metadata: "m", Title: "t", Summary: "y", Proposer: ALICE}
		olds = append(olds, p)
		creates = append(creates, c)
		w.put(govtypes.StoreKey, key(id), p)
	}
	w.GiveMod(govtypes.ModuleName, vs.U64("funds", 0, u64max))
	bank := w.Bank.snap()
	w.upgrade()
	vs.Assert(SameBank(bank, w.Bank), "no coins move")
	for i, o := range olds {
		var x oldgov.Proposal
		bz := w.get(govtypes.StoreKey, key(o.Id))
		vs.Assert(len(bz) > 0 && w.Cdc.Unmarshal(bz, &x) == nil, "every proposal stays")
		vs.Assert(x.Id == o.Id && x.Status == o.Status && *x.FinalTallyResult == *o.FinalTallyResult && x.Metadata == "m" && sdk.Coins(x.TotalDeposit).Equal(sdk.Coins(o.TotalDeposit)), "state and deposits of the proposals stay")
		vs.Assert(x.SubmitTime.Equal(at) && x.DepositEndTime.Equal(end) && x.VotingStartTime.Equal(at) && x.VotingEndTime.Equal(end), "the times of the proposals stay")
		vs.Assert(i == 0 || x.Title == "t" && x.Summary == "y" && x.Proposer == ALICE, "the descriptions of other proposals stay")
		vs.Assert(len(x.Messages) == len(o.Messages), "no message appears or disappears")
		for j, m := range x.Messages {
			vs.Assert(m.TypeUrl == o.Messages[j].TypeUrl, "the kinds of the messages stay")
			if i == 2 || i == 1 && j == 0 {
				vs.Assert(len(m.Value) == 3 && m.Value[0] == 1 && m.Value[1] == 2 && m.Value[2] == byte(i), "other messages stay")
				continue
			}
			c := creates[i]
			var n pooltypes.MsgCreatePool
			vs.Assert(w.Cdc.Unmarshal(m.Value, &n) == nil, "the new version can read the message")
			vs.Assert(n.Authority == c.Authority && n.Name == c.Name && n.Runtime == c.Runtime && n.Logo == c.Logo && n.Config == c.Config && n.StartKey == c.StartKey && n.Version == c.Version && n.Binaries == c.Binaries && n.StorageProviderId == c.StorageProviderId && n.CompressionId == c.CompressionId && n.EndKey == "", "the pool's settings stay")
			vs.Assert(vs.And(n.UploadInterval == c.UploadInterval, n.MinDelegation == c.MinDelegation, n.MaxBundleSize == c.MaxBundleSize), "the pool's limits stay")
			vs.Assert(eq(n.InflationShareWeight.BigInt(), mul(bi(c.InflationShareWeight), one18)), "the pool's weight stays")
		}
	}
	vs.Reach("upgraded")
}
