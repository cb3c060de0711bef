//verif:use lib_funders.go
//verif:use lib_pool.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_bundles.go
//verif:use lib_team.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlesmod "github.com/KYVENetwork/chain/x/bundles"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationmod "github.com/KYVENetwork/chain/x/delegation"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	fundersmod "github.com/KYVENetwork/chain/x/funders"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globalmod "github.com/KYVENetwork/chain/x/global"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	poolmod "github.com/KYVENetwork/chain/x/pool"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakersmod "github.com/KYVENetwork/chain/x/stakers"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teammod "github.com/KYVENetwork/chain/x/team"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X02: exporting the state and importing it into an empty chain loses nothing.

// reimport exports all modules, empties their stores, imports and compares.
func (w *World) reimport() {
	gs := globalmod.ExportGenesis(w.Ctx, w.Global)
	ps := poolmod.ExportGenesis(w.Ctx, w.Pool)
	ss := stakersmod.ExportGenesis(w.Ctx, w.Stakers)
	ds := delegationmod.ExportGenesis(w.Ctx, w.Delegation)
	fs := fundersmod.ExportGenesis(w.Ctx, w.Funders)
	bs := bundlesmod.ExportGenesis(w.Ctx, w.Bundles)
	ts := teammod.ExportGenesis(w.Ctx, w.Team)
	before := w.storage()
	vs.Assert(globaltypes.ValidateGenesis(*gs) == nil, "the exported global state is valid")
	vs.Assert(ps.Validate() == nil, "the exported pool state is valid")
	vs.Assert(ss.Validate() == nil, "the exported stakers state is valid")
	vs.Assert(ds.Validate() == nil, "the exported delegation state is valid")
	vs.Assert(fs.Validate() == nil, "the exported funders state is valid")
	vs.Assert(bs.Validate() == nil, "the exported bundles state is valid")
	vs.Assert(ts.Validate() == nil, "the exported team state is valid")
	for i := 0; i < 7; i++ {
		w.Clear(i, false)
		w.Clear(i, true)
	}
	// in the order of the app, then the first block
	bundlesmod.InitGenesis(w.Ctx, w.Bundles, *bs)
	delegationmod.InitGenesis(w.Ctx, w.Delegation, *ds)
	poolmod.InitGenesis(w.Ctx, w.Pool, *ps)
	stakersmod.InitGenesis(w.Ctx, w.Stakers, *ss)
	globalmod.InitGenesis(w.Ctx, w.Global, *gs)
	teammod.InitGenesis(w.Ctx, w.Team, *ts)
	fundersmod.InitGenesis(w.Ctx, w.Funders, *fs)
	w.Bundles.InitMemStore(w.Ctx)
	w.Delegation.InitMemStore(w.Ctx)
	vs.Reach("imported")
	after := w.storage()
	for i := range before {
		vs.Assert(SameDump(before[i], after[i]), "the "+modNames[i/2]+" state is the same after the import")
	}
}

// storage lists all stores; counters which are zero are left out.
func (w *World) storage() (out [14][]Entry) {
	for i := 0; i < 14; i++ {
		for _, e := range w.DumpStore(i/2, i%2 == 1) {
			if len(e.V) == 8 && vs.SameBytes(e.V, make([]byte, 8)) {
				continue
			}
			out[i] = append(out[i], e)
		}
	}
	return
}

// started is what every chain does first: import a genesis, here the default one.
func (w *World) started() {
	setGlobal := globaltypes.DefaultGenesisState()
	globalmod.InitGenesis(w.Ctx, w.Global, *setGlobal)
	p := w.Pool.GetParams(w.Ctx)
	if p.ProtocolInflationShare.IsNil() {
		w.setPoolParams("0.04", "0.05", "1")
	}
	w.Pool.SetPoolCount(w.Ctx, w.Pool.GetPoolCount(w.Ctx))
	w.Stakers.SetQueueState(w.Ctx, stakerstypes.QUEUE_IDENTIFIER_COMMISSION, stakerstypes.QueueState{})
	w.Stakers.SetQueueState(w.Ctx, stakerstypes.QUEUE_IDENTIFIER_LEAVE, stakerstypes.QueueState{})
	w.Delegation.SetQueueState(w.Ctx, delegationtypes.QueueState{})
	w.Bundles.SetBundleVersionMap(w.Ctx, bundlestypes.BundleVersionMap{})
	w.Team.SetAuthority(w.Ctx, teamtypes.Authority{})
	w.Team.SetTeamVestingAccountCount(w.Ctx, 0)
	for _, st := range w.Stakers.GetAllStakers(w.Ctx) {
		must(w.delegate(st.Address, st.Address, 0)) // creating a validator does this
	}
}

func (w *World) commission(s string, c math.LegacyDec) error {
	m := &stakerstypes.MsgUpdateCommission{Creator: s, Commission: c}
	return w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := smsg(w).UpdateCommission(ctx, m)
		return e
	})
}

// H_X02_stakers: memberships, leave requests, commission changes and kicks.
func H_X02_stakers() {
	w := stakersWorld(2, 2)
	w.Funders.SetParams(w.Ctx, plainWhitelist())
	w.setBundlesParams(600, 5, "0.01", "0.5")
	w.started()
	w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER0, VAL0A)
	w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER0, VAL0B)
	w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER1, VAL1A)
	w.setPoints(0, STAKER1, vs.U64("points", 1, u64max))
	n := 2
	if vs.Thorough() {
		n = 4
	}
	t := w.Time()
	for i := 0; i < n; i++ {
		switch vs.Choose("op", 8) {
		case 0:
			w.leave(STAKER0, 0)
		case 1:
			w.leave(STAKER1, 0)
		case 2:
			w.join(STAKER1, 1, VAL1B, 0)
		case 3:
			w.commission(STAKER0, vs.Dec(nm("commission%d", i), "0", "1000000000000000000"))
		case 4:
			w.Stakers.LeavePool(w.Ctx, STAKER0, 0)
		case 5:
			t += 1000
			w.stakersBlock(t)
		case 6:
			w.disable(0)
		case 7:
			m := &stakerstypes.MsgCreateStaker{Creator: STAKER3, Amount: 0, Commission: dec("0.3")}
			w.Tx(func(ctx sdk.Context) error { _, e := smsg(w).CreateStaker(ctx, m); return e })
		}
	}
	w.reimport()
}

// H_X02_delegation: delegations, rewards, slashes, unbondings and redelegations.
func H_X02_delegation() {
	w := delegWorld(2)
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(1000, 1000))
	w.Funders.SetParams(w.Ctx, plainWhitelist())
	w.setBundlesParams(600, 5, "0.01", "0.5")
	w.started()
	a, b := vs.U64("a", 1, stakeCap), vs.U64("b", 1, stakeCap)
	w.mustDelegate(ALICE, STAKER0, a)
	w.mustDelegate(BOB, STAKER0, b)
	w.mustDelegate(BOB, STAKER1, 7)
	n := 2
	if vs.Thorough() {
		n = 3
	}
	t := w.Time()
	for i := 0; i < n; i++ {
		switch vs.Choose("op", 8) {
		case 0:
			w.undelegate(ALICE, STAKER0, a)
		case 1:
			w.undelegate(BOB, STAKER0, vs.U64(nm("part%d", i), 1, stakeCap))
		case 2:
			w.redelegate(BOB, STAKER1, STAKER0, 7)
		case 3:
			w.pay(STAKER0, sdk.Coins{coin(DENOM, 1000)})
		case 4:
			w.slash(STAKER0, delegationtypes.SLASH_TYPE_UPLOAD)
		case 5:
			w.withdraw(ALICE, STAKER0)
		case 6:
			t += 1000
			w.At(w.Ctx.BlockHeight()+1, t)
			w.Delegation.ProcessDelegatorUnbondingQueue(w.Ctx) // (not the module's block: it builds the in-memory index once per process)
		case 7:
			w.GiveU(CHARLIE, 5)
			w.delegate(CHARLIE, STAKER1, 5)
		}
	}
	w.reimport()
}

// H_X02_bundles: open bundles, votes, archived bundles, uploader selection and protocol versions.
func H_X02_bundles() {
	w := bundlesWorld(3)
	w.started()
	for i := 0; i < 3; i++ {
		w.selfStake(i, 100)
	}
	w.Bundles.SetBundleVersionMap(w.Ctx, bundlestypes.BundleVersionMap{Versions: []*bundlestypes.BundleVersionEntry{{Height: vs.U64("height", 1, half), Version: 2}, {Height: half, Version: 3}}})
	rounds := vs.Choose("rounds", 3)
	w.Bundles.SetBundleProposal(w.Ctx, openBundle(STAKER0, STAKER1, uint64(w.Time())))
	for i := 0; i < rounds; i++ {
		p := w.proposal(0)
		for _, s := range STAKERS[:3] {
			if s != p.Uploader {
				w.vote(bundlestypes.MsgVoteBundleProposal{Creator: w.valaddr(0, s), Staker: s, PoolId: 0, StorageId: p.StorageId, Vote: bundlestypes.VOTE_TYPE_VALID})
			}
		}
		w.At(w.Ctx.BlockHeight()+1, w.Time()+100)
		m := w.plainSubmit(p.NextUploader)
		m.StorageId = nm("round%d", i)
		must(w.submit(m))
	}
	if vs.Choose("other", 2) == 1 {
		m := bundlestypes.MsgClaimUploaderRole{Creator: VAL3B, Staker: STAKER3, PoolId: 1}
		w.selfStake(3, 10)
		must(w.claim(m))
	}
	p := w.proposal(0)
	castVote(&p, STAKER2, vs.Choose("vote", 4))
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.reimport()
}

// H_X02_pools: pools of all kinds, fundings of all kinds and all parameters.
func H_X02_pools() {
	w := NewWorld()
	w.Global.SetParams(w.Ctx, globaltypes.DefaultParams())
	w.setPoolParams("0.04", "0.05", "0.3")
	w.setSlash("0.1", "0.2", "0.02")
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(vs.U64("change", 0, u64max), vs.U64("leave", 0, u64max)))
	w.setBundlesParams(vs.U64("timeout", 1, u64max), vs.U64("max", 1, u64max), "0.01", "0.5")
	w.Funders.SetParams(w.Ctx, plainWhitelist())
	w.started()
	n := vs.Choose("pools", 3)
	for i := 0; i < n; i++ {
		kind := runs
		if i == 0 || vs.Thorough() {
			kind = vs.Choose("kind", nKinds)
		}
		p := kindPool(kind, dec("1"))
		p.TotalBundles, p.CurrentIndex, p.UploadInterval = vs.U64(nm("total%d", i), 0, u64max), vs.U64(nm("index%d", i), 0, u64max), vs.U64(nm("interval%d", i), 0, u64max)
		id := w.Pool.AppendPool(w.Ctx, p)
		w.Funders.CreateFundingState(w.Ctx, id)
	}
	for i, u := range USERS[:2] {
		w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: u, Moniker: "m"})
		for j := 0; j < n; j++ {
			switch vs.Choose("funding", 3) {
			case 1:
				w.addFunding(fundingOf(u, uint64(j), symCoins(nm("f%d%d", i, j), []string{coinB, coinC}), sdk.Coins{coin(coinB, 3)}))
			case 2:
				w.Funders.SetFunding(w.Ctx, &funderstypes.Funding{FunderAddress: u, PoolId: uint64(j), TotalFunded: sdk.Coins{coin(coinB, 3)}})
			}
		}
	}
	w.reimport()
}

// H_X02_team: team accounts and the authority's record.
func H_X02_team() {
	w := NewWorld()
	w.Global.SetParams(w.Ctx, globaltypes.DefaultParams())
	w.setPoolParams("0.04", "0.05", "0.3")
	w.setSlash("0.1", "0.2", "0.02")
	w.setBundlesParams(600, 5, "0.01", "0.5")
	w.Funders.SetParams(w.Ctx, plainWhitelist())
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(1000, 1000))
	w.started()
	total := vs.U64("rewards", 0, u64max)
	claimed := vs.U64("claimed", 0, u64max)
	vs.Assume(claimed <= total)
	w.Team.SetAuthority(w.Ctx, teamtypes.Authority{TotalRewards: total, RewardsClaimed: claimed})
	n := vs.Choose("accounts", 4)
	for i := 0; i < n; i++ {
		a := symTeamAccount(nm("a%d", i))
		w.Team.AppendTeamVestingAccount(w.Ctx, a)
	}
	w.reimport()
}

// H_X02_duplicates: a genesis with two records for the same thing, of which one would be lost, is refused.
func H_X02_duplicates() {
	same := vs.Choose("same", 2) == 1
	id, n := vs.U64("id", 0, half), uint64(1)
	u, k := ALICE, 0
	if same {
		n = 0
	} else {
		k = vs.Choose("differ", 2)
		if k == 1 {
			u, n = BOB, 0
		}
	}
	var e error
	switch vs.Choose("record", 12) {
	case 0:
		g := funderstypes.DefaultGenesis()
		w := USERS[int(n)]
		if k == 1 {
			w = u
		}
		g.FunderList = []funderstypes.Funder{{Address: ALICE, Moniker: "a"}, {Address: w, Moniker: "b"}}
		e = g.Validate()
	case 1:
		g := funderstypes.DefaultGenesis()
		g.FundingList = []funderstypes.Funding{{FunderAddress: ALICE, PoolId: id}, {FunderAddress: u, PoolId: id + n}}
		e = g.Validate()
	case 2:
		vs.Assume(k == 0)
		g := funderstypes.DefaultGenesis()
		g.FundingStateList = []funderstypes.FundingState{{PoolId: id}, {PoolId: id + n, ActiveFunderAddresses: []string{ALICE}}}
		e = g.Validate()
	case 3:
		vs.Assume(k == 0)
		g := bundlestypes.DefaultGenesis()
		g.BundleProposalList = []bundlestypes.BundleProposal{{PoolId: id}, {PoolId: id + n, StorageId: "x"}}
		e = g.Validate()
	case 4:
		vs.Assume(k == 0)
		g := bundlestypes.DefaultGenesis()
		g.FinalizedBundleList = []bundlestypes.FinalizedBundle{{PoolId: id}, {PoolId: id, Id: n, StorageId: "x"}}
		e = g.Validate()
	case 5:
		vs.Assume(k == 0)
		g := pooltypes.DefaultGenesis()
		g.PoolCount = half + 2
		g.PoolList = []pooltypes.Pool{{Id: id}, {Id: id + n, Name: "x"}}
		e = g.Validate()
	case 6:
		g := stakerstypes.DefaultGenesis()
		g.ValaccountList = []stakerstypes.Valaccount{{PoolId: id, Staker: ALICE}, {PoolId: id + n, Staker: u, Valaddress: "x"}}
		e = g.Validate()
	case 7:
		vs.Assume(k == 0)
		g := stakerstypes.DefaultGenesis()
		g.QueueStateCommission.HighIndex = half + 2
		g.CommissionChangeEntries = []stakerstypes.CommissionChangeEntry{{Index: id, Staker: ALICE}, {Index: id + n, Staker: BOB}}
		e = g.Validate()
	case 8:
		g := delegationtypes.DefaultGenesis()
		w := USERS[int(n)]
		if k == 1 {
			w = u
		}
		g.DelegatorList = []delegationtypes.Delegator{{Staker: STAKER0, Delegator: ALICE, KIndex: id}, {Staker: STAKER0, Delegator: w, KIndex: id + 1}}
		e = g.Validate()
	case 9:
		vs.Assume(k == 0)
		g := delegationtypes.DefaultGenesis()
		g.DelegationEntryList = []delegationtypes.DelegationEntry{{Staker: STAKER0, KIndex: id}, {Staker: STAKER0, KIndex: id + n, Value: sdk.DecCoins{{Denom: "x", Amount: dec("1")}}}}
		e = g.Validate()
	case 10:
		vs.Assume(k == 0)
		g := delegationtypes.DefaultGenesis()
		g.QueueStateUndelegation.HighIndex = half + 2
		g.UndelegationQueueEntryList = []delegationtypes.UndelegationQueueEntry{{Index: id}, {Index: id + n, Amount: 5}}
		e = g.Validate()
	case 11:
		vs.Assume(k == 0)
		g := teamtypes.DefaultGenesis()
		g.AccountCount = half + 2
		g.AccountList = []teamtypes.TeamVestingAccount{{Id: id}, {Id: id + n, TotalAllocation: 5}}
		e = g.Validate()
	}
	vs.Assert(vs.Iff(e != nil, same), "exactly a genesis with two records of the same thing is refused")
}
