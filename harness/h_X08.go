//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go
//verif:use lib_query.go

package main

import (
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	querytypes "github.com/KYVENetwork/chain/x/query/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X08: listings show every matching record exactly once, in order, on any page size.

// H_X08_pools: the list of pools under any filter. Three pools, each disabled or not and of one of two
// runtimes and storage providers; any offset and page size.
func H_X08_pools() {
	w := bundlesWorld(1)
	w.Pool.AppendPool(w.Ctx, basePool(dec("1")))
	off := make([]bool, 3)
	for i := range off {
		off[i] = vs.Bool(nm("disabled%d", i))
		p := w.pool(uint64(i))
		p.Name = []string{"Cosmos Hub", "osmosis", "COSMIC"}[i]
		p.Runtime = []string{"ssync", "tendermint", "ssync"}[i]
		p.CurrentStorageProviderId = []uint32{1, 2, 2}[i]
		p.Disabled = off[i]
		w.Pool.SetPool(w.Ctx, p)
	}
	f := vs.Choose("filter", 5)
	rq := querytypes.QueryPoolsRequest{Disabled: vs.Bool("disabled")}
	keep := [][]int{{0, 1, 2}, {0, 2}, {1, 2}, {0, 2}, {}}[f]
	switch f {
	case 1:
		rq.Search = "COSM"
	case 2:
		rq.StorageProviderId = 2
	case 3:
		rq.Runtime = "ssync"
	case 4:
		rq.Search, rq.Runtime = "osmosis", "ssync"
	}
	var want []string
	for _, i := range keep {
		if vs.Fork(off[i] == rq.Disabled) {
			want = append(want, nm("%d", i))
		}
	}
	offset, limit := vs.U64("offset", 0, 1<<62), vs.U64("limit", 1, 1<<62)
	checkPages(want, offset, limit, false, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
		rq.Pagination = p
		r, e := w.Query.Pools(w.Ctx, &rq)
		if e != nil {
			return nil, nil, e
		}
		var out []string
		for _, x := range r.Pools {
			pool := w.pool(x.Id)
			vs.Assert(vs.SameMsg(x.Data, &pool), "the stored pool is listed")
			out = append(out, nm("%d", x.Id))
		}
		return out, r.Pagination, nil
	})
}

// H_X08_fundings: the fundings of a funder and of a pool by status. Three funders in two pools with any
// amounts left, also none; any offset and page size.
func H_X08_fundings() {
	w := fundersWorld(plainWhitelist())
	type rec struct {
		who  string
		pool uint64
		left uint64
	}
	recs := []rec{{ALICE, 0, 0}, {ALICE, 1, 0}, {BOB, 0, 0}, {CHARLIE, 0, 0}}
	for i := range recs {
		recs[i].left = vs.U64(nm("left%d", i), 0, stakeCap)
		var c sdk.Coins
		if vs.Fork(recs[i].left > 0) {
			c = sdk.NewCoins(sdk.Coin{Denom: DENOM, Amount: math.NewIntFromUint64(recs[i].left)})
		}
		w.addFunding(fundingOf(recs[i].who, recs[i].pool, c, c))
	}
	status := querytypes.FundingStatus(vs.Choose("status", 3))
	by := vs.Choose("by", 4) // pool 0, pool 1, ALICE, somebody else
	var want []string
	for _, r := range recs {
		if by < 2 && r.pool != uint64(by) || by == 2 && r.who != ALICE || by == 3 {
			continue
		}
		if status == querytypes.FUNDING_STATUS_UNSPECIFIED || vs.Fork((r.left > 0) == (status == querytypes.FUNDING_STATUS_ACTIVE)) {
			want = append(want, nm("%s|%d", r.who, r.pool))
		}
	}
	sort.Strings(want)
	offset, limit := vs.U64("offset", 0, 1<<62), vs.U64("limit", 1, 1<<62)
	checkPages(want, offset, limit, vs.Choose("keys", 2) == 1, func(p *query.PageRequest) (out []string, rs *query.PageResponse, e error) {
		var l []querytypes.Funding
		if by < 2 {
			r, err := w.Query.FundingsByPool(w.Ctx, &querytypes.QueryFundingsByPoolRequest{PoolId: uint64(by), Status: status, Pagination: p})
			if e = err; e == nil {
				l, rs = r.Fundings, r.Pagination
			}
		} else {
			r, err := w.Query.FundingsByFunder(w.Ctx, &querytypes.QueryFundingsByFunderRequest{Address: []string{ALICE, DAVID}[by-2], Status: status, Pagination: p})
			if e = err; e == nil {
				l, rs = r.Fundings, r.Pagination
			}
		}
		for _, x := range l {
			f := w.funding(x.FunderAddress, x.PoolId)
			vs.Assert(vs.And(sameCoins(x.Amounts, f.Amounts), sameCoins(x.AmountsPerBundle, f.AmountsPerBundle)), "the stored funding is listed")
			out = append(out, nm("%s|%d", x.FunderAddress, x.PoolId))
		}
		return
	})
}

// H_X08_funders: the list of funders by any part of the name, any offset and page size.
func H_X08_funders() {
	w := fundersWorld(plainWhitelist())
	who := []string{ALICE, BOB, CHARLIE}
	for i, a := range who {
		w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: a, Moniker: []string{"First", "second", "thIRd"}[i]})
	}
	search := []string{"", "IR", "nobody", "con", "first"}[vs.Choose("search", 5)]
	want := [][]string{who, {ALICE, CHARLIE}, {}, {BOB}, {ALICE}}[map[string]int{"": 0, "IR": 1, "nobody": 2, "con": 3, "first": 4}[search]]
	want = append([]string{}, want...)
	sort.Strings(want)
	offset, limit := vs.U64("offset", 0, 1<<62), vs.U64("limit", 1, 1<<62)
	checkPages(want, offset, limit, false, func(p *query.PageRequest) (out []string, rs *query.PageResponse, e error) {
		r, e := w.Query.Funders(w.Ctx, &querytypes.QueryFundersRequest{Search: search, Pagination: p})
		if e != nil {
			return nil, nil, e
		}
		for _, x := range r.Funders {
			out = append(out, x.Address)
		}
		return out, r.Pagination, nil
	})
}

// x08stakers: four validators; the first two in two pools and one pool, the others in none; any stakes.
func x08stakers() (*World, []string) {
	w := NewWorld()
	w.setPoolParams("0.04", "0.05", "1")
	w.Funders.SetParams(w.Ctx, plainWhitelist())
	for i := 0; i < 2; i++ {
		w.Funders.CreateFundingState(w.Ctx, w.Pool.AppendPool(w.Ctx, basePool(dec("1"))))
	}
	w.setSlash("0.1", "0.2", "0.02")
	for i := 0; i < 4; i++ {
		w.addStaker(i)
		w.mustDelegate(STAKERS[i], STAKERS[i], vs.U64(nm("stake%d", i), 1, stakeCap))
	}
	w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER0, VAL0A)
	w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER0, VAL0B)
	w.Stakers.AddValaccountToPool(w.Ctx, 1, STAKER1, VAL1B)
	return w, STAKERS[:4]
}

// H_X08_stakers: the lists of all, active and inactive validators. Any stakes, changed by delegating,
// undelegating and slashing; pages of one to four.
func H_X08_stakers() {
	w, all := x08stakers()
	change := vs.Choose("change", 4)
	switch change {
	case 1:
		w.mustDelegate(ALICE, STAKER2, vs.U64("more", 1, stakeCap))
	case 2:
		must(w.redelegate(STAKER2, STAKER2, STAKER1, 1))
	case 3:
		w.slash(STAKER1, delegationtypes.SLASH_TYPE_UPLOAD)
	}
	status := querytypes.StakerStatus(vs.Choose("status", 3))
	want := map[string]bool{}
	for i, s := range all {
		if status == querytypes.STAKER_STATUS_UNSPECIFIED || (i < 2) == (status == querytypes.STAKER_STATUS_ACTIVE) {
			want[s] = true
		}
	}
	limit := uint64(1 + vs.Choose("limit", 4))
	search := ""
	if change == 0 && vs.Choose("search", 2) == 1 {
		// part of two names, in other letters, and of one address
		for i, name := range []string{"The Node", "node", "other", STAKERS[2]} {
			m, _ := w.Stakers.GetStaker(w.Ctx, all[i])
			w.Stakers.UpdateStakerMetadata(w.Ctx, all[i], name, "", "", "", "")
			vs.Assert(m.Address == all[i], "the validator exists")
		}
		search = []string{"NODE", strings.ToUpper(STAKERS[2])}[vs.Choose("for", 2)]
		for i, s := range all {
			if (search == "NODE") != (i < 2) {
				delete(want, s)
			}
		}
	}
	var got []string
	for page := uint64(0); page < 5; page++ {
		r, e := w.Query.Stakers(w.Ctx, &querytypes.QueryStakersRequest{Status: status, Search: search, Pagination: &query.PageRequest{Offset: page * limit, Limit: limit, CountTotal: true}})
		vs.Assert(e == nil && r != nil, "the query answers")
		vs.Assert(r.Pagination.Total == uint64(len(want)), "the total is the number of validators")
		vs.Assert(uint64(len(r.Stakers)) <= limit, "a page has no more entries than asked for")
		for _, x := range r.Stakers {
			got = append(got, x.Address)
		}
		if len(r.Stakers) == 0 {
			break
		}
	}
	vs.Assert(len(got) == len(want), "every validator is listed once")
	for i, s := range got {
		vs.Assert(want[s] && count(got, s) == 1, "exactly the matching validators are listed")
		if i > 0 {
			vs.Assert(le(w.total(s), w.total(got[i-1])), "validators are ordered by stake")
		}
	}
	vs.Reach("listed")
}

// H_X08_poolcount: the list of active validators by the number of pools. Any stakes, pages of one to four.
func H_X08_poolcount() {
	w, _ := x08stakers()
	if vs.Choose("third", 2) == 1 {
		w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER2, VAL2A)
	}
	want := len(w.Stakers.GetActiveStakers(w.Ctx))
	limit := uint64(1 + vs.Choose("limit", 4))
	var got []string
	for page := uint64(0); page < 5; page++ {
		r, e := w.Query.StakersByPoolCount(w.Ctx, &querytypes.QueryStakersByPoolCountRequest{Pagination: &query.PageRequest{Offset: page * limit, Limit: limit}})
		vs.Assert(e == nil && r != nil, "the query answers")
		vs.Assert(r.Pagination.Total == uint64(want), "the total is the number of active validators")
		vs.Assert(uint64(len(r.Stakers)) <= limit, "a page has no more entries than asked for")
		for _, x := range r.Stakers {
			got = append(got, x.Address)
		}
		if len(r.Stakers) == 0 {
			break
		}
	}
	vs.Assert(len(got) == want, "every active validator is listed once")
	n := map[string]int{STAKER0: 2, STAKER1: 1, STAKER2: 1}
	for i, s := range got {
		vs.Assert(n[s] > 0 && count(got, s) == 1, "exactly the active validators are listed")
		if i > 0 {
			p := got[i-1]
			vs.Assert(n[p] > n[s] || n[p] == n[s] && le(w.total(s), w.total(p)), "validators are ordered by pools, then by stake")
		}
	}
	vs.Reach("listed")
}

// H_X08_delegators: the delegators of a validator, the validators of a delegator and its unbondings on pages
// of any size.
func H_X08_delegators() {
	w := x08deleg()
	offset, limit := vs.U64("offset", 0, 1<<62), vs.U64("limit", 1, 1<<62)
	keys := vs.Choose("keys", 2) == 1
	switch vs.Choose("list", 3) {
	case 0:
		want := []string{ALICE, BOB, STAKER0}
		sort.Strings(want)
		checkPages(want, offset, limit, keys, func(p *query.PageRequest) (out []string, rs *query.PageResponse, e error) {
			r, e := w.Query.DelegatorsByStaker(w.Ctx, &querytypes.QueryDelegatorsByStakerRequest{Staker: STAKER0, Pagination: p})
			if e != nil {
				return nil, nil, e
			}
			for _, x := range r.Delegators {
				out = append(out, x.Delegator)
			}
			return out, r.Pagination, nil
		})
	case 1:
		want := []string{STAKER0, STAKER1, STAKER2}
		sort.Strings(want)
		checkPages(want, offset, limit, keys, func(p *query.PageRequest) (out []string, rs *query.PageResponse, e error) {
			r, e := w.Query.StakersByDelegator(w.Ctx, &querytypes.QueryStakersByDelegatorRequest{Delegator: ALICE, Pagination: p})
			if e != nil {
				return nil, nil, e
			}
			for _, x := range r.Stakers {
				out = append(out, x.Staker.Address)
			}
			return out, r.Pagination, nil
		})
	case 2:
		for i := 0; i < 3; i++ {
			must(w.undelegate(ALICE, STAKERS[i], uint64(i+1)))
			must(w.undelegate(BOB, STAKER0, 1))
		}
		checkPages([]string{"1", "2", "3"}, offset, limit, keys, func(p *query.PageRequest) (out []string, rs *query.PageResponse, e error) {
			r, e := w.Query.AccountDelegationUnbondings(w.Ctx, &querytypes.QueryAccountDelegationUnbondingsRequest{Address: ALICE, Pagination: p})
			if e != nil {
				return nil, nil, e
			}
			for _, x := range r.Unbondings {
				out = append(out, nm("%d", x.Amount))
			}
			return out, r.Pagination, nil
		})
	}
}

func x08deleg() *World {
	w, _ := x08stakers()
	for i := 0; i < 3; i++ {
		w.mustDelegate(ALICE, STAKERS[i], 10)
	}
	w.mustDelegate(BOB, STAKER0, 10)
	return w
}
