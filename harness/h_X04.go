//verif:use lib_funders.go
//verif:use lib_pool.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_bundles.go
//verif:use lib_team.go

package main

import (
	"strconv"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X04: records of the storage never collide.
//
// Every kind of record is written, read, listed and removed with symbolic identifiers:
// numbers are arbitrary 64 bit values, addresses consist of arbitrary characters and have
// the length of an ordinary or of a 32 byte account.

// ident identifies a record; kinds use the fields they need.
type ident struct {
	a, b string
	n, m uint64
	v    uint64 // the content
}

type kind struct {
	name   string
	single bool // there is only one such record
	differ func(x, y ident) bool
	set    func(ident)
	remove func(ident) // nil if such records are never removed
	read   func(ident) (msg any, found bool)
	want   func(ident) any
	lists  []listing
}

// listing is a query for all records which match an identifier.
type listing struct {
	name  string
	get   func(q ident) []any
	match func(q, x ident) bool
	by    func(x ident) uint64 // the list is sorted by this; nil if not
}

func numN(x ident) uint64 { return x.n }
func numM(x ident) uint64 { return x.m }

// anyAddr is an arbitrary address; long ones belong to groups and other contracts.
func anyAddr(name string, long bool) string {
	n := 43
	if long {
		n = 63
	}
	b := []byte("kyve1")
	for i := len(b); i < n; i++ {
		b = append(b, byte(vs.U64(name+strconv.Itoa(i), '0', 'z')))
	}
	return string(b)
}

// otherAddr is a different address than a; neither is the beginning of the other.
func otherAddr(name, a string, long bool) string {
	b := anyAddr(name, long)
	vs.Assume(a[:43] != b[:43])
	return b
}

// idents returns two identifiers; parts of them may be the same.
func idents() (x, y ident) {
	long := vs.Choose("long", 3)
	x.a = anyAddr("a", long == 1)
	y.a = x.a
	x.b = BOB
	y.b = x.b
	switch vs.Choose("addresses", 3) {
	case 0:
		y.a = otherAddr("b", x.a, long == 2)
	case 1:
		y.b = otherAddr("b", x.b, long == 2)
	}
	x.n, y.n = vs.U64("n1", 0, u64max), vs.U64("n2", 0, u64max)
	x.m, y.m = vs.U64("m1", 0, u64max), vs.U64("m2", 0, u64max)
	x.v, y.v = vs.U64("v1", 1, 1000), vs.U64("v2", 1, 1000)
	return
}

func never(x, y ident) bool { return false }
func byA(x, y ident) bool   { return x.a != y.a }
func byN(x, y ident) bool   { return x.n != y.n }
func byAB(x, y ident) bool  { return x.a != y.a || x.b != y.b }
func byAN(x, y ident) bool  { return x.a != y.a || x.n != y.n }
func byNM(x, y ident) bool  { return x.n != y.n || x.m != y.m }

func all(q, x ident) bool   { return true }
func sameA(q, x ident) bool { return q.a == x.a }
func sameB(q, x ident) bool { return q.b == x.b }
func sameN(q, x ident) bool { return q.n == x.n }

func anys[T any](l []T) (out []any) {
	for i := range l {
		out = append(out, &l[i])
	}
	return
}

func ptrs[T any](l []*T) (out []any) {
	for _, e := range l {
		out = append(out, e)
	}
	return
}

func stakersKinds(w *World) []kind {
	k, ctx := w.Stakers, w.Ctx
	staker := func(x ident) stakerstypes.Staker {
		return stakerstypes.Staker{Address: x.a, Moniker: "m", Commission: math.LegacyNewDec(int64(x.v))}
	}
	val := func(x ident) stakerstypes.Valaccount {
		return stakerstypes.Valaccount{PoolId: x.n, Staker: x.a, Valaddress: "v", Points: x.v}
	}
	com := func(x ident) stakerstypes.CommissionChangeEntry {
		return stakerstypes.CommissionChangeEntry{Index: x.n, Staker: x.a, CreationDate: int64(x.v), Commission: math.LegacyOneDec()}
	}
	leave := func(x ident) stakerstypes.LeavePoolEntry {
		return stakerstypes.LeavePoolEntry{Index: x.n, Staker: x.a, PoolId: x.m, CreationDate: int64(x.v)}
	}
	queue := func(q stakerstypes.QUEUE_IDENTIFIER) kind {
		return kind{name: "queue", single: true, differ: never,
			set:  func(x ident) { k.SetQueueState(ctx, q, stakerstypes.QueueState{LowIndex: x.v, HighIndex: x.n}) },
			read: func(x ident) (any, bool) { s := k.GetQueueState(ctx, q); return &s, s.LowIndex != 0 },
			want: func(x ident) any { return &stakerstypes.QueueState{LowIndex: x.v, HighIndex: x.n} },
		}
	}
	return []kind{
		{name: "validator", differ: byA,
			set:  func(x ident) { k.AppendStaker(ctx, staker(x)) },
			read: func(x ident) (any, bool) { s, f := k.GetStaker(ctx, x.a); return &s, f },
			want: func(x ident) any { s := staker(x); return &s },
			lists: []listing{
				{"validators", func(ident) []any { return anys(k.GetAllStakers(ctx)) }, all, nil},
			}},
		{name: "membership", differ: byAN,
			set:  func(x ident) { k.SetValaccount(ctx, val(x)) },
			read: func(x ident) (any, bool) { s, f := k.GetValaccount(ctx, x.n, x.a); return &s, f },
			want: func(x ident) any { s := val(x); return &s },
			lists: []listing{
				{"memberships", func(ident) []any { return anys(k.GetAllValaccounts(ctx)) }, all, nil},
				{"memberships of a pool", func(q ident) []any { return ptrs(k.GetAllValaccountsOfPool(ctx, q.n)) }, sameN, nil},
				{"memberships of a validator", func(q ident) []any { return ptrs(k.GetValaccountsFromStaker(ctx, q.a)) }, sameA, numN},
			}},
		{name: "commission change", differ: func(x, y ident) bool { return x.n != y.n && x.a != y.a },
			set:    func(x ident) { k.SetCommissionChangeEntry(ctx, com(x)) },
			remove: func(x ident) { e := com(x); k.RemoveCommissionChangeEntry(ctx, &e) },
			read: func(x ident) (any, bool) {
				s, f := k.GetCommissionChangeEntry(ctx, x.n)
				t, g := k.GetCommissionChangeEntryByIndex2(ctx, x.a)
				vs.Assert(f == g, "a commission change is found by its index and by its validator")
				vs.Assert(!f || vs.SameMsg(&s, &t), "both ways find the same commission change")
				return &s, f
			},
			want: func(x ident) any { s := com(x); return &s },
			lists: []listing{
				{"commission changes", func(ident) []any { return anys(k.GetAllCommissionChangeEntries(ctx)) }, all, numN},
			}},
		{name: "leave request", differ: func(x, y ident) bool { return x.n != y.n && (x.a != y.a || x.m != y.m) },
			set:    func(x ident) { k.SetLeavePoolEntry(ctx, leave(x)) },
			remove: func(x ident) { e := leave(x); k.RemoveLeavePoolEntry(ctx, &e) },
			read: func(x ident) (any, bool) {
				s, f := k.GetLeavePoolEntry(ctx, x.n)
				vs.Assert(f == k.DoesLeavePoolEntryExistByIndex2(ctx, x.a, x.m), "a leave request is found by its index and by its membership")
				return &s, f
			},
			want: func(x ident) any { s := leave(x); return &s },
			lists: []listing{
				{"leave requests", func(ident) []any { return anys(k.GetAllLeavePoolEntries(ctx)) }, all, numN},
			}},
		{name: "member count", differ: byN,
			set: func(x ident) { k.AddOneToCount(ctx, x.n) },
			read: func(x ident) (any, bool) {
				n := k.GetStakerCountOfPool(ctx, x.n)
				return &pooltypes.Pool{Id: n}, n != 0
			},
			want: func(x ident) any { return &pooltypes.Pool{Id: 1} }},
		{name: "active validator", differ: byA,
			set: func(x ident) { k.AddActiveStaker(ctx, x.a) },
			read: func(x ident) (any, bool) {
				f := false
				for _, s := range k.GetActiveStakers(ctx) {
					f = f || s == x.a
				}
				return &pooltypes.Pool{}, f
			},
			want: func(x ident) any { return &pooltypes.Pool{} }},
		queue(stakerstypes.QUEUE_IDENTIFIER_COMMISSION),
		queue(stakerstypes.QUEUE_IDENTIFIER_LEAVE),
		{name: "params", single: true, differ: never,
			set:  func(x ident) { k.SetParams(ctx, stakerstypes.NewParams(x.v, x.n)) },
			read: func(x ident) (any, bool) { p := k.GetParams(ctx); return &p, p.CommissionChangeTime != 0 },
			want: func(x ident) any { p := stakerstypes.NewParams(x.v, x.n); return &p }},
	}
}

func delegationKinds(w *World) []kind {
	k, ctx := w.Delegation, w.Ctx
	del := func(x ident) delegationtypes.Delegator {
		return delegationtypes.Delegator{Staker: x.a, Delegator: x.b, KIndex: x.n, InitialAmount: x.v}
	}
	entry := func(x ident) delegationtypes.DelegationEntry {
		return delegationtypes.DelegationEntry{Staker: x.a, KIndex: x.n, Value: sdk.NewDecCoins(sdk.NewDecCoin("tkyve", math.NewIntFromUint64(x.v)))}
	}
	data := func(x ident) delegationtypes.DelegationData {
		return delegationtypes.DelegationData{Staker: x.a, TotalDelegation: x.n, LatestIndexK: x.m, DelegatorCount: x.v}
	}
	slash := func(x ident) delegationtypes.DelegationSlash {
		return delegationtypes.DelegationSlash{Staker: x.a, KIndex: x.n, Fraction: math.LegacyNewDec(int64(x.v))}
	}
	undel := func(x ident) delegationtypes.UndelegationQueueEntry {
		return delegationtypes.UndelegationQueueEntry{Index: x.n, Staker: x.b, Delegator: x.a, Amount: x.v, CreationTime: x.m}
	}
	cool := func(x ident) delegationtypes.RedelegationCooldown {
		return delegationtypes.RedelegationCooldown{Address: x.a, CreationDate: x.n}
	}
	return []kind{
		{name: "delegator", differ: byAB,
			set:    func(x ident) { k.SetDelegator(ctx, del(x)) },
			remove: func(x ident) { k.RemoveDelegator(ctx, x.a, x.b) },
			read:   func(x ident) (any, bool) { s, f := k.GetDelegator(ctx, x.a, x.b); return &s, f },
			want:   func(x ident) any { s := del(x); return &s },
			lists: []listing{
				{"delegators", func(ident) []any { return anys(k.GetAllDelegators(ctx)) }, all, nil},
				{"validators of a delegator", func(q ident) (out []any) {
					for _, s := range k.GetStakersByDelegator(ctx, q.b) {
						d, _ := k.GetDelegator(ctx, s, q.b)
						out = append(out, &d)
					}
					return
				}, sameB, nil},
			}},
		{name: "delegation period", differ: byAN,
			set:    func(x ident) { k.SetDelegationEntry(ctx, entry(x)) },
			remove: func(x ident) { k.RemoveDelegationEntry(ctx, x.a, x.n) },
			read:   func(x ident) (any, bool) { s, f := k.GetDelegationEntry(ctx, x.a, x.n); return &s, f },
			want:   func(x ident) any { s := entry(x); return &s },
			lists: []listing{
				{"delegation periods", func(ident) []any { return anys(k.GetAllDelegationEntries(ctx)) }, all, nil},
			}},
		{name: "delegation total", differ: byA,
			set:    func(x ident) { k.SetDelegationData(ctx, data(x)) },
			remove: func(x ident) { k.RemoveDelegationData(ctx, x.a) },
			read:   func(x ident) (any, bool) { s, f := k.GetDelegationData(ctx, x.a); return &s, f },
			want:   func(x ident) any { s := data(x); return &s },
			lists: []listing{
				{"delegation totals", func(ident) []any { return anys(k.GetAllDelegationData(ctx)) }, all, nil},
			}},
		{name: "slash", differ: byAN,
			set:    func(x ident) { k.SetDelegationSlashEntry(ctx, slash(x)) },
			remove: func(x ident) { k.RemoveDelegationSlashEntry(ctx, x.a, x.n) },
			read:   func(x ident) (any, bool) { s, f := k.GetDelegationSlashEntry(ctx, x.a, x.n); return &s, f },
			want:   func(x ident) any { s := slash(x); return &s },
			lists: []listing{
				{"slashes", func(ident) []any { return anys(k.GetAllDelegationSlashEntries(ctx)) }, all, nil},
				{"slashes of a validator between two periods", func(q ident) []any {
					vs.Assume(q.n <= q.m && q.m < u64max)
					return anys(k.GetAllDelegationSlashesBetween(ctx, q.a, q.n, q.m))
				}, func(q, x ident) bool { return q.a == x.a && q.n <= x.n && x.n <= q.m }, numN},
			}},
		{name: "undelegation", differ: byN,
			set:    func(x ident) { k.SetUndelegationQueueEntry(ctx, undel(x)) },
			remove: func(x ident) { e := undel(x); k.RemoveUndelegationQueueEntry(ctx, &e) },
			read:   func(x ident) (any, bool) { s, f := k.GetUndelegationQueueEntry(ctx, x.n); return &s, f },
			want:   func(x ident) any { s := undel(x); return &s },
			lists: []listing{
				{"undelegations", func(ident) []any { return anys(k.GetAllUnbondingDelegationQueueEntries(ctx)) }, all, numN},
				{"undelegations of a delegator", func(q ident) []any { return anys(k.GetAllUnbondingDelegationQueueEntriesOfDelegator(ctx, q.a)) }, sameA, numN},
			}},
		{name: "redelegation", differ: byAN,
			set:    func(x ident) { k.SetRedelegationCooldown(ctx, cool(x)) },
			remove: func(x ident) { k.RemoveRedelegationCooldown(ctx, x.a, x.n) },
			read: func(x ident) (any, bool) {
				for _, t := range k.GetRedelegationCooldownEntries(ctx, x.a) {
					if t == x.n {
						return &delegationtypes.RedelegationCooldown{Address: x.a, CreationDate: t}, true
					}
				}
				return nil, false
			},
			want: func(x ident) any { s := cool(x); return &s },
			lists: []listing{
				{"redelegations", func(ident) []any { return anys(k.GetAllRedelegationCooldownEntries(ctx)) }, all, nil},
				{"redelegations of a delegator", func(q ident) (out []any) {
					for _, t := range k.GetRedelegationCooldownEntries(ctx, q.a) {
						out = append(out, &delegationtypes.RedelegationCooldown{Address: q.a, CreationDate: t})
					}
					return
				}, sameA, numN},
			}},
		{name: "queue", single: true, differ: never,
			set:  func(x ident) { k.SetQueueState(ctx, delegationtypes.QueueState{LowIndex: x.v, HighIndex: x.n}) },
			read: func(x ident) (any, bool) { s := k.GetQueueState(ctx); return &s, s.LowIndex != 0 },
			want: func(x ident) any { return &delegationtypes.QueueState{LowIndex: x.v, HighIndex: x.n} }},
		{name: "params", single: true, differ: never,
			set: func(x ident) {
				k.SetParams(ctx, delegationtypes.Params{UnbondingDelegationTime: x.v, RedelegationCooldown: x.n})
			},
			read: func(x ident) (any, bool) {
				p := k.GetParams(ctx)
				return &pooltypes.Pool{Id: p.UnbondingDelegationTime, TotalBundles: p.RedelegationCooldown}, p.UnbondingDelegationTime != 0
			},
			want: func(x ident) any { return &pooltypes.Pool{Id: x.v, TotalBundles: x.n} }},
	}
}

func fundersKinds(w *World) []kind {
	k, ctx := w.Funders, w.Ctx
	funder := func(x ident) funderstypes.Funder { return funderstypes.Funder{Address: x.a, Moniker: "m"} }
	funding := func(x ident) funderstypes.Funding {
		return funderstypes.Funding{FunderAddress: x.a, PoolId: x.n, Amounts: sdk.NewCoins(sdk.NewCoin("tkyve", math.NewIntFromUint64(x.v)))}
	}
	state := func(x ident) funderstypes.FundingState {
		return funderstypes.FundingState{PoolId: x.n, ActiveFunderAddresses: []string{x.a}}
	}
	return []kind{
		{name: "funder", differ: byA,
			set:  func(x ident) { f := funder(x); k.SetFunder(ctx, &f) },
			read: func(x ident) (any, bool) { s, f := k.GetFunder(ctx, x.a); return &s, f },
			want: func(x ident) any { s := funder(x); return &s },
			lists: []listing{
				{"funders", func(ident) []any { return anys(k.GetAllFunders(ctx)) }, all, nil},
			}},
		{name: "funding", differ: byAN,
			set:  func(x ident) { f := funding(x); k.SetFunding(ctx, &f) },
			read: func(x ident) (any, bool) { s, f := k.GetFunding(ctx, x.a, x.n); return &s, f },
			want: func(x ident) any { s := funding(x); return &s },
			lists: []listing{
				{"fundings", func(ident) []any { return anys(k.GetAllFundings(ctx)) }, all, nil},
				{"fundings of a funder", func(q ident) []any { return anys(k.GetFundingsOfFunder(ctx, q.a)) }, sameA, numN},
				{"fundings of a pool", func(q ident) []any { return anys(k.GetFundingsOfPool(ctx, q.n)) }, sameN, nil},
			}},
		{name: "funding state", differ: byN,
			set:  func(x ident) { f := state(x); k.SetFundingState(ctx, &f) },
			read: func(x ident) (any, bool) { s, f := k.GetFundingState(ctx, x.n); return &s, f },
			want: func(x ident) any { s := state(x); return &s },
			lists: []listing{
				{"funding states", func(ident) []any { return anys(k.GetAllFundingStates(ctx)) }, all, numN},
			}},
		{name: "params", single: true, differ: never,
			set:  func(x ident) { k.SetParams(ctx, funderstypes.Params{MinFundingMultiple: x.v}) },
			read: func(x ident) (any, bool) { p := k.GetParams(ctx); return &p, p.MinFundingMultiple != 0 },
			want: func(x ident) any { return &funderstypes.Params{MinFundingMultiple: x.v} }},
	}
}

func bundlesKinds(w *World) []kind {
	k, ctx := w.Bundles, w.Ctx
	prop := func(x ident) bundlestypes.BundleProposal {
		return bundlestypes.BundleProposal{PoolId: x.n, Uploader: x.a, UpdatedAt: x.v}
	}
	fin := func(x ident) bundlestypes.FinalizedBundle {
		return bundlestypes.FinalizedBundle{PoolId: x.n, Id: x.m, FromIndex: x.m, ToIndex: x.v, StakeSecurity: &bundlestypes.StakeSecurity{}}
	}
	prog := func(x ident) bundlestypes.RoundRobinProgress {
		return bundlestypes.RoundRobinProgress{PoolId: x.n, ProgressList: []*bundlestypes.RoundRobinSingleValidatorProgress{{Address: x.a, Progress: int64(x.v)}}}
	}
	ver := func(x ident) bundlestypes.BundleVersionMap {
		return bundlestypes.BundleVersionMap{Versions: []*bundlestypes.BundleVersionEntry{{Height: x.v, Version: 2}}}
	}
	return []kind{
		{name: "proposal", differ: byN,
			set:  func(x ident) { k.SetBundleProposal(ctx, prop(x)) },
			read: func(x ident) (any, bool) { s, f := k.GetBundleProposal(ctx, x.n); return &s, f },
			want: func(x ident) any { s := prop(x); return &s },
			lists: []listing{
				{"proposals", func(ident) []any { return anys(k.GetAllBundleProposals(ctx)) }, all, numN},
			}},
		{name: "finalized bundle", differ: byNM,
			set:  func(x ident) { k.SetFinalizedBundle(ctx, fin(x)) },
			read: func(x ident) (any, bool) { s, f := k.GetFinalizedBundle(ctx, x.n, x.m); return &s, f },
			want: func(x ident) any { s := fin(x); return &s },
			lists: []listing{
				{"finalized bundles", func(ident) []any { return anys(k.GetAllFinalizedBundles(ctx)) }, all, nil},
				{"finalized bundles of a pool", func(q ident) []any { return anys(k.GetFinalizedBundlesByPool(ctx, q.n)) }, sameN, numM},
			}},
		{name: "uploader rotation", differ: byN,
			set:  func(x ident) { k.SetRoundRobinProgress(ctx, prog(x)) },
			read: func(x ident) (any, bool) { s, f := k.GetRoundRobinProgress(ctx, x.n); return &s, f },
			want: func(x ident) any { s := prog(x); return &s },
			lists: []listing{
				{"uploader rotations", func(ident) []any { return anys(k.GetAllRoundRobinProgress(ctx)) }, all, numN},
			}},
		{name: "version map", single: true, differ: never,
			set:  func(x ident) { k.SetBundleVersionMap(ctx, ver(x)) },
			read: func(x ident) (any, bool) { s := k.GetBundleVersionMap(ctx); return &s, len(s.Versions) > 0 },
			want: func(x ident) any { s := ver(x); return &s }},
		{name: "params", single: true, differ: never,
			set: func(x ident) {
				k.SetParams(ctx, bundlestypes.Params{UploadTimeout: x.v, MaxPoints: x.n, NetworkFee: math.LegacyZeroDec()})
			},
			read: func(x ident) (any, bool) {
				p := k.GetParams(ctx)
				return &pooltypes.Pool{Id: p.UploadTimeout, TotalBundles: p.MaxPoints}, p.UploadTimeout != 0
			},
			want: func(x ident) any { return &pooltypes.Pool{Id: x.v, TotalBundles: x.n} }},
	}
}

func poolKinds(w *World) []kind {
	k, ctx := w.Pool, w.Ctx
	pool := func(x ident) pooltypes.Pool { return pooltypes.Pool{Id: x.n, Name: "p", MinDelegation: x.v} }
	return []kind{
		{name: "pool", differ: byN,
			set:    func(x ident) { k.SetPool(ctx, pool(x)) },
			remove: func(x ident) { k.RemovePool(ctx, x.n) },
			read: func(x ident) (any, bool) {
				s, f := k.GetPool(ctx, x.n)
				return &pooltypes.Pool{Id: s.Id, Name: s.Name, MinDelegation: s.MinDelegation}, f
			},
			want: func(x ident) any { s := pool(x); return &s },
			lists: []listing{
				{"pools", func(ident) (out []any) {
					for _, s := range k.GetAllPools(ctx) {
						out = append(out, &pooltypes.Pool{Id: s.Id, Name: s.Name, MinDelegation: s.MinDelegation})
					}
					return
				}, all, numN},
			}},
		{name: "pool count", single: true, differ: never,
			set:  func(x ident) { k.SetPoolCount(ctx, x.v) },
			read: func(x ident) (any, bool) { n := k.GetPoolCount(ctx); return &pooltypes.Pool{Id: n}, n != 0 },
			want: func(x ident) any { return &pooltypes.Pool{Id: x.v} }},
		{name: "params", single: true, differ: never,
			set: func(x ident) {
				k.SetParams(ctx, pooltypes.NewParams(math.LegacyNewDec(int64(x.v)), math.LegacyZeroDec(), math.LegacyOneDec()))
			},
			read: func(x ident) (any, bool) {
				p := k.GetParams(ctx)
				return &p, !p.ProtocolInflationShare.IsNil() && p.ProtocolInflationShare.IsPositive()
			},
			want: func(x ident) any {
				p := pooltypes.NewParams(math.LegacyNewDec(int64(x.v)), math.LegacyZeroDec(), math.LegacyOneDec())
				return &p
			}},
	}
}

func teamKinds(w *World) []kind {
	k, ctx := w.Team, w.Ctx
	acc := func(x ident) teamtypes.TeamVestingAccount {
		return teamtypes.TeamVestingAccount{Id: x.n, TotalAllocation: x.v, Commencement: x.m}
	}
	return []kind{
		{name: "vesting account", differ: byN,
			set:  func(x ident) { k.SetTeamVestingAccount(ctx, acc(x)) },
			read: func(x ident) (any, bool) { s, f := k.GetTeamVestingAccount(ctx, x.n); return &s, f },
			want: func(x ident) any { s := acc(x); return &s },
			lists: []listing{
				{"vesting accounts", func(ident) []any { return anys(k.GetTeamVestingAccounts(ctx)) }, all, numN},
			}},
		{name: "account count", single: true, differ: never,
			set: func(x ident) { k.SetTeamVestingAccountCount(ctx, x.v) },
			read: func(x ident) (any, bool) {
				n := k.GetTeamVestingAccountCount(ctx)
				return &pooltypes.Pool{Id: n}, n != 0
			},
			want: func(x ident) any { return &pooltypes.Pool{Id: x.v} }},
		{name: "authority", single: true, differ: never,
			set:  func(x ident) { k.SetAuthority(ctx, teamtypes.Authority{TotalRewards: x.v, RewardsClaimed: x.n}) },
			read: func(x ident) (any, bool) { s := k.GetAuthority(ctx); return &s, s.TotalRewards != 0 },
			want: func(x ident) any { return &teamtypes.Authority{TotalRewards: x.v, RewardsClaimed: x.n} }},
	}
}

// apart checks that two records do not touch each other.
func apart(kinds []kind, w *World) {
	i := vs.Choose("first", len(kinds))
	j := vs.Choose("second", len(kinds))
	vs.Assume(i <= j)
	one, two := kinds[i], kinds[j]
	vs.Assume(i != j || !one.single)
	x, y := idents()
	if i == j {
		vs.Assume(one.differ(x, y))
	}
	if two.single {
		two.set(x) // these exist from the first block on
	}
	before := w.Dump(true)
	one.set(x)
	if !two.single {
		_, found := two.read(y)
		vs.Assert(!found, "a "+two.name+" which was not stored is not found")
	}
	two.set(y)
	a, f := one.read(x)
	b, g := two.read(y)
	vs.Assert(f && vs.SameMsg(a, one.want(x)), "a "+one.name+" is not changed by a "+two.name)
	vs.Assert(g && vs.SameMsg(b, two.want(y)), "a "+two.name+" is found as it was stored")
	if one.remove != nil && two.remove != nil {
		two.remove(y)
		a, f = one.read(x)
		_, g = two.read(y)
		vs.Assert(f && vs.SameMsg(a, one.want(x)), "a "+one.name+" remains if a "+two.name+" is removed")
		vs.Assert(!g, "a removed "+two.name+" is gone")
		one.remove(x)
		vs.Assert(SameDump(before, w.Dump(true)), "removing a "+one.name+" leaves nothing behind")
	}
	vs.Reach("two records")
}

// listed checks that lists contain exactly the matching records.
func listed(kinds []kind) {
	var ks []kind
	for _, k := range kinds {
		if len(k.lists) > 0 {
			ks = append(ks, k)
		}
	}
	k := ks[vs.Choose("kind", len(ks))]
	l := k.lists[vs.Choose("list", 3)%len(k.lists)]
	x, y := idents()
	vs.Assume(k.differ(x, y))
	q := x
	q.n, q.m = vs.U64("qn", 0, u64max), vs.U64("qm", 0, u64max)
	if vs.Fork(vs.Bool("query for the first one")) {
		q.n = x.n
	}
	k.set(x)
	k.set(y)
	out := l.get(q)
	n := 0
	for _, r := range []ident{x, y} {
		found := false
		for _, o := range out {
			if vs.SameMsg(o, k.want(r)) {
				found = true
			}
		}
		match := l.match(q, r)
		if match {
			n++
		}
		vs.Assert(found == match, "the list of "+l.name+" contains exactly the matching ones")
	}
	vs.Assert(len(out) == n, "the list of "+l.name+" contains nothing else")
	if n == 2 && l.by != nil {
		first := x
		if l.by(y) < l.by(x) {
			first = y
		}
		vs.Assert(vs.SameMsg(out[0], k.want(first)), "the list of "+l.name+" is sorted")
	}
	vs.Reach("list")
}

func H_X04_stakers()         { w := NewWorld(); apart(stakersKinds(w), w) }
func H_X04_delegation()      { w := NewWorld(); apart(delegationKinds(w), w) }
func H_X04_funders()         { w := NewWorld(); apart(fundersKinds(w), w) }
func H_X04_bundles()         { w := NewWorld(); apart(bundlesKinds(w), w) }
func H_X04_pool()            { w := NewWorld(); apart(poolKinds(w), w) }
func H_X04_team()            { w := NewWorld(); apart(teamKinds(w), w) }
func H_X04_stakers_list()    { listed(stakersKinds(NewWorld())) }
func H_X04_delegation_list() { listed(delegationKinds(NewWorld())) }
func H_X04_funders_list()    { listed(fundersKinds(NewWorld())) }
func H_X04_bundles_list()    { listed(bundlesKinds(NewWorld())) }
func H_X04_pool_list()       { listed(poolKinds(NewWorld())) }
func H_X04_team_list()       { listed(teamKinds(NewWorld())) }
