//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_funders.go
//verif:use lib_pool.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// p04pool is a pool with history; every field that is not text is arbitrary.
func p04pool(n string) pooltypes.Pool {
	return pooltypes.Pool{Name: "n", Runtime: "r", Logo: "l", Config: "c", StartKey: "0", CurrentKey: "7", CurrentSummary: "s", EndKey: "99",
		CurrentIndex: vs.U64(n+".index", 0, u64max), TotalBundles: vs.U64(n+".bundles", 0, u64max),
		UploadInterval: vs.U64(n+".interval", 0, u64max), InflationShareWeight: vs.Dec(n+".weight", "0", "1000000000000000000000"),
		MinDelegation: vs.U64(n+".min", 0, u64max), MaxBundleSize: vs.U64(n+".max", 0, u64max),
		Disabled: vs.Choose(n+".disabled", 2) == 1, Protocol: &pooltypes.Protocol{Version: "1", Binaries: "{}", LastUpgrade: vs.U64(n+".upgraded", 0, u64max)},
		UpgradePlan:              &pooltypes.UpgradePlan{Version: "2", Binaries: "b", ScheduledAt: vs.U64(n+".at", 0, u64max), Duration: vs.U64(n+".dur", 0, u64max)},
		CurrentStorageProviderId: uint32(vs.U64(n+".storage", 0, 1<<32-1)), CurrentCompressionId: uint32(vs.U64(n+".compression", 0, 1<<32-1))}
}

func p04world() *World {
	w := stakersWorld(3, 0)
	w.setPoolParams("0.1", "0.05", "1")
	w.Pool.AppendPool(w.Ctx, basePool(dec("2")))
	w.Pool.AppendPool(w.Ctx, p04pool("p"))
	for i := uint64(0); i < 2; i++ {
		w.Funders.CreateFundingState(w.Ctx, i)
		w.Give(w.poolAcc(i), DENOM, math.NewInt(int64(10+i)))
		for j := range STAKERS[:3] {
			if j != int(i) {
				w.Stakers.AddValaccountToPool(w.Ctx, i, STAKERS[j], [][]string{VALSA, VALSB}[i][j])
			}
		}
	}
	w.mustDelegate(STAKER1, STAKER1, 1000)
	return w
}

var callers = []string{GOV, ALICE, ""}

type p04field struct {
	name string
	put  func(p *pooltypes.Pool)
	val  any
	bad  bool
}

// H_P04_update: any subset "one field / all but one / all / none" with any values, any caller, any pool.
func H_P04_update() {
	w := p04world()
	iv, md, mx := vs.U64("new.interval", 0, u64max), vs.U64("new.min", 0, u64max), vs.U64("new.max", 0, u64max)
	wt := vs.Dec("new.weight", "-1000", "1000000000000000000000")
	sp, cp := uint32(vs.U64("new.storage", 0, 1<<32-1)), uint32(vs.U64("new.compression", 0, 1<<32-1))
	name := []string{"new", ""}[vs.Choose("text", 2)]
	fields := []p04field{
		{"Name", func(p *pooltypes.Pool) { p.Name = name }, name, false},
		{"Runtime", func(p *pooltypes.Pool) { p.Runtime = "rt" + name }, "rt" + name, false},
		{"Logo", func(p *pooltypes.Pool) { p.Logo = "lo" + name }, "lo" + name, false},
		{"Config", func(p *pooltypes.Pool) { p.Config = "co" + name }, "co" + name, false},
		{"EndKey", func(p *pooltypes.Pool) { p.EndKey = "ek" + name }, "ek" + name, false},
		{"UploadInterval", func(p *pooltypes.Pool) { p.UploadInterval = iv }, iv, false},
		{"InflationShareWeight", func(p *pooltypes.Pool) { p.InflationShareWeight = wt }, wt, false},
		{"MinDelegation", func(p *pooltypes.Pool) { p.MinDelegation = md }, md, false},
		{"MaxBundleSize", func(p *pooltypes.Pool) { p.MaxBundleSize = mx }, mx, false},
		{"StorageProviderId", func(p *pooltypes.Pool) { p.CurrentStorageProviderId = sp }, sp, false},
		{"CompressionId", func(p *pooltypes.Pool) { p.CurrentCompressionId = cp }, cp, false},
	}
	n := len(fields)
	k := vs.Choose("fields", 2*n+2)
	caller := callers[vs.Choose("caller", 3)]
	id := uint64(vs.Choose("pool", 3))
	if k > 1 && k < 2*n {
		id = 1
	}
	before := []pooltypes.Pool{w.pool(0), w.pool(1)}
	want := w.pool(id % 2)
	var names []string
	var vals []any
	ok := caller == GOV && id < 2
	for i, f := range fields {
		if k == i || k == 2*n || (k >= n && k < 2*n && k != n+i) {
			names = append(names, f.name)
			vals = append(vals, f.val)
			f.put(&want)
			switch f.name {
			case "UploadInterval":
				ok = ok && vs.Fork(iv > 0)
			case "MaxBundleSize":
				ok = ok && vs.Fork(mx > 0)
			case "InflationShareWeight":
				ok = ok && !vs.Fork(wt.IsNegative())
			}
		}
	}
	msg := &pooltypes.MsgUpdatePool{Authority: caller, Id: id, Payload: vs.JSON(names, vals)}
	store, bank := w.Dump(false), w.Bank.snap()
	e := w.Tx(func(ctx sdk.Context) error {
		if e := msg.ValidateBasic(); e != nil {
			return e
		}
		_, e := pmsg(w).UpdatePool(ctx, msg)
		return e
	})
	vs.Assert((e == nil) == ok, "a pool is updated by governance, with valid values")
	vs.Assert(SameBank(bank, w.Bank), "no coins move")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(false)), "a rejected update changes nothing")
		vs.Reach("rejected")
		return
	}
	w.samePool(w.pool(id), want, "exactly the supplied fields change")
	w.Pool.SetPool(w.Ctx, before[id])
	vs.Assert(SameDump(store, w.Dump(false)), "nothing but the pool changes")
	vs.Reach("updated")
}

// H_P04_create: any configuration, any caller.
func H_P04_create() {
	w := p04world()
	caller := callers[vs.Choose("caller", 3)]
	bin := []string{"{}", "{\"linux\":\"x\"}", "", "nojson"}[vs.Choose("binaries", 4)]
	now := vs.I64("now", 0, 5_000_000_000)
	w.At(1000, now)
	m := &pooltypes.MsgCreatePool{Authority: caller, Name: "nn", Runtime: "rr", Logo: "ll", Config: "cc", StartKey: "5", EndKey: []string{"", "77"}[vs.Choose("end", 2)], Version: "v", Binaries: bin,
		UploadInterval: vs.U64("interval", 0, u64max), InflationShareWeight: vs.Dec("weight", "-1000", "1000000000000000000000"), MinDelegation: vs.U64("min", 0, u64max), MaxBundleSize: vs.U64("max", 0, u64max),
		StorageProviderId: uint32(vs.U64("storage", 0, 1<<32-1)), CompressionId: uint32(vs.U64("compression", 0, 1<<32-1))}
	ok := caller == GOV && (bin == "{}" || len(bin) > 6) && vs.Fork(vs.And(m.UploadInterval > 0, !m.InflationShareWeight.IsNegative(), m.MaxBundleSize > 0))
	store, bank := w.Dump(false), w.Bank.snap()
	e := w.Tx(func(ctx sdk.Context) error {
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := pmsg(w).CreatePool(ctx, m)
		return e
	})
	vs.Assert((e == nil) == ok, "a pool is created by governance, with valid values")
	vs.Assert(SameBank(bank, w.Bank), "no coins move")
	if e != nil {
		vs.Assert(SameDump(store, w.Dump(false)), "a rejected request changes nothing")
		return
	}
	vs.Assert(w.Pool.GetPoolCount(w.Ctx) == 3 && len(w.Pool.GetAllPools(w.Ctx)) == 3, "exactly one pool is added")
	w.samePool(w.pool(2), pooltypes.Pool{Id: 2, Name: "nn", Runtime: "rr", Logo: "ll", Config: "cc", StartKey: "5", EndKey: m.EndKey, UploadInterval: m.UploadInterval, InflationShareWeight: m.InflationShareWeight,
		MinDelegation: m.MinDelegation, MaxBundleSize: m.MaxBundleSize, Protocol: &pooltypes.Protocol{Version: "v", Binaries: bin, LastUpgrade: uint64(now)}, UpgradePlan: &pooltypes.UpgradePlan{},
		CurrentStorageProviderId: m.StorageProviderId, CurrentCompressionId: m.CompressionId}, "a created pool is empty, with the given configuration")
	fs, found := w.Funders.GetFundingState(w.Ctx, 2)
	vs.Assert(found && len(fs.ActiveFunderAddresses) == 0 && fs.PoolId == 2, "a created pool can be funded")
	vs.Assert(w.Stakers.GetStakerCountOfPool(w.Ctx, 2) == 0, "a created pool has no validators")
	// everything else is as before
	w.Pool.RemovePool(w.Ctx, 2)
	w.Pool.SetPoolCount(w.Ctx, 2)
	vs.Assert(w.sameExceptFundingState(store, 2), "nothing else changes")
	vs.Reach("created")
}

// sameExceptFundingState: as the dump except for the (empty) funding state of one pool.
func (w *World) sameExceptFundingState(store []Entry, pool uint64) bool {
	after := w.Dump(false)
	if len(after) != len(store)+1 {
		return false
	}
	r, skipped := true, 0
	for i, j := 0, 0; i < len(after); i++ {
		if j < len(store) && after[i].Store == store[j].Store && string(after[i].K) == string(store[j].K) {
			r = vs.And(r, vs.SameBytes(after[i].V, store[j].V))
			j++
			continue
		}
		skipped++
		r = r && modNames[after[i].Store] == funderstypes.StoreKey
	}
	return r && skipped == 1
}

// H_P04_switch: enabling and disabling, any caller, any pool, with members and pending requests.
func H_P04_switch() {
	w := p04world()
	caller := callers[vs.Choose("caller", 3)]
	id := uint64(vs.Choose("pool", 3))
	bal := vs.U64("balance", 0, stakeCap)
	if id < 2 {
		w.Bank.set(w.poolAcc(id), DENOM, math.NewIntFromUint64(bal))
	}
	must(w.leave(STAKER2, 1))
	must(w.leave(STAKER2, 0))
	before := w.pool(id % 2)
	other := w.pool(1 - id%2)
	members := w.members(2)
	bank, store := w.Bank.snap(), w.Dump(false)
	deleg, fnd := w.DumpStore(3, false), w.DumpStore(4, false)
	if vs.Choose("op", 2) == 0 {
		e := w.Tx(func(ctx sdk.Context) error {
			m := &pooltypes.MsgEnablePool{Authority: caller, Id: id}
			if e := m.ValidateBasic(); e != nil {
				return e
			}
			_, e := pmsg(w).EnablePool(ctx, m)
			return e
		})
		vs.Assert((e == nil) == (caller == GOV && id < 2 && before.Disabled), "a disabled pool is enabled by governance")
		vs.Assert(SameBank(bank, w.Bank), "no coins move")
		if e == nil {
			p := w.pool(id)
			vs.Assert(!p.Disabled, "the pool is enabled")
			p.Disabled = true
			w.Pool.SetPool(w.Ctx, p)
			vs.Reach("enabled")
		}
		vs.Assert(SameDump(store, w.Dump(false)), "nothing else changes")
		return
	}
	e := w.Tx(func(ctx sdk.Context) error {
		m := &pooltypes.MsgDisablePool{Authority: caller, Id: id}
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := pmsg(w).DisablePool(ctx, m)
		return e
	})
	vs.Assert((e == nil) == (caller == GOV && id < 2 && !before.Disabled), "an enabled pool is disabled by governance")
	if e != nil {
		vs.Assert(vs.And(SameBank(bank, w.Bank), SameDump(store, w.Dump(false))), "a rejected request changes nothing")
		return
	}
	before.Disabled = true
	w.samePool(w.pool(id), before, "only the disabled mark of the pool changes")
	w.samePool(w.pool(1-id), other, "other pools are not touched")
	vs.Assert(vs.And(SameDump(deleg, w.DumpStore(3, false)), SameDump(fnd, w.DumpStore(4, false))), "delegations and fundings are not touched")
	vs.Assert(w.Stakers.GetStakerCountOfPool(w.Ctx, id) == 0, "all validators leave the pool")
	for i := range STAKERS[:3] {
		k := nm("%s|%d", STAKERS[i], 1-id)
		a, x := members[k]
		b, y := w.members(2)[k]
		vs.Assert(x == y, "validators of other pools stay")
		if x && y {
			vs.Assert(vs.SameMsg(&a, &b), "validators of other pools stay")
		}
		vs.Assert(!w.member(STAKERS[i], id), "all validators leave the pool")
	}
	w.checkMembership(2)
	vs.Assert(eq(w.Bal(w.poolAcc(id), DENOM), bi(0)), "the pool's balance leaves the pool")
	vs.Assert(eq(w.treasury(), bi(bal)), "the pool's balance goes to the treasury")
	w.Bank.set(w.poolAcc(id), DENOM, math.NewIntFromUint64(bal))
	w.Bank.set(ModAddr("distribution"), DENOM, math.ZeroInt())
	vs.Assert(SameBank(bank, w.Bank), "no other coins move")
	vs.Reach("disabled")
}
