//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundleskeeper "github.com/KYVENetwork/chain/x/bundles/keeper"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationkeeper "github.com/KYVENetwork/chain/x/delegation/keeper"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderskeeper "github.com/KYVENetwork/chain/x/funders/keeper"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globalkeeper "github.com/KYVENetwork/chain/x/global/keeper"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X01: parameters change only by governance, exactly as asked, and stay valid.

// param is one field of an update: its new value, whether that is out of range, and its effect on the expected result.
type param struct {
	name string
	val  any
	bad  bool
	put  func()
}

// update sends an update of some of the fields and compares the result with what the fields' effects say.
func (w *World) update(fields []param, send func(ctx sdk.Context, authority, payload string) error, stored func() bool, undo func()) {
	n := len(fields)
	var names []string
	var vals []any
	bad := false
	use := func(i int) {
		names = append(names, fields[i].name)
		vals = append(vals, fields[i].val)
		bad = vs.Or(bad, fields[i].bad)
		fields[i].put()
	}
	if vs.Thorough() {
		for i := range fields {
			if vs.Choose("with", 2) == 1 {
				use(i)
			}
		}
	} else {
		switch k := vs.Choose("which", 2*n+2); {
		case k < n: // one field
			use(k)
		case k < 2*n: // all but one, last to first
			for i := n - 1; i >= 0; i-- {
				if i != k-n {
					use(i)
				}
			}
		case k == 2*n:
			for i := range fields {
				use(i)
			}
		}
	}
	caller := []string{GOV, ALICE, ""}[vs.Choose("caller", 3)]
	before, bank := w.Dump(true), w.Bank.snap()
	payload := vs.JSON(names, vals)
	if len(names) == 0 {
		payload = []string{"{}", "null", "", "{", "7"}[vs.Choose("payload", 5)]
	}
	garbage := payload == "" || payload == "{" || payload == "7"
	e := w.Tx(func(ctx sdk.Context) error { return send(ctx, caller, payload) })
	vs.Assert(vs.Iff(e == nil, vs.And(caller == GOV, !garbage, vs.Not(bad))), "parameters are updated exactly by governance with values in range")
	vs.Assert(SameBank(bank, w.Bank), "parameter updates move nothing")
	if e == nil {
		vs.Reach("updated")
		vs.Assert(stored(), "exactly the given parameters change")
		undo()
	}
	vs.Assert(SameDump(before, w.Dump(true)), "nothing but the module's parameters changes")
}

func negDec(d math.LegacyDec) bool { return d.BigInt().Sign() < 0 }

func H_X01_pool() {
	w := NewWorld()
	old := pooltypes.Params{ProtocolInflationShare: okDec("share"), PoolInflationPayoutRate: okDec("rate"), MaxVotingPowerPerPool: okDec("power")}
	w.Pool.SetParams(w.Ctx, old)
	want := old
	a, b, c := anyDec("new.share"), anyDec("new.rate"), anyDec("new.power")
	w.update([]param{
		{"protocol_inflation_share", a, notShare(a), func() { want.ProtocolInflationShare = a }},
		{"pool_inflation_payout_rate", b, notShare(b), func() { want.PoolInflationPayoutRate = b }},
		{"max_voting_power_per_pool", c, notShare(c), func() { want.MaxVotingPowerPerPool = c }},
	}, func(ctx sdk.Context, auth, payload string) error {
		m := &pooltypes.MsgUpdateParams{Authority: auth, Payload: payload}
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := pmsg(w).UpdateParams(ctx, m)
		return e
	}, func() bool {
		p := w.Pool.GetParams(w.Ctx)
		return vs.SameMsg(&p, &want)
	}, func() { w.Pool.SetParams(w.Ctx, old) })
}

func H_X01_stakers() {
	w := NewWorld()
	old := stakerstypes.Params{CommissionChangeTime: vs.U64("commission", 0, u64max), LeavePoolTime: vs.U64("leave", 0, u64max)}
	w.Stakers.SetParams(w.Ctx, old)
	want := old
	a, b := vs.U64("new.commission", 0, u64max), vs.U64("new.leave", 0, u64max)
	w.update([]param{
		{"commission_change_time", a, false, func() { want.CommissionChangeTime = a }},
		{"leave_pool_time", b, false, func() { want.LeavePoolTime = b }},
	}, func(ctx sdk.Context, auth, payload string) error {
		m := &stakerstypes.MsgUpdateParams{Authority: auth, Payload: payload}
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := smsg(w).UpdateParams(ctx, m)
		return e
	}, func() bool {
		p := w.Stakers.GetParams(w.Ctx)
		return vs.SameMsg(&p, &want)
	}, func() { w.Stakers.SetParams(w.Ctx, old) })
}

func H_X01_delegation() {
	w := NewWorld()
	old := delegationtypes.Params{UnbondingDelegationTime: vs.U64("unbonding", 0, u64max), RedelegationCooldown: vs.U64("cooldown", 0, u64max), RedelegationMaxAmount: vs.U64("max", 0, u64max),
		VoteSlash: okDec("vote"), UploadSlash: okDec("upload"), TimeoutSlash: okDec("timeout")}
	w.Delegation.SetParams(w.Ctx, old)
	want := old
	a, b, c := vs.U64("new.unbonding", 0, u64max), vs.U64("new.cooldown", 0, u64max), vs.U64("new.max", 0, u64max)
	d, f, g := anyDec("new.vote"), anyDec("new.upload"), anyDec("new.timeout")
	w.update([]param{
		{"unbonding_delegation_time", a, false, func() { want.UnbondingDelegationTime = a }},
		{"redelegation_cooldown", b, false, func() { want.RedelegationCooldown = b }},
		{"redelegation_max_amount", c, false, func() { want.RedelegationMaxAmount = c }},
		{"vote_slash", d, notShare(d), func() { want.VoteSlash = d }},
		{"upload_slash", f, notShare(f), func() { want.UploadSlash = f }},
		{"timeout_slash", g, notShare(g), func() { want.TimeoutSlash = g }},
	}, func(ctx sdk.Context, auth, payload string) error {
		m := &delegationtypes.MsgUpdateParams{Authority: auth, Payload: payload}
		if e := m.ValidateBasic(); e != nil {
			return e
		}
		_, e := delegationkeeper.NewMsgServerImpl(w.Delegation).UpdateParams(ctx, m)
		return e
	}, func() bool {
		p := w.Delegation.GetParams(w.Ctx)
		return vs.SameMsg(&p, &want)
	}, func() { w.Delegation.SetParams(w.Ctx, old) })
}

func (w *World) bundlesUpdate(ctx sdk.Context, auth, payload string) error {
	m := &bundlestypes.MsgUpdateParams{Authority: auth, Payload: payload}
	if e := m.ValidateBasic(); e != nil {
		return e
	}
	_, e := bundleskeeper.NewMsgServerImpl(w.Bundles).UpdateParams(ctx, m)
	return e
}

func H_X01_bundles() {
	w := NewWorld()
	mk := func() bundlestypes.Params {
		return bundlestypes.Params{UploadTimeout: 600, MaxPoints: 24, NetworkFee: dec("0.01"), StorageCosts: []bundlestypes.StorageCost{{StorageProviderId: 1, Cost: dec("0.5")}, {StorageProviderId: 2, Cost: dec("0.25")}}}
	}
	old, want := mk(), mk()
	fee, timeout, points := okDec("fee"), vs.U64("timeout", 1, u64max), vs.U64("points", 1, u64max)
	for _, p := range []*bundlestypes.Params{&old, &want} {
		p.NetworkFee, p.UploadTimeout, p.MaxPoints = fee, timeout, points
	}
	w.Bundles.SetParams(w.Ctx, old)
	a, b, c, d := vs.U64("new.timeout", 0, u64max), vs.U64("new.points", 0, u64max), anyDec("new.fee"), anyDec("new.cost")
	n := vs.Choose("costs", 4)
	var list []any
	var costs []bundlestypes.StorageCost
	for i := 0; i < n; i++ {
		list = append(list, vs.Obj{Names: []string{"storage_provider_id", "cost"}, Vals: []any{uint32(7 + i), d}})
		costs = append(costs, bundlestypes.StorageCost{StorageProviderId: uint32(7 + i), Cost: d})
	}
	w.update([]param{
		{"upload_timeout", a, a == 0, func() { want.UploadTimeout = a }},
		{"storage_costs", list, vs.And(n > 0, negDec(d)), func() { want.StorageCosts = costs }},
		{"max_points", b, b == 0, func() { want.MaxPoints = b }},
		{"network_fee", c, notShare(c), func() { want.NetworkFee = c }},
	}, w.bundlesUpdate, func() bool {
		p := w.Bundles.GetParams(w.Ctx)
		return vs.SameMsg(&p, &want)
	}, func() { w.Bundles.SetParams(w.Ctx, old) })
}

func (w *World) globalUpdate(ctx sdk.Context, auth, payload string) error {
	m := &globaltypes.MsgUpdateParams{Authority: auth, Payload: payload}
	if e := m.ValidateBasic(); e != nil {
		return e
	}
	_, e := globalkeeper.NewMsgServerImpl(w.Global).UpdateParams(ctx, m)
	return e
}

func H_X01_global() {
	w := NewWorld()
	price, burn := vs.Dec("price", "0", "3000000000000000000"), okDec("burn")
	mk := func() globaltypes.Params {
		return globaltypes.Params{MinGasPrice: price, BurnRatio: burn, GasAdjustments: []globaltypes.GasAdjustment{{Type: "/a", Amount: 5}}, GasRefunds: []globaltypes.GasRefund{{Type: "/b", Fraction: dec("0.5")}}}
	}
	old, want := mk(), mk()
	w.Global.SetParams(w.Ctx, old)
	a, b, c, d := anyDec("new.price"), anyDec("new.burn"), vs.U64("new.amount", 0, u64max), anyDec("new.fraction")
	n := vs.Choose("n", 3)
	var adj, ref []any
	var gadj []globaltypes.GasAdjustment
	var gref []globaltypes.GasRefund
	for i := 0; i < n; i++ {
		t := []string{"/x", "/y"}[i]
		adj = append(adj, vs.Obj{Names: []string{"type", "amount"}, Vals: []any{t, c}})
		ref = append(ref, vs.Obj{Names: []string{"type", "fraction"}, Vals: []any{t, d}})
		gadj = append(gadj, globaltypes.GasAdjustment{Type: t, Amount: c})
		gref = append(gref, globaltypes.GasRefund{Type: t, Fraction: d})
	}
	w.update([]param{
		{"min_gas_price", a, negDec(a), func() { want.MinGasPrice = a }},
		{"burn_ratio", b, notShare(b), func() { want.BurnRatio = b }},
		{"gas_adjustments", adj, vs.And(n > 0, c >= 1<<63), func() { want.GasAdjustments = gadj }},
		{"gas_refunds", ref, vs.And(n > 0, notShare(d)), func() { want.GasRefunds = gref }},
	}, w.globalUpdate, func() bool {
		p := w.Global.GetParams(w.Ctx)
		return vs.SameMsg(&p, &want)
	}, func() { w.Global.SetParams(w.Ctx, old) })
}

func (w *World) fundersUpdate(ctx sdk.Context, auth, payload string) error {
	m := &funderstypes.MsgUpdateParams{Authority: auth, Payload: payload}
	if e := m.ValidateBasic(); e != nil {
		return e
	}
	_, e := funderskeeper.NewMsgServerImpl(w.Funders).UpdateParams(ctx, m)
	return e
}

func x01entry(denom string) *funderstypes.WhitelistCoinEntry {
	return &funderstypes.WhitelistCoinEntry{CoinDenom: denom, CoinDecimals: 6, MinFundingAmount: math.NewInt(100), MinFundingAmountPerBundle: math.NewInt(10), CoinWeight: dec("2")}
}

func H_X01_funders() {
	w := NewWorld()
	multiple := vs.U64("multiple", 0, u64max)
	mk := func() funderstypes.Params {
		return funderstypes.Params{MinFundingMultiple: multiple, CoinWhitelist: []*funderstypes.WhitelistCoinEntry{x01entry(DENOM), x01entry(coinB)}}
	}
	old, want := mk(), mk()
	w.Funders.SetParams(w.Ctx, mk())
	a := vs.U64("new.multiple", 0, u64max)
	amount, per, weight, decimals := vs.Int("new.amount", "-5", bigNum), vs.Int("new.per", "-5", bigNum), anyDec("new.weight"), vs.U64("new.decimals", 0, 1<<32-1)
	var list []any
	var entries []*funderstypes.WhitelistCoinEntry
	native := false
	denoms := [][]string{{}, {DENOM}, {coinB}, {coinB, DENOM}, {DENOM, coinB, coinC}, {DENOM, ""}}[vs.Choose("coins", 6)]
	empty := false
	for _, d := range denoms {
		native = native || d == DENOM
		empty = empty || d == ""
		list = append(list, vs.Obj{Names: []string{"coin_denom", "coin_decimals", "min_funding_amount", "min_funding_amount_per_bundle", "coin_weight"}, Vals: []any{d, uint32(decimals), amount, per, weight}})
		entries = append(entries, &funderstypes.WhitelistCoinEntry{CoinDenom: d, CoinDecimals: uint32(decimals), MinFundingAmount: amount, MinFundingAmountPerBundle: per, CoinWeight: weight})
	}
	w.update([]param{
		{"min_funding_multiple", a, false, func() { want.MinFundingMultiple = a }},
		{"coin_whitelist", list, vs.Or(!native, empty, amount.BigInt().Sign() < 0, per.BigInt().Sign() < 0, negDec(weight)), func() { want.CoinWhitelist = entries }},
	}, w.fundersUpdate, func() bool {
		p := w.Funders.GetParams(w.Ctx)
		return vs.SameMsg(&p, &want)
	}, func() { w.Funders.SetParams(w.Ctx, old) })
}

const bigNum = "340282366920938463463374607431768211456"

// H_X01_partial: list entries which leave fields out take them from wherever, but what is stored is valid.
func H_X01_partial() {
	w := NewWorld()
	obj := func(names []string, vals []any) any { return vs.Obj{Names: names, Vals: vals} }
	before := func() []Entry { return w.Dump(true) }
	var e error
	var b []Entry
	valid := func() error { return nil }
	switch vs.Choose("module", 3) {
	case 0:
		order := [][]string{{DENOM}, {DENOM, coinB}, {coinB, DENOM}, {coinC, coinB, DENOM}}[vs.Choose("stored", 4)]
		var l []*funderstypes.WhitelistCoinEntry
		for _, d := range order {
			l = append(l, x01entry(d))
		}
		w.Funders.SetParams(w.Ctx, funderstypes.Params{MinFundingMultiple: 5, CoinWhitelist: l})
		var list []any
		n := vs.Choose("n", 3)
		for i := 0; i < n; i++ {
			switch vs.Choose("entry", 5) {
			case 0:
				list = append(list, obj([]string{"coin_weight"}, []any{anyDec("weight")}))
			case 1:
				list = append(list, obj([]string{"coin_denom"}, []any{DENOM}))
			case 2:
				list = append(list, obj([]string{"coin_denom", "min_funding_amount"}, []any{coinB, vs.Int("amount", "-5", bigNum)}))
			case 3:
				list = append(list, obj([]string{"coin_decimals"}, []any{uint32(18)}))
			case 4:
				list = append(list, obj([]string{"coin_denom", "coin_decimals", "min_funding_amount", "min_funding_amount_per_bundle", "coin_weight"}, []any{coinC, uint32(3), math.NewInt(5), math.NewInt(6), dec("1")}))
			}
		}
		b = before()
		e = w.Tx(func(ctx sdk.Context) error {
			return w.fundersUpdate(ctx, GOV, vs.JSON([]string{"coin_whitelist"}, []any{list}))
		})
		valid = func() error {
			p := w.Funders.GetParams(w.Ctx)
			return p.Validate()
		}
	case 1:
		var l []bundlestypes.StorageCost
		for i, n := 0, vs.Choose("stored", 3); i < n; i++ {
			l = append(l, bundlestypes.StorageCost{StorageProviderId: uint32(i + 1), Cost: dec("0.5")})
		}
		w.Bundles.SetParams(w.Ctx, bundlestypes.Params{UploadTimeout: 600, MaxPoints: 24, NetworkFee: dec("0.01"), StorageCosts: l})
		var list []any
		n := vs.Choose("n", 3)
		for i := 0; i < n; i++ {
			switch vs.Choose("entry", 2) {
			case 0:
				list = append(list, obj([]string{"cost"}, []any{anyDec("cost")}))
			case 1:
				list = append(list, obj([]string{"storage_provider_id"}, []any{uint32(9)}))
			}
		}
		b = before()
		e = w.Tx(func(ctx sdk.Context) error {
			return w.bundlesUpdate(ctx, GOV, vs.JSON([]string{"storage_costs"}, []any{list}))
		})
		valid = func() error { return w.Bundles.GetParams(w.Ctx).Validate() }
	case 2:
		var l []globaltypes.GasRefund
		for i, n := 0, vs.Choose("stored", 3); i < n; i++ {
			l = append(l, globaltypes.GasRefund{Type: "/a", Fraction: dec("0.5")})
		}
		w.Global.SetParams(w.Ctx, globaltypes.Params{MinGasPrice: dec("0"), BurnRatio: dec("0"), GasRefunds: l})
		var list []any
		n := vs.Choose("n", 3)
		for i := 0; i < n; i++ {
			switch vs.Choose("entry", 2) {
			case 0:
				list = append(list, obj([]string{"fraction"}, []any{anyDec("fraction")}))
			case 1:
				list = append(list, obj([]string{"type"}, []any{"/x"}))
			}
		}
		b = before()
		e = w.Tx(func(ctx sdk.Context) error {
			return w.globalUpdate(ctx, GOV, vs.JSON([]string{"gas_refunds"}, []any{list}))
		})
		valid = func() error { return w.Global.GetParams(w.Ctx).Validate() }
	}
	if e != nil {
		vs.Assert(SameDump(b, w.Dump(true)), "a rejected update changes nothing")
		return
	}
	vs.Assert(valid() == nil, "the stored parameters are valid")
}
