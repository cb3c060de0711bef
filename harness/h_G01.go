//verif:use lib_global.go
//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"math/big"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	"github.com/KYVENetwork/chain/x/global"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// G01: a transaction executes only if its fee covers gas limit times minimum gas price, and
// messages consume their surcharge.

func H_G01_price() {
	f := feesWorld()
	price := vs.Dec("price", "0", "1000000000000000000000000000") // 10^9 tokens per gas
	f.setGlobalParams(price, dec("0"), nil, nil)
	g01run(f, price, []string{DENOM})
}

func H_G01_coins() {
	f := feesWorld()
	price := dec([]string{"0", "0.02", "1.5"}[vs.Choose("price", 3)])
	f.setGlobalParams(price, dec("0"), nil, nil)
	lists := [][]string{{}, {coinB}, {coinB, DENOM}, {DENOM, coinC}, {coinC, DENOM}, {DENOM, DENOM}, {coinB, DENOM, coinC}}
	g01run(f, price, lists[vs.Choose("coins", len(lists))])
}

func H_G01_granter() {
	f := feesWorld()
	f.setGlobalParams(dec("0.02"), dec("0"), nil, nil)
	gas := vs.U64("gas", 1, 1<<40)
	fee := feeAmt("fee")
	limit := feeAmt("limit")
	f.account(ALICE)
	f.account(BOB)
	f.Give(Acc(ALICE), DENOM, math.NewIntFromUint64(5))
	has := feeAmt("has")
	f.Give(Acc(BOB), DENOM, has)
	kind := vs.Choose("allowance", 3) // none, limited, unlimited
	switch kind {
	case 1:
		vs.Assume(limit.IsPositive())
		f.allow(BOB, ALICE, coins(sdk.NewCoin(DENOM, limit)))
	case 2:
		f.allow(BOB, ALICE, nil)
	}
	vs.Assume(fee.IsPositive())
	tx := feeTx{fee: coins(sdk.NewCoin(DENOM, fee)), gas: gas, payer: Acc(ALICE), granter: Acc(BOB)}
	ok := f.ante(tx, false)
	need := vs.FloorDiv(add(mul(bi(gas), big.NewInt(2)), big.NewInt(99)), big.NewInt(100))
	can := vs.And(fee.BigInt().Cmp(need) >= 0, fee.LTE(has))
	switch kind {
	case 0:
		can = false
	case 1:
		can = vs.And(can, fee.LTE(limit))
	}
	vs.Assert(vs.Iff(ok, can), "a granted fee is accepted exactly if it is high enough and within the allowance and balance")
	if ok {
		vs.Assert(eq(f.collected(DENOM), fee.BigInt()) && eq(f.BalU(BOB), sub(has.BigInt(), fee.BigInt())) && eq(f.BalU(ALICE), bi(5)), "the granter pays the fee")
	}
}

func H_G01_checktx() {
	f := feesWorld()
	price := dec([]string{"0", "0.02", "1.5"}[vs.Choose("price", 3)])
	vprice := dec([]string{"0", "0.01", "0.02", "3"}[vs.Choose("vprice", 4)])
	f.setGlobalParams(price, dec("0"), nil, nil)
	f.Ctx = f.Ctx.WithIsCheckTx(true).WithMinGasPrices(sdk.NewDecCoins(sdk.NewDecCoinFromDec(DENOM, vprice)))
	if vprice.GT(price) {
		price = vprice
	}
	g01run(f, price, []string{DENOM})
}

func H_G01_surcharge() {
	f := feesWorld()
	all := []sdk.Msg{&bundlestypes.MsgVoteBundleProposal{}, &stakerstypes.MsgCreateStaker{}, &bundlestypes.MsgSkipUploaderRole{}}
	var adj []globaltypes.GasAdjustment
	a := vs.U64("a", 0, 1<<62)
	b := vs.U64("b", 0, 1<<62)
	adj = append(adj, globaltypes.GasAdjustment{Type: sdk.MsgTypeURL(all[0]), Amount: a}, globaltypes.GasAdjustment{Type: sdk.MsgTypeURL(all[1]), Amount: b})
	f.setGlobalParams(dec("0"), dec("0"), adj, nil)
	n := vs.Choose("n", 3) + 1
	var msgs []sdk.Msg
	want := new(big.Int)
	for i := 0; i < n; i++ {
		k := vs.Choose("msg", 3)
		msgs = append(msgs, all[k])
		if k == 0 {
			want = add(want, bi(a))
		} else if k == 1 {
			want = add(want, bi(b))
		}
	}
	base, ok := f.gas(nil, u64max)
	vs.Assert(ok, "no messages, no surcharge")
	limit := vs.U64("limit", 1<<30, u64max)
	got, ok := f.gas(msgs, limit)
	total := add(bi(base), want)
	vs.Assert(vs.Iff(ok, le(total, bi(limit))), "a transaction continues exactly if its gas limit covers the surcharges")
	if ok {
		vs.Assert(eq(bi(got), total), "every message consumes its surcharge once")
	}
}

// gas runs the gas adjustment decorator with a gas limit.
func (f *fees) gas(msgs []sdk.Msg, limit uint64) (uint64, bool) {
	called := false
	ctx := f.Ctx.WithGasMeter(storetypes.NewGasMeter(limit))
	e := guard(func() error {
		_, e := global.NewGasAdjustmentDecorator(f.Global).AnteHandle(ctx, feeTx{msgs: msgs}, false, func(ctx sdk.Context, _ sdk.Tx, _ bool) (sdk.Context, error) {
			called = true
			return ctx, nil
		})
		return e
	})
	vs.Assert((e == nil) == called, "the next handler runs if there is no error")
	return ctx.GasMeter().GasConsumed(), e == nil
}

func g01run(f *fees, price math.LegacyDec, denoms []string) {
	height := 1
	if len(denoms) == 1 {
		height = vs.Choose("height", 3) // 1, 2, later
	}
	f.Ctx = f.Ctx.WithBlockHeight([]int64{1, 2, 5_000_000}[height])
	gas := vs.U64("gas", 0, u64max)
	var fee sdk.Coins
	bond := new(big.Int)
	for _, d := range denoms {
		a := feeAmt("fee")
		fee = append(fee, sdk.Coin{Denom: d, Amount: a})
		if d == DENOM {
			bond = add(bond, a.BigInt())
		}
	}
	f.account(ALICE)
	rich := vs.Choose("rich", 2) == 0
	for _, d := range fDenoms {
		have, _ := math.NewIntFromString(bigFee)
		if !rich {
			have = math.NewInt(7)
		}
		f.Give(Acc(ALICE), d, have)
	}
	before := f.Bank.snap()
	ok := f.ante(feeTx{fee: fee, gas: gas, payer: Acc(ALICE)}, false)
	cost := mul(price.BigInt(), bi(gas)) // times 10^18
	enough := le(cost, mul(bond, one18))
	if height > 0 {
		vs.Assert(vs.Or(vs.Not(ok), enough), "no transaction executes below the minimum gas price")
	}
	vs.Assert(vs.Or(vs.Not(ok), gas > 0), "no transaction executes without gas")
	if ok {
		vs.Reach("accepted")
		for _, d := range fDenoms {
			paid := new(big.Int)
			for _, c := range fee {
				if c.Denom == d {
					paid = add(paid, c.Amount.BigInt())
				}
			}
			vs.Assert(vs.And(eq(f.collected(d), paid), eq(f.Bal(Acc(ALICE), d), sub(before.get(Acc(ALICE), d).BigInt(), paid))), "the offered fee is collected from the payer")
		}
		return
	}
	vs.Reach("rejected")
	vs.Assert(SameBank(before, f.Bank), "a rejected transaction moves nothing")
	if rich && height > 0 && valid(fee) {
		vs.Assert(vs.Or(vs.Not(enough), gas == 0), "a sufficient fee is not rejected")
	}
}

func valid(c sdk.Coins) bool { return len(c) == 0 || c.IsValid() }
