//verif:use lib_global.go
//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	"github.com/KYVENetwork/chain/x/global"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// G02: refunds and burns never exceed the fees paid.

func share(frac math.LegacyDec, amt *big.Int) *big.Int {
	return vs.FloorDiv(mul(frac.BigInt(), amt), one18)
}

func symFee(denoms []string, lo string) sdk.Coins {
	var fee sdk.Coins
	for _, d := range denoms {
		fee = append(fee, sdk.Coin{Denom: d, Amount: vs.Int("fee_"+d, lo, bigFee)})
	}
	return fee
}

// post runs the refund decorator as part of a transaction.
func (f *fees) post(tx feeTx, success bool) bool {
	called := 0
	e := f.Tx(func(ctx sdk.Context) error {
		_, e := global.NewRefundFeeDecorator(f.bk, f.fg, f.Global).PostHandle(ctx, tx, false, success, func(ctx sdk.Context, _ sdk.Tx, _, s bool) (sdk.Context, error) {
			called++
			vs.Assert(s == success, "the result is handed on")
			return ctx, nil
		})
		return e
	})
	vs.Assert((e == nil) == (called == 1), "the next handler runs if there is no error")
	return e == nil
}

var refundable = []sdk.Msg{&bundlestypes.MsgSubmitBundleProposal{}, &bundlestypes.MsgVoteBundleProposal{}, &stakerstypes.MsgCreateStaker{}}

func H_G02_refund() {
	f := feesWorld()
	frac := []math.LegacyDec{vs.Dec("frac0", "0", "1000000000000000000"), vs.Dec("frac1", "0", "1000000000000000000"), dec("0")}
	var refunds []globaltypes.GasRefund
	for i := 0; i < 2; i++ {
		refunds = append(refunds, globaltypes.GasRefund{Type: sdk.MsgTypeURL(refundable[i]), Fraction: frac[i]})
	}
	f.setGlobalParams(dec("0"), dec("0"), nil, refunds)
	fee := symFee([][]string{{}, {DENOM}, {coinB, DENOM}}[vs.Choose("coins", 3)], "1")
	var msgs []sdk.Msg
	n := vs.Choose("n", 3)
	k := 2
	for i := 0; i < n; i++ {
		k = vs.Choose("msg", 3)
		msgs = append(msgs, refundable[k])
	}
	for _, d := range fDenoms {
		f.Give(ModAddr(authtypes.FeeCollectorName), d, vs.Int("others", "0", bigFee))
	}
	for _, c := range fee {
		f.Give(ModAddr(authtypes.FeeCollectorName), c.Denom, c.Amount)
	}
	f.Give(Acc(ALICE), DENOM, math.NewInt(3))
	before := f.Bank.snap()
	tx := feeTx{msgs: msgs, fee: fee, gas: 1, payer: Acc(ALICE)}
	ok := f.post(tx, vs.Choose("success", 2) == 0)
	vs.Assert(ok, "refunding never makes a transaction fail")
	want := before.snap()
	if n == 1 {
		for _, c := range fee {
			r := share(frac[k], c.Amount.BigInt())
			vs.Assert(vs.And(le(r, c.Amount.BigInt()), r.Sign() >= 0), "the refund is at most the fee")
			col := ModAddr(authtypes.FeeCollectorName)
			want.set(col, c.Denom, want.get(col, c.Denom).Sub(math.NewIntFromBigInt(r)))
			want.set(Acc(ALICE), c.Denom, want.get(Acc(ALICE), c.Denom).Add(math.NewIntFromBigInt(r)))
		}
	}
	vs.Assert(SameBank(want, f.Bank), "exactly the configured fraction of each fee coin returns to the payer, for single-message transactions only")
}

func H_G02_granter() {
	f := feesWorld()
	frac := dec([]string{"0", "0.3", "1"}[vs.Choose("frac", 3)])
	f.setGlobalParams(dec("0"), dec("0"), nil, []globaltypes.GasRefund{{Type: sdk.MsgTypeURL(refundable[0]), Fraction: frac}})
	f.account(ALICE)
	f.account(BOB)
	fee := symFee([]string{DENOM}, "1")
	has := vs.Int("has", "0", bigFee)
	f.Give(Acc(BOB), DENOM, has)
	f.Give(Acc(ALICE), DENOM, math.NewInt(5))
	var limit sdk.Coins
	limited := vs.Choose("limited", 2) == 0
	if limited {
		limit = symLimit()
	}
	f.allow(BOB, ALICE, limit)
	granter := Acc(BOB)
	tx := feeTx{msgs: refundable[:1], fee: fee, gas: 1, payer: Acc(ALICE), granter: granter}
	if !f.ante(tx, false) {
		return
	}
	vs.Reach("granted")
	vs.Assert(eq(f.BalU(BOB), sub(has.BigInt(), fee[0].Amount.BigInt())), "the granter pays the fee")
	ok := f.post(tx, true)
	vs.Assert(ok, "refunding a granted fee never makes a transaction fail")
	if ok {
		r := share(frac, fee[0].Amount.BigInt())
		vs.Assert(vs.And(eq(f.BalU(BOB), add(sub(has.BigInt(), fee[0].Amount.BigInt()), r)), eq(f.BalU(ALICE), bi(5))), "the refund goes to the account that paid the fee")
		vs.Assert(eq(f.collected(DENOM), sub(fee[0].Amount.BigInt(), r)), "the rest of the fee stays collected")
	}
	if limited {
		a := f.allowance(BOB, ALICE)
		left := sub(limit[0].Amount.BigInt(), fee[0].Amount.BigInt())
		if a == nil {
			vs.Assert(left.Sign() == 0, "an allowance is used up only by the fee itself")
		} else {
			vs.Assert(eq(a.SpendLimit.AmountOf(DENOM).BigInt(), left), "the fee uses the allowance once")
		}
	}
}

func symLimit() sdk.Coins {
	return sdk.Coins{sdk.Coin{Denom: DENOM, Amount: vs.Int("limit", "1", bigFee)}}
}

func H_G02_burn() {
	f := feesWorld()
	ratio := vs.Dec("ratio", "0", "1000000000000000000")
	f.setGlobalParams(dec("0"), ratio, nil, nil)
	height := []int64{1, 2, 4_000_000}[vs.Choose("height", 3)]
	f.Ctx = f.Ctx.WithBlockHeight(height)
	col := ModAddr(authtypes.FeeCollectorName)
	for _, d := range fDenoms {
		f.Give(col, d, vs.Int("collected", "0", bigFee))
		f.Give(Acc(ALICE), d, math.NewInt(100))
	}
	before := f.Bank.snap()
	must(global.NewAppModule(nil, f.ak, f.bk, f.Global, f.Upg).EndBlock(f.Ctx))
	vs.Assert(f.Upg.Halts == 0, "burning fees does not halt the chain")
	want := before.snap()
	if height > 1 {
		for _, d := range fDenoms {
			have := before.get(col, d).BigInt()
			burn := share(ratio, have)
			vs.Assert(le(burn, have), "no more is burned than was collected")
			want.set(col, d, math.NewIntFromBigInt(sub(have, burn)))
		}
	}
	vs.Assert(SameBank(want, f.Bank), "exactly the configured ratio of the collected fees is burned, rounded down")
}
