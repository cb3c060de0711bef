//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_funders.go
//verif:use lib_pool.go

package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

func p02charge(bal uint64, rate math.LegacyDec) {
	w := NewWorld()
	w.Pool.SetParams(w.Ctx, pooltypes.Params{ProtocolInflationShare: dec("0.1"), PoolInflationPayoutRate: rate, MaxVotingPowerPerPool: dec("1")})
	for i := 0; i < 3; i++ {
		id := w.Pool.AppendPool(w.Ctx, basePool(dec("1")))
		w.Give(w.poolAcc(id), DENOM, math.NewInt(77))
		w.Give(w.poolAcc(id), coinB, math.NewInt(13))
	}
	k := vs.Choose("pool", 4)
	if k < 3 {
		w.Bank.set(w.poolAcc(uint64(k)), DENOM, math.NewIntFromUint64(bal))
	}
	w.GiveMod(pooltypes.ModuleName, 9)
	store, bank := w.Dump(false), w.Bank.snap()
	var payout uint64
	e := w.Tx(func(ctx sdk.Context) (e error) {
		payout, e = w.Pool.ChargeInflationPool(ctx, uint64(k))
		return
	})
	vs.Assert(SameDump(store, w.Dump(false)), "charging changes no records")
	if k == 3 {
		vs.Assert(e != nil && payout == 0, "an unknown pool can not be charged")
		vs.Assert(SameBank(bank, w.Bank), "a failed charge moves nothing")
		return
	}
	vs.Assert(e == nil, "an existing pool can be charged")
	want := rate.MulInt(math.NewIntFromUint64(bal)).TruncateInt().BigInt()
	vs.Assert(eq(bi(payout), want), "payout is the configured share of the balance, rounded down")
	vs.Assert(payout <= bal, "payout never exceeds the balance")
	vs.Assert(eq(w.Bal(w.poolAcc(uint64(k)), DENOM), sub(bi(bal), bi(payout))), "the pool's account pays exactly the payout")
	vs.Assert(eq(w.ModBal(pooltypes.ModuleName), add(bi(9), bi(payout))), "the payer receives exactly the payout")
	w.Bank.set(w.poolAcc(uint64(k)), DENOM, math.NewIntFromUint64(bal))
	w.Bank.set(ModAddr(pooltypes.ModuleName), DENOM, math.NewInt(9))
	vs.Assert(SameBank(bank, w.Bank), "no other account or coin moves")
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
	vs.Reach("charged")
}

// H_P02_balance: any balance, some payout shares.
func H_P02_balance() {
	p02charge(vs.U64("balance", 0, stakeCap), dec(fracs[vs.Choose("rate", len(fracs))]))
}

// H_P02_rate: any payout share, some balances.
func H_P02_rate() {
	p02charge([]uint64{0, 1, 3, 1_000_000, 999_999_999_999_999_999}[vs.Choose("balance", 5)], vs.Dec("rate", "0", "1000000000000000000"))
}

// H_P02_twice: consecutive charges of one pool draw from what is left.
func H_P02_twice() {
	w := NewWorld()
	w.setPoolParams("0", "0.05", "1")
	id := w.Pool.AppendPool(w.Ctx, basePool(dec("1")))
	bal := vs.U64("balance", 0, stakeCap)
	w.Give(w.poolAcc(id), DENOM, math.NewIntFromUint64(bal))
	left := bi(bal)
	for i := 0; i < 3; i++ {
		x, e := w.Pool.ChargeInflationPool(w.Ctx, id)
		vs.Assert(e == nil, "an existing pool can be charged")
		vs.Assert(eq(bi(x), vs.FloorDiv(left, bi(20))), "each payout is the share of what is left")
		left = sub(left, bi(x))
		vs.Assert(eq(left, w.Bal(w.poolAcc(id), DENOM)), "the rest stays")
	}
}
