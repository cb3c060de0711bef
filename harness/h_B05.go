//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

type b05case struct {
	way            int
	fee, comm      math.LegacyDec
	cost           math.LegacyDec
	bytes          uint64
	inflation      math.Int // balance of the pool's inflation account; a twentieth is paid out
	amounts        sdk.Coins
	per            sdk.Coins
	stake          uint64
	weights        [2]int64 // native, coinB
	decimals       [2]uint32
	left, provider bool // the uploader has left the pool; the storage provider has a cost
}

func b05plain() b05case {
	return b05case{fee: dec("0.01"), comm: dec("0.1"), cost: dec("0.5"), bytes: 100, inflation: math.NewInt(0), stake: 1000, weights: [2]int64{1, 2}, decimals: [2]uint32{0, 1}, provider: true}
}

// scaled is the truncated product of an amount and a fraction; one of both is always concrete.
func scaled(f math.LegacyDec, x *big.Int) *big.Int { return vs.FloorDiv(mul(x, f.BigInt()), one18) }

// b05check ends the round of a valid bundle and follows every coin.
func b05check(c b05case) {
	w := bundlesWorld(3)
	w.setBundlesParams(600, 5, "0", "0")
	bp := w.Bundles.GetParams(w.Ctx)
	bp.NetworkFee, bp.StorageCosts[0].Cost = c.fee, c.cost
	w.Bundles.SetParams(w.Ctx, bp)
	one := math.NewInt(1)
	w.Funders.SetParams(w.Ctx, whitelist([2]math.Int{one, one}, [2]math.Int{one, one}, [2]math.LegacyDec{math.LegacyNewDec(c.weights[0]), math.LegacyNewDec(c.weights[1])}, c.decimals, 1))
	s, _ := w.Stakers.GetStaker(w.Ctx, STAKER0)
	w.Stakers.UpdateStakerCommission(w.Ctx, STAKER0, c.comm)
	w.selfStake(0, c.stake)
	w.mustDelegate(STAKER1, STAKER1, 5000)
	w.mustDelegate(STAKER2, STAKER2, 5000)
	if len(c.amounts) > 0 {
		w.fund(ALICE, 0, c.amounts, c.per)
	}
	w.fund(BOB, 1, sdk.NewCoins(coin(DENOM, 500)), sdk.NewCoins(coin(DENOM, 5)))
	w.Give(w.poolAcc(0), DENOM, c.inflation)
	w.Give(w.poolAcc(1), DENOM, math.NewInt(5000))
	for _, m := range []string{pooltypes.ModuleName, stakerstypes.ModuleName, distrtypes.ModuleName} {
		w.GiveMod(m, 77)
	}
	p := openBundle(STAKER0, STAKER1, 1000)
	p.DataSize = c.bytes
	if !c.provider {
		p.StorageProviderId = 9
	}
	castVote(&p, STAKER1, voteValid)
	castVote(&p, STAKER2, voteValid)
	w.Bundles.SetBundleProposal(w.Ctx, p)
	if c.left {
		w.Stakers.LeavePool(w.Ctx, STAKER0, 0)
	}

	before, was := w.Bank.snap(), w.stakes()
	s, _ = w.Stakers.GetStaker(w.Ctx, STAKER0)
	var e error
	if c.way == byTimeout {
		e = guard(func() error { w.endBundles(); return nil })
	} else {
		e = w.endRound(c.way)
	}
	vs.Assert(e == nil, "a valid bundle is always paid and archived")
	if e != nil {
		return
	}
	vs.Assert(w.pool(0).TotalBundles == 1 && w.Upg.Halts == 0, "a valid bundle is always paid and archived")
	moved := func(a sdk.AccAddress, d string) *big.Int {
		return sub(w.Bank.get(a, d).BigInt(), before.get(a, d).BigInt())
	}
	fAcc, pAcc, dAcc, sAcc, tAcc := ModAddr(funderstypes.ModuleName), ModAddr(pooltypes.ModuleName), ModAddr(delegationtypes.ModuleName), ModAddr(stakerstypes.ModuleName), ModAddr(distrtypes.ModuleName)
	staker, _ := w.Stakers.GetStaker(w.Ctx, STAKER0)
	// what was charged
	total := map[string]*big.Int{}
	n := uint64(0) // coins which contribute to the storage cost
	for _, d := range fDenoms {
		total[d] = sub(bi(0), add(moved(fAcc, d), moved(w.poolAcc(0), d)))
		vs.Assert(le(bi(0), total[d]), "charges are never negative")
		if vs.Fork(lt(bi(0), sub(total[d], scaled(c.fee, total[d])))) {
			n++
		}
	}
	infl := sub(bi(0), moved(w.poolAcc(0), DENOM))
	vs.Assert(eq(infl, scaled(dec("0.05"), c.inflation.BigInt())), "the inflation payout is the configured share")
	for i, d := range fDenoms {
		vs.Assert(eq(moved(pAcc, d), bi(0)), "nothing remains with the module which pays")
		treasury := scaled(c.fee, total[d])
		rest := sub(total[d], treasury)
		storage := bi(0)
		if n > 0 && i < 2 && c.provider {
			x := 1 - i // sorted: coinB, native
			if c.weights[x] > 0 {
				unit := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(c.decimals[x])), nil)
				storage = vs.FloorDiv(mul(mul(c.cost.BigInt(), bi(c.bytes)), unit), mul(one18, mul(bi(n), bi(uint64(c.weights[x])))))
			}
		}
		storage = minBig(storage, rest)
		remain := sub(rest, storage)
		comm := scaled(c.comm, remain)
		// roundings of the price may shift the storage cost by one
		near := func(a, b *big.Int) bool { return vs.And(le(sub(a, b), bi(1)), le(sub(b, a), bi(1))) }
		vs.Assert(eq(moved(tAcc, d), treasury), "the treasury receives the network fee, rounded down")
		up, del := moved(sAcc, d), moved(dAcc, d)
		vs.Assert(eq(add(up, del), rest), "the rest goes to the uploader and its delegators")
		vs.Assert(vs.And(le(bi(0), up), le(bi(0), del)), "no share is negative")
		if vs.Fork(c.stake > 0) {
			vs.Assert(near(up, add(storage, comm)), "the uploader receives storage cost and commission")
		} else {
			vs.Assert(eq(del, bi(0)), "without delegators the uploader receives everything")
		}
		credited := sub(staker.CommissionRewards.AmountOf(d).BigInt(), s.CommissionRewards.AmountOf(d).BigInt())
		vs.Assert(eq(credited, up), "the uploader is credited what the module receives")
		vs.Assert(eq(moved(w.poolAcc(1), d), bi(0)), "other pools pay nothing")
	}
	for i, x := range w.stakes() {
		vs.Assert(eq(x, was[i]), "stakes stay")
		o, _ := w.Stakers.GetStaker(w.Ctx, STAKERS[i])
		vs.Assert(i == 0 || len(o.CommissionRewards) == 0, "nobody else is credited")
	}
	g := w.funding(BOB, 1)
	vs.Assert(sameCoins(g.Amounts, sdk.NewCoins(coin(DENOM, 500))), "funders of other pools pay nothing")
	vs.Reach("paid")
}

// H_B05_native: any inflation and funding in the native coin; fee, commission and prices from a list.
func H_B05_native() {
	c := b05plain()
	c.fee, c.comm = dec([]string{"0", "0.01", "1", "0.333333333333333333"}[vs.Choose("fee", 4)]), dec([]string{"0", "0.1", "1", "0.666666666666666667"}[vs.Choose("commission", 4)])
	c.inflation = vs.Int("inflation", "0", bigAmt)
	vs.Assume(vs.Not(lt(bi(stakeCap), c.inflation.BigInt())))
	if vs.Choose("funded", 2) == 1 {
		c.amounts, c.per = symCoins("amount", []string{DENOM}), symCoins("per", []string{DENOM})
	}
	c.stake = []uint64{1000, 0}[vs.Choose("delegators", 2)]
	c.cost = dec([]string{"0", "0.000000025", "3"}[vs.Choose("cost", 3)])
	b05check(c)
}

// H_B05_coins: any amounts of several coins.
func H_B05_coins() {
	c := b05plain()
	set := denomSet(2 + vs.Choose("coins", 5))
	c.amounts, c.per = symCoins("amount", set), symCoins("per", set)
	k := vs.Choose("prices", 4)
	if k == 0 || vs.Thorough() {
		c.inflation = math.NewInt([]int64{0, 20000}[vs.Choose("inflation", 2)])
	}
	c.weights = [][2]int64{{1, 2}, {3, 7}, {0, 1}, {1, 0}}[k]
	c.decimals = [][2]uint32{{0, 1}, {6, 9}, {1, 1}, {0, 0}}[k]
	b05check(c)
}

// H_B05_size: bundles of any size; the round ends in any way.
func H_B05_size() {
	c := b05plain()
	c.way = vs.Choose("way", nWays)
	c.bytes = vs.U64("bytes", 0, u64max)
	c.cost = dec([]string{"0.000000025", "1", "0.333333333333333333"}[vs.Choose("cost", 3)])
	c.decimals = [][2]uint32{{6, 6}, {0, 1}}[vs.Choose("decimals", 2)]
	c.weights = [2]int64{2, 3}
	c.amounts, c.per = sdk.NewCoins(coin(coinB, 100000), coin(DENOM, 7000)), sdk.NewCoins(coin(coinB, 9999), coin(DENOM, 777))
	c.provider = vs.Choose("priced", 2) == 0
	b05check(c)
}

// H_B05_rates: any fee or commission or storage cost.
func H_B05_rates() {
	c := b05plain()
	c.way = vs.Choose("way", nWays)
	c.left = vs.Choose("left", 2) == 1
	c.inflation = math.NewInt(123456789)
	c.amounts, c.per = sdk.NewCoins(coin(coinB, 100000), coin(DENOM, 7000)), sdk.NewCoins(coin(coinB, 9999), coin(DENOM, 777))
	switch vs.Choose("any", 3) {
	case 0:
		c.fee = vs.Dec("fee", "0", "1000000000000000000")
	case 1:
		c.comm = vs.Dec("commission", "0", "1000000000000000000")
	case 2:
		c.cost = vs.Dec("cost", "0", "1000000000000000000000")
	}
	b05check(c)
}

// H_B05_nothing: without inflation and funding nothing is paid.
func H_B05_nothing() {
	c := b05plain()
	c.way = vs.Choose("way", nWays)
	c.inflation = math.NewInt(vs.I64("inflation", 0, 19))
	c.stake = vs.U64("stake", 0, 1000)
	b05check(c)
}
