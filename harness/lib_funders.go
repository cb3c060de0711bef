package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	funderskeeper "github.com/KYVENetwork/chain/x/funders/keeper"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

const (
	coinB = "acoin" // whitelisted besides the native coin
	coinC = "zcoin" // not (any longer) whitelisted
)

var fDenoms = []string{coinB, DENOM, coinC} // sorted

const bigAmt = "1000000000000000000000000000000"

// symCoins is a valid coin set over some of the denoms with any positive amounts.
func symCoins(n string, denoms []string) sdk.Coins {
	var c sdk.Coins
	for _, d := range denoms {
		c = append(c, sdk.Coin{Denom: d, Amount: vs.Int(n+"."+d, "1", bigAmt)})
	}
	return c
}

func denomSet(k int) []string {
	return [][]string{{}, {DENOM}, {coinB}, {coinB, DENOM}, {DENOM, coinC}, {coinC}, {coinB, DENOM, coinC}}[k]
}

func whitelist(min, minPer [2]math.Int, w [2]math.LegacyDec, dec [2]uint32, multiple uint64) funderstypes.Params {
	return funderstypes.Params{MinFundingMultiple: multiple, CoinWhitelist: []*funderstypes.WhitelistCoinEntry{
		{CoinDenom: DENOM, CoinDecimals: dec[0], MinFundingAmount: min[0], MinFundingAmountPerBundle: minPer[0], CoinWeight: w[0]},
		{CoinDenom: coinB, CoinDecimals: dec[1], MinFundingAmount: min[1], MinFundingAmountPerBundle: minPer[1], CoinWeight: w[1]},
	}}
}

func plainWhitelist() funderstypes.Params {
	i := func(x int64) math.Int { return math.NewInt(x) }
	return whitelist([2]math.Int{i(1000), i(50)}, [2]math.Int{i(10), i(3)}, [2]math.LegacyDec{math.LegacyNewDec(1), math.LegacyNewDec(2)}, [2]uint32{0, 1}, 20)
}

// fundersWorld has pools 0 and 1 with funding states and the given whitelist.
func fundersWorld(p funderstypes.Params) *World {
	w := NewWorld()
	w.Funders.SetParams(w.Ctx, p)
	for i := 0; i < 2; i++ {
		w.Pool.AppendPool(w.Ctx, pooltypes.Pool{Name: "pool"})
		w.Funders.CreateFundingState(w.Ctx, uint64(i))
	}
	return w
}

func (w *World) addFunding(f funderstypes.Funding) {
	w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: f.FunderAddress, Moniker: "m"})
	w.Funders.SetFunding(w.Ctx, &f)
	if !f.Amounts.IsZero() {
		s, _ := w.Funders.GetFundingState(w.Ctx, f.PoolId)
		s.ActiveFunderAddresses = append(s.ActiveFunderAddresses, f.FunderAddress)
		w.Funders.SetFundingState(w.Ctx, &s)
	}
	for _, c := range f.Amounts {
		w.Give(ModAddr(funderstypes.ModuleName), c.Denom, c.Amount)
	}
}

func (w *World) funding(addr string, pool uint64) funderstypes.Funding {
	f, ok := w.Funders.GetFunding(w.Ctx, addr, pool)
	vs.Assert(ok, "funding record exists")
	return f
}

// a funding as reachable: per-bundle coins exactly for the funded coins
func symFunding(n, addr string, pool uint64, denoms []string) funderstypes.Funding {
	return funderstypes.Funding{FunderAddress: addr, PoolId: pool, Amounts: symCoins(n+".amt", denoms),
		AmountsPerBundle: symCoins(n+".per", denoms), TotalFunded: symCoins(n+".tot", denoms)}
}

func amt(c sdk.Coins, d string) *big.Int {
	for _, x := range c {
		if x.Denom == d {
			return x.Amount.BigInt()
		}
	}
	return bi(0)
}

func (w *World) modCoin(mod, d string) *big.Int { return w.Bal(ModAddr(mod), d) }

func (w *World) isActiveFunder(pool uint64, addr string) bool {
	s, _ := w.Funders.GetFundingState(w.Ctx, pool)
	n := 0
	for _, a := range s.ActiveFunderAddresses {
		if a == addr {
			n++
		}
	}
	vs.Assert(n <= 1, "funder is listed at most once")
	return n == 1
}

// checkFundersBacked: the funding account holds exactly what all records add up to.
func (w *World) checkFundersBacked(msg string) {
	for _, d := range fDenoms {
		t := bi(0)
		for _, f := range w.Funders.GetAllFundings(w.Ctx) {
			t = add(t, amt(f.Amounts, d))
		}
		vs.Assert(eq(t, w.modCoin(funderstypes.ModuleName, d)), msg)
	}
}

// checkActive: a funder is in the active list exactly while it has something left.
func (w *World) checkActive(msg string) {
	for _, f := range w.Funders.GetAllFundings(w.Ctx) {
		vs.Assert(vs.Iff(!f.Amounts.IsZero(), w.isActiveFunder(f.PoolId, f.FunderAddress)), msg)
		g := w.Funders.GetFundingsOfPool(w.Ctx, f.PoolId)
		found := 0
		for i := range g {
			if g[i].FunderAddress == f.FunderAddress {
				found++
				vs.Assert(vs.SameMsg(&g[i], &f), "index by pool holds the same funding")
			}
		}
		vs.Assert(found == 1, "index by pool lists every funding once")
	}
}

func minBig(a, b *big.Int) *big.Int { return vs.IteBig(le(a, b), a, b) }

func fundersMsg(w *World) funderstypes.MsgServer { return funderskeeper.NewMsgServerImpl(w.Funders) }

func sameCoins(a, b sdk.Coins) bool {
	r := true
	for _, d := range fDenoms {
		r = vs.And(r, eq(amt(a, d), amt(b, d)))
	}
	return r
}

func fundingOf(addr string, pool uint64, amounts, per sdk.Coins) funderstypes.Funding {
	return funderstypes.Funding{FunderAddress: addr, PoolId: pool, Amounts: amounts, AmountsPerBundle: per}
}
