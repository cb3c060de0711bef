package main

import (
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"

	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	poolmod "github.com/KYVENetwork/chain/x/pool"
	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// basePool is a pool which can run.
func basePool(weight math.LegacyDec) pooltypes.Pool {
	return pooltypes.Pool{Name: "p", Runtime: "r", InflationShareWeight: weight, UploadInterval: 60, MaxBundleSize: 100,
		Protocol: &pooltypes.Protocol{Version: "1", Binaries: "{}"}, UpgradePlan: &pooltypes.UpgradePlan{}, CurrentStorageProviderId: 1}
}

// kinds of pools; only the first can run at the default time
const (
	runs = iota
	disabled
	belowMin
	upgrading
	ended
	nKinds
)

func kindPool(kind int, weight math.LegacyDec) pooltypes.Pool {
	p := basePool(weight)
	switch kind {
	case disabled:
		p.Disabled = true
	case belowMin:
		p.MinDelegation = 1
	case upgrading:
		p.UpgradePlan = &pooltypes.UpgradePlan{Version: "2", Binaries: "{}", ScheduledAt: 1_600_000_000, Duration: 1_000_000_000}
	case ended:
		p.CurrentKey, p.EndKey = "9", "9"
	}
	return p
}

func (w *World) poolAcc(id uint64) sdk.AccAddress {
	p := pooltypes.Pool{Id: id}
	return p.GetPoolAccount()
}

func (w *World) setPoolParams(share, payout, power string) {
	w.Pool.SetParams(w.Ctx, pooltypes.Params{ProtocolInflationShare: dec(share), PoolInflationPayoutRate: dec(payout), MaxVotingPowerPerPool: dec(power)})
}

// mintBlock sets the block provision and puts it (and fees) where the mint module does.
func (w *World) mintBlock(prov, fees uint64) {
	w.GiveMod(authtypes.FeeCollectorName, prov)
	w.GiveMod(authtypes.FeeCollectorName, fees)
	params := minttypes.DefaultParams()
	params.MintDenom = DENOM
	params.BlocksPerYear = 1
	if e := w.Mint.Params.Set(w.Ctx, params); e != nil {
		panic(e)
	}
	if e := w.Mint.Minter.Set(w.Ctx, minttypes.Minter{AnnualProvisions: decOf(prov), Inflation: decOf(0)}); e != nil {
		panic(e)
	}
}

func (w *World) samePool(a, b pooltypes.Pool, msg string) { vs.Assert(vs.SameMsg(&a, &b), msg) }

func (w *World) endPool() {
	must(poolmod.NewAppModule(nil, w.Pool, nil, nil, w.Upg).EndBlock(w.Ctx))
}
