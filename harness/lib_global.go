package main

// Fees: the real account, staking (bond denomination only) and fee grant keepers over the
// world's stores and the stub bank, and a transaction type.

import (
	"math/big"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	feegrantkeeper "cosmossdk.io/x/feegrant/keeper"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authkeeper "github.com/cosmos/cosmos-sdk/x/auth/keeper"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	bankkeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
	stakingkeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	protov2 "google.golang.org/protobuf/proto"

	"github.com/KYVENetwork/chain/x/global"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

type feeTx struct {
	msgs           []sdk.Msg
	fee            sdk.Coins
	gas            uint64
	payer, granter sdk.AccAddress
}

func (t feeTx) GetMsgs() []sdk.Msg                    { return t.msgs }
func (t feeTx) GetMsgsV2() ([]protov2.Message, error) { return nil, nil }
func (t feeTx) GetGas() uint64                        { return t.gas }
func (t feeTx) GetFee() sdk.Coins                     { return t.fee }
func (t feeTx) FeePayer() []byte                      { return t.payer }
func (t feeTx) FeeGranter() []byte                    { return t.granter }

type addrCodec struct{}

func (addrCodec) StringToBytes(s string) ([]byte, error) { return sdk.AccAddressFromBech32(s) }
func (addrCodec) BytesToString(b []byte) (string, error) { return sdk.AccAddress(b).String(), nil }

type fees struct {
	*World
	ak authkeeper.AccountKeeper
	bk bankkeeper.Keeper
	sk *stakingkeeper.Keeper
	fg feegrantkeeper.Keeper
}

func feesWorld() *fees {
	w := NewWorld()
	f := &fees{World: w, bk: queryBank{b: w.Bank}}
	perms := map[string][]string{
		authtypes.FeeCollectorName:     nil,
		stakingtypes.BondedPoolName:    {authtypes.Burner, authtypes.Staking},
		stakingtypes.NotBondedPoolName: {authtypes.Burner, authtypes.Staking},
	}
	f.ak = authkeeper.NewAccountKeeper(w.Cdc, w.svc[8], authtypes.ProtoBaseAccount, perms, addrCodec{}, "kyve", GOV)
	f.sk = stakingkeeper.NewKeeper(w.Cdc, w.svc[9], f.ak, f.bk, GOV, addrCodec{}, addrCodec{})
	p := stakingtypes.DefaultParams()
	p.BondDenom = DENOM
	must(f.sk.SetParams(w.Ctx, p))
	f.fg = feegrantkeeper.NewKeeper(w.Cdc, w.svc[10], f.ak)
	w.setGlobal("0", "0")
	return f
}

func (w *World) setGlobal(minGasPrice, burn string) {
	w.setGlobalParams(dec(minGasPrice), dec(burn), nil, nil)
}

func (w *World) setGlobalParams(minGasPrice, burn math.LegacyDec, adj []globaltypes.GasAdjustment, ref []globaltypes.GasRefund) {
	p := globaltypes.NewParams(minGasPrice, burn, adj, ref)
	must(p.Validate())
	w.Global.SetParams(w.Ctx, p)
}

func (f *fees) account(addr string) {
	f.ak.SetAccount(f.Ctx, f.ak.NewAccountWithAddress(f.Ctx, Acc(addr)))
}

// allow lets grantee spend up to limit (nil: anything) of granter's coins on fees.
func (f *fees) allow(granter, grantee string, limit sdk.Coins) {
	must(f.fg.GrantAllowance(f.Ctx, Acc(granter), Acc(grantee), &feegrant.BasicAllowance{SpendLimit: limit}))
}

// allowance is what is left of an allowance, nil if it is gone.
func (f *fees) allowance(granter, grantee string) *feegrant.BasicAllowance {
	a, e := f.fg.GetAllowance(f.Ctx, Acc(granter), Acc(grantee))
	if e != nil {
		return nil
	}
	return a.(*feegrant.BasicAllowance)
}

const bigFee = "340282366920938463463374607431768211456" // 2^128

func (f *fees) collected(denom string) *big.Int {
	return f.Bal(ModAddr(authtypes.FeeCollectorName), denom)
}

func feeAmt(name string) math.Int { return vs.Int(name, "0", bigFee) }

func coins(c ...sdk.Coin) sdk.Coins { return sdk.NewCoins(c...) }

// ante runs the fee deduction as part of a transaction.
func (f *fees) ante(tx feeTx, simulate bool) bool {
	called := 0
	d := global.NewDeductFeeDecorator(f.ak, f.bk, f.fg, f.Global, f.sk)
	e := f.Tx(func(ctx sdk.Context) error {
		_, e := d.AnteHandle(ctx, tx, simulate, func(ctx sdk.Context, _ sdk.Tx, _ bool) (sdk.Context, error) {
			called++
			return ctx, nil
		})
		return e
	})
	vs.Assert((e == nil) == (called == 1), "the transaction continues exactly if the fee was accepted")
	return e == nil
}
