//verif:use lib_global.go
//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"context"
	"errors"
	"math/big"

	signingv1beta1 "cosmossdk.io/api/cosmos/tx/signing/v1beta1"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	txsigning "cosmossdk.io/x/tx/signing"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	"github.com/cosmos/cosmos-sdk/x/auth/ante"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// G03: the chain of admission steps which the app installs, with the real SDK and IBC steps; a
// transaction has one signer.

type fullTx struct {
	feeTx
	memo     string
	timeout  uint64
	sequence uint64
	invalid  bool
	sig      []byte
	ext      []*codectypes.Any
	unsigned bool
}

func (t fullTx) GetSigners() ([][]byte, error)                      { return [][]byte{t.payer}, nil }
func (t fullTx) GetPubKeys() ([]cryptotypes.PubKey, error)          { return []cryptotypes.PubKey{nil}, nil }
func (t fullTx) GetMemo() string                                    { return t.memo }
func (t fullTx) GetTimeoutHeight() uint64                           { return t.timeout }
func (t fullTx) GetSigningTxData() txsigning.TxData                 { return txsigning.TxData{} }
func (t fullTx) GetExtensionOptions() []*codectypes.Any             { return t.ext }
func (t fullTx) GetNonCriticalExtensionOptions() []*codectypes.Any { return nil }
func (t fullTx) ValidateBasic() error {
	if t.invalid {
		return errors.New("invalid")
	}
	return nil
}

func (t fullTx) GetSignaturesV2() ([]signing.SignatureV2, error) {
	if t.unsigned {
		return nil, nil
	}
	return []signing.SignatureV2{{Data: &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT, Signature: t.sig}, Sequence: t.sequence}}, nil
}

// signBytes stands for the bytes to sign; they are the same for all transactions.
type signBytes struct{}

func (signBytes) Mode() signingv1beta1.SignMode { return signingv1beta1.SignMode_SIGN_MODE_DIRECT }
func (signBytes) GetSignBytes(context.Context, txsigning.SignerData, txsigning.TxData) ([]byte, error) {
	return []byte("tx"), nil
}

// g03key gives ALICE a key and is its signature and another one.
func (f *fees) g03key(seq uint64) (good, bad []byte) {
	var pk cryptotypes.PubKey
	if vs.Symbolic() {
		// the engine takes a signature that equals the signed bytes for a good one
		pk, good, bad = &secp256k1.PubKey{Key: make([]byte, 33)}, []byte("tx"), []byte("no")
	} else {
		priv := secp256k1.GenPrivKeyFromSecret([]byte("verif"))
		pk = priv.PubKey()
		good, _ = priv.Sign([]byte("tx"))
		bad, _ = priv.Sign([]byte("no"))
	}
	a := f.ak.NewAccountWithAddress(f.Ctx, Acc(ALICE))
	must(a.SetPubKey(pk))
	must(a.SetSequence(seq))
	f.ak.SetAccount(f.Ctx, a)
	must(f.ak.Params.Set(f.Ctx, authtypes.DefaultParams()))
	f.Ctx = f.Ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
	return
}

func (f *fees) g03handlers() (sdk.AnteHandler, sdk.PostHandler) {
	a, e := app.NewAnteHandler(f.ak, f.bk, f.fg, f.Global, nil, f.sk, ante.DefaultSigVerificationGasConsumer, txsigning.NewHandlerMap(signBytes{}))
	must(e)
	p, e := app.NewPostHandler(f.bk, f.fg, f.Global)
	must(e)
	return a, p
}

const gasSlack = 1 << 30 // above all gas that storage, size and signature take

var g03msgs = []sdk.Msg{&bundlestypes.MsgVoteBundleProposal{}, &stakerstypes.MsgCreateStaker{}, &bundlestypes.MsgSkipUploaderRole{}}

// H_G03_admission: any gas limit, surcharges, fee, balance, sequences and heights; a bad
// signature, memo, content or extension; delivered, checked or rechecked.
func H_G03_admission() {
	f := feesWorld()
	height := vs.I64("height", 2, 1<<40)
	f.At(height, 1_700_000_000)
	mode := vs.Choose("mode", 3) // deliver, check, recheck
	if mode > 0 {
		f.Ctx = f.Ctx.WithIsCheckTx(true)
	}
	if mode == 2 {
		f.Ctx = f.Ctx.WithIsReCheckTx(true)
	}
	maxGas := vs.I64("block", -1, i64cap)
	f.Ctx = f.Ctx.WithConsensusParams(cmtproto.ConsensusParams{Block: &cmtproto.BlockParams{MaxBytes: 1000, MaxGas: maxGas}})
	seq := vs.U64("seq", 0, 1<<40)
	good, bad := f.g03key(seq)
	x, y := vs.U64("x", 0, 1<<62), vs.U64("y", 0, 1<<62)
	f.setGlobalParams(dec("0.02"), dec("0"), []globaltypes.GasAdjustment{{Type: sdk.MsgTypeURL(g03msgs[0]), Amount: x}, {Type: sdk.MsgTypeURL(g03msgs[1]), Amount: y}}, nil)
	has := feeAmt("has")
	f.Give(Acc(ALICE), DENOM, has)
	fee := feeAmt("fee")
	vs.Assume(fee.IsPositive())

	n := vs.Choose("msgs", 3)
	tx := fullTx{feeTx: feeTx{fee: coins(sdk.NewCoin(DENOM, fee)), gas: vs.U64("gas", gasSlack, 1<<63), payer: Acc(ALICE)}, sig: good,
		timeout: vs.U64("timeout", 0, 1<<41), sequence: vs.U64("sequence", 0, 1<<41)}
	tx.msgs = [][]sdk.Msg{g03msgs[:1], g03msgs[:3], {g03msgs[2]}}[n]
	surcharge := []*big.Int{bi(x), add(bi(x), bi(y)), bi(0)}[n]
	flaw := vs.Choose("flaw", 6)
	switch flaw {
	case 1:
		tx.sig = bad
	case 2:
		tx.memo = string(make([]byte, 257))
	case 3:
		tx.memo = string(make([]byte, 256))
	case 4:
		tx.invalid = true
	case 5:
		tx.ext = []*codectypes.Any{{TypeUrl: "/x"}}
	}
	// not at the edge, where storage gas counts
	vs.Assume(vs.Or(le(add(surcharge, bi(gasSlack)), bi(tx.gas)), lt(bi(tx.gas), surcharge)))

	h, _ := f.g03handlers()
	var used uint64
	var limit uint64
	e := f.Tx(func(ctx sdk.Context) error {
		c, e := h(ctx, tx, false)
		if e == nil {
			used, limit = c.GasMeter().GasConsumed(), c.GasMeter().Limit()
		}
		return e
	})
	need := vs.FloorDiv(add(mul(bi(tx.gas), big.NewInt(2)), big.NewInt(99)), big.NewInt(100))
	ok := vs.And(le(need, fee.BigInt()), fee.LTE(has))
	ok = vs.And(ok, le(surcharge, bi(tx.gas)))
	ok = vs.And(ok, vs.Or(maxGas <= 0, le(bi(tx.gas), vs.I64Big(maxGas))))
	ok = vs.And(ok, vs.Or(tx.timeout == 0, uint64(height) <= tx.timeout))
	ok = vs.And(ok, tx.sequence == seq)
	switch flaw {
	case 1:
		ok = vs.And(ok, mode == 2)
	case 2, 5:
		ok = false
	case 4:
		ok = vs.And(ok, mode == 2)
	}
	vs.Assert(vs.Iff(e == nil, ok), "a transaction is executed exactly if it passes all steps of admission")
	if e == nil {
		vs.Reach("admitted")
		vs.Assert(limit == tx.gas, "the gas limit is the one of the transaction")
		vs.Assert(vs.And(le(surcharge, bi(used)), le(bi(used), add(surcharge, bi(gasSlack)))), "the surcharges are taken from the transaction's gas")
		vs.Assert(eq(f.collected(DENOM), fee.BigInt()) && eq(f.BalU(ALICE), sub(has.BigInt(), fee.BigInt())), "the fee is paid")
		vs.Assert(f.ak.GetAccount(f.Ctx, Acc(ALICE)).GetSequence() == seq+1, "the sequence moves on by one, the transaction can not be executed again")
	}
}

// H_G03_simulate: a simulation counts the surcharges, whatever they are.
func H_G03_simulate() {
	f := feesWorld()
	f.At(1000, 1_700_000_000)
	seq := vs.U64("seq", 0, 1<<40)
	good, _ := f.g03key(seq)
	x, y := vs.U64("x", 0, 1<<62), vs.U64("y", 0, 1<<62)
	f.setGlobalParams(dec("0.02"), dec("0"), []globaltypes.GasAdjustment{{Type: sdk.MsgTypeURL(g03msgs[0]), Amount: x}, {Type: sdk.MsgTypeURL(g03msgs[1]), Amount: y}}, nil)
	f.Give(Acc(ALICE), DENOM, math.NewInt(1000))
	n := vs.Choose("msgs", 3)
	tx := fullTx{feeTx: feeTx{gas: 1, payer: Acc(ALICE)}, sig: good, sequence: seq}
	tx.msgs = [][]sdk.Msg{g03msgs[:1], g03msgs[:3], {g03msgs[2]}}[n]
	surcharge := []*big.Int{bi(x), add(bi(x), bi(y)), bi(0)}[n]
	h, _ := f.g03handlers()
	var used uint64
	must(f.Tx(func(ctx sdk.Context) error {
		c, e := h(ctx, tx, true)
		used = c.GasMeter().GasConsumed()
		return e
	}))
	vs.Assert(vs.And(le(surcharge, bi(used)), le(bi(used), add(surcharge, bi(gasSlack)))), "a simulation counts the surcharges")
}

// H_G03_settle: after a transaction with any fee and refund fraction, delivered with success or
// not, the payer has its refund.
func H_G03_settle() {
	f := feesWorld()
	f.At(1000, 1_700_000_000)
	good, _ := f.g03key(7)
	frac := vs.Dec("frac", "0", "1000000000000000000")
	f.setGlobalParams(dec("0"), dec("0"), nil, []globaltypes.GasRefund{{Type: sdk.MsgTypeURL(g03msgs[0]), Fraction: frac}})
	has, fee := feeAmt("has"), feeAmt("fee")
	vs.Assume(vs.And(fee.IsPositive(), fee.LTE(has)))
	f.Give(Acc(ALICE), DENOM, has)
	n := vs.Choose("msgs", 3)
	tx := fullTx{feeTx: feeTx{fee: coins(sdk.NewCoin(DENOM, fee)), gas: gasSlack, payer: Acc(ALICE)}, sig: good, sequence: 7}
	tx.msgs = [][]sdk.Msg{g03msgs[:1], g03msgs[:2], {g03msgs[2]}}[n]
	a, p := f.g03handlers()
	must(f.Tx(func(ctx sdk.Context) error {
		_, e := a(ctx, tx, false)
		return e
	}))
	success := vs.Choose("success", 2) == 0
	must(f.Tx(func(ctx sdk.Context) error {
		_, e := p(ctx, tx, false, success)
		return e
	}))
	back := new(big.Int)
	if n == 0 {
		back = vs.FloorDiv(mul(frac.BigInt(), fee.BigInt()), one18)
	}
	paid := sub(has.BigInt(), f.BalU(ALICE))
	vs.Assert(eq(paid, f.collected(DENOM)), "what the payer has paid is collected")
	vs.Assert(eq(paid, sub(fee.BigInt(), back)), "the payer pays the fee less the refund configured for its only message")
}
