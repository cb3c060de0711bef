//verif:use lib_global.go
//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X09: malformed messages are rejected before execution, well-formed ones are not.

type basicMsg interface {
	ValidateBasic() error
	GetSigners() []sdk.AccAddress
}

// H_X09_signers: every message of every module, otherwise well formed and with any numbers, from a valid address, none and garbage.
func H_X09_signers() {
	i := vs.Choose("who", 3)
	a, good := []string{ALICE, "", "abc"}[i], i == 0
	n, m := vs.U64("n", 0, u64max), vs.U64("m", 0, u64max)
	pos := vs.U64("pos", 1, u64max)
	cs := symCoins("c", []string{coinB, DENOM})
	share, weight := okDec("share"), vs.Dec("weight", "0", bigAmt)
	up := "{}"
	msgs := []basicMsg{
		&bundlestypes.MsgSubmitBundleProposal{Creator: a, Staker: BOB, PoolId: n, BundleSize: m},
		&bundlestypes.MsgVoteBundleProposal{Creator: a, Staker: BOB, PoolId: n, Vote: bundlestypes.VOTE_TYPE_VALID},
		&bundlestypes.MsgClaimUploaderRole{Creator: a, Staker: BOB, PoolId: n},
		&bundlestypes.MsgSkipUploaderRole{Creator: a, Staker: BOB, PoolId: n, FromIndex: m},
		&bundlestypes.MsgUpdateParams{Authority: a, Payload: up},
		&delegationtypes.MsgDelegate{Creator: a, Staker: BOB, Amount: n},
		&delegationtypes.MsgWithdrawRewards{Creator: a, Staker: BOB},
		&delegationtypes.MsgUndelegate{Creator: a, Staker: BOB, Amount: n},
		&delegationtypes.MsgRedelegate{Creator: a, FromStaker: BOB, ToStaker: STAKER1, Amount: n},
		&delegationtypes.MsgUpdateParams{Authority: a, Payload: up},
		&funderstypes.MsgCreateFunder{Creator: a, Moniker: "m"},
		&funderstypes.MsgUpdateFunder{Creator: a, Moniker: "m"},
		&funderstypes.MsgFundPool{Creator: a, PoolId: n, Amounts: cs, AmountsPerBundle: cs},
		&funderstypes.MsgDefundPool{Creator: a, PoolId: n, Amounts: cs},
		&funderstypes.MsgUpdateParams{Authority: a, Payload: up},
		&globaltypes.MsgUpdateParams{Authority: a, Payload: up},
		&pooltypes.MsgCreatePool{Authority: a, UploadInterval: pos, InflationShareWeight: weight, MinDelegation: n, MaxBundleSize: pos},
		&pooltypes.MsgUpdatePool{Authority: a, Id: n, Payload: up},
		&pooltypes.MsgDisablePool{Authority: a, Id: n},
		&pooltypes.MsgEnablePool{Authority: a, Id: n},
		&pooltypes.MsgScheduleRuntimeUpgrade{Authority: a, Runtime: "r", Version: "1", ScheduledAt: n, Duration: m},
		&pooltypes.MsgCancelRuntimeUpgrade{Authority: a, Runtime: "r"},
		&pooltypes.MsgUpdateParams{Authority: a, Payload: up},
		&stakerstypes.MsgCreateStaker{Creator: a, Amount: n, Commission: share},
		&stakerstypes.MsgUpdateMetadata{Creator: a},
		&stakerstypes.MsgUpdateCommission{Creator: a, Commission: share},
		&stakerstypes.MsgClaimCommissionRewards{Creator: a, Amounts: cs},
		&stakerstypes.MsgJoinPool{Creator: a, PoolId: n, Valaddress: BOB, Amount: m},
		&stakerstypes.MsgLeavePool{Creator: a, PoolId: n},
		&stakerstypes.MsgUpdateParams{Authority: a, Payload: up},
		&teamtypes.MsgClaimUnlocked{Authority: a, Id: n, Amount: m, Recipient: BOB},
		&teamtypes.MsgClaimAuthorityRewards{Authority: a, Amount: m, Recipient: BOB},
		&teamtypes.MsgClaimAccountRewards{Authority: a, Id: n, Amount: m, Recipient: BOB},
		&teamtypes.MsgClawback{Authority: a, Id: n, Clawback: m},
		&teamtypes.MsgCreateTeamVestingAccount{Authority: a, TotalAllocation: n, Commencement: m},
	}
	for _, x := range msgs {
		vs.Assert((x.ValidateBasic() == nil) == good, "a well-formed message is accepted exactly with a valid sender")
		if good {
			s := x.GetSigners()
			vs.Assert(len(s) == 1 && s[0].Equals(Acc(ALICE)), "the sender signs")
		}
	}
	// second addresses
	for _, x := range []basicMsg{
		&delegationtypes.MsgDelegate{Creator: BOB, Staker: a, Amount: n},
		&delegationtypes.MsgWithdrawRewards{Creator: BOB, Staker: a},
		&delegationtypes.MsgUndelegate{Creator: BOB, Staker: a, Amount: n},
		&stakerstypes.MsgJoinPool{Creator: BOB, PoolId: n, Valaddress: a, Amount: m},
	} {
		vs.Assert((x.ValidateBasic() == nil) == good, "the other party is a valid address")
	}
	vs.Reach("checked")
}

// anyCoins is a list of coins of the given denoms with any amounts, and whether it is a proper coin set.
func anyCoins(name string, denoms []string) (sdk.Coins, bool) {
	var c sdk.Coins
	ok := len(denoms) > 0
	for i, d := range denoms {
		a := vs.Int(name+string(rune('0'+i)), "-1000", bigAmt)
		c = append(c, sdk.Coin{Denom: d, Amount: a})
		ok = vs.And(ok, a.BigInt().Sign() > 0, i == 0 || denoms[i-1] < d, len(d) > 2)
	}
	return c, ok
}

var x09denoms = [][]string{{}, {DENOM}, {coinB, DENOM}, {DENOM, coinB}, {DENOM, DENOM}, {"a"}, {coinB, DENOM, coinC}, {coinB, coinC, DENOM}}

// H_X09_coins: every list of coins up to three, sorted or not, with duplicates, bad names and any amounts.
func H_X09_coins() {
	k := vs.Choose("a", len(x09denoms))
	a, okA := anyCoins("a", x09denoms[k])
	vs.Assert(vs.Iff((&funderstypes.MsgDefundPool{Creator: ALICE, Amounts: a}).ValidateBasic() == nil, okA), "coins asked back are a proper coin set")
	vs.Assert(vs.Iff((&stakerstypes.MsgClaimCommissionRewards{Creator: ALICE, Amounts: a}).ValidateBasic() == nil, okA), "claimed coins are a proper coin set")
	l := []int{0, 2, 3, 4}[vs.Choose("b", 4)]
	b, okB := anyCoins("b", x09denoms[l])
	both := vs.And(vs.Or(okA, len(a) == 0), vs.Or(okB, len(b) == 0), len(a)+len(b) > 0)
	vs.Assert(vs.Iff((&funderstypes.MsgFundPool{Creator: ALICE, Amounts: a, AmountsPerBundle: b}).ValidateBasic() == nil, both), "funded coins are proper coin sets, one may be empty")
	vs.Reach("checked")
}

// H_X09_shares: commissions and weights of any sign and size, and left out.
func H_X09_shares() {
	var c math.LegacyDec
	none := vs.Choose("given", 2) == 0
	ok := false
	if !none {
		c = anyDec("c")
		ok = vs.Not(notShare(c))
	}
	n := vs.U64("n", 0, u64max)
	vs.Assert(vs.Iff((&stakerstypes.MsgUpdateCommission{Creator: ALICE, Commission: c}).ValidateBasic() == nil, ok), "a commission is given and a share")
	m := &stakerstypes.MsgCreateStaker{Creator: ALICE, Amount: n, Commission: c}
	vs.Assert(vs.Iff(m.ValidateBasic() == nil, vs.Or(none, ok)), "the first commission is a share or left out")
	if none {
		vs.Assert(m.Commission.Equal(dec("0.1")), "the first commission is ten percent if left out")
	} else {
		vs.Assert(m.Commission.Equal(c), "a given commission is kept")
	}
	vs.Assert(m.Amount == n && m.Creator == ALICE, "validation changes nothing else")
	vs.Reach("checked")
}

// H_X09_pools: new pools and pool updates with any intervals, sizes, weights and any of the fields left out.
func H_X09_pools() {
	iv, mx, md := vs.U64("interval", 0, u64max), vs.U64("size", 0, u64max), vs.U64("min", 0, u64max)
	wt := vs.Dec("weight", "-2000000000000000000", bigAmt)
	ok := vs.And(iv > 0, mx > 0, wt.BigInt().Sign() >= 0)
	m := &pooltypes.MsgCreatePool{Authority: GOV, UploadInterval: iv, InflationShareWeight: wt, MinDelegation: md, MaxBundleSize: mx}
	vs.Assert(vs.Iff(m.ValidateBasic() == nil, ok), "a new pool has an interval, a bundle size and a weight")
	m.InflationShareWeight = math.LegacyDec{}
	vs.Assert(m.ValidateBasic() != nil, "a new pool's weight is given")

	var names []string
	var vals []any
	good := true
	set := vs.Choose("with", 16)
	if set&1 != 0 {
		names, vals, good = append(names, "UploadInterval"), append(vals, iv), vs.And(good, iv > 0)
	}
	if set&2 != 0 {
		names, vals, good = append(names, "MaxBundleSize"), append(vals, mx), vs.And(good, mx > 0)
	}
	if set&4 != 0 {
		names, vals, good = append(names, "InflationShareWeight"), append(vals, wt), vs.And(good, wt.BigInt().Sign() >= 0)
	}
	if set&8 != 0 {
		names, vals = append(names, "MinDelegation"), append(vals, md)
	}
	payload := vs.JSON(names, vals)
	if set == 0 {
		k := vs.Choose("garbage", 4)
		payload, good = []string{"{}", "", "{", "7"}[k], k == 0
	}
	vs.Assert(vs.Iff((&pooltypes.MsgUpdatePool{Authority: GOV, Payload: payload}).ValidateBasic() == nil, good), "an update's interval, bundle size and weight are valid if given")
	vs.Reach("checked")
}

// H_X09_texts: names and descriptions of several lengths, and identities of several forms.
func H_X09_texts() {
	moniker := []string{"", "m"}[vs.Choose("moniker", 2)]
	vs.Assert(((&funderstypes.MsgCreateFunder{Creator: ALICE, Moniker: moniker}).ValidateBasic() == nil) == (moniker != ""), "a funder has a name")
	vs.Assert(((&funderstypes.MsgUpdateFunder{Creator: ALICE, Moniker: moniker}).ValidateBasic() == nil) == (moniker != ""), "a funder keeps a name")

	ids := []string{"", "0123456789abCDEF", "0123456789abcde", "0123456789abcdeg", "0123456789abcd", "0123456789abcdef01"}
	i := vs.Choose("identity", len(ids))
	t := []string{"", strings.Repeat("x", 255), strings.Repeat("x", 256)}
	k := vs.Choose("text", 9)
	m := &stakerstypes.MsgUpdateMetadata{Creator: ALICE, Identity: ids[i], Website: t[1], Moniker: t[1], SecurityContact: t[1], Details: t[1]}
	if k < 8 {
		*[]*string{&m.Website, &m.Moniker, &m.SecurityContact, &m.Details}[k/2] = t[k%2*2]
	}
	vs.Assert((m.ValidateBasic() == nil) == (i < 2 && (k == 8 || k%2 == 0)), "identities are 64 bits in hex or empty and texts at most 255 long")
	vs.Reach("checked")
}
