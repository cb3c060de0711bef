//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go
//verif:use lib_team.go
//verif:use lib_events.go

package main

import (
	"fmt"
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"

	bundleskeeper "github.com/KYVENetwork/chain/x/bundles/keeper"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationkeeper "github.com/KYVENetwork/chain/x/delegation/keeper"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderskeeper "github.com/KYVENetwork/chain/x/funders/keeper"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globalkeeper "github.com/KYVENetwork/chain/x/global/keeper"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	poolkeeper "github.com/KYVENetwork/chain/x/pool/keeper"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerskeeper "github.com/KYVENetwork/chain/x/stakers/keeper"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// X10: the events tell exactly what happened.

func coinsOf(d string, x *big.Int) sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(d, math.NewIntFromBigInt(x)))
}

// gained is what an address has more than in the snapshot, in all coins.
func (w *World) gained(before *Bank, a sdk.AccAddress) sdk.Coins {
	c := sdk.NewCoins()
	for _, d := range fDenoms {
		c = c.Add(sdk.NewCoin(d, w.Bank.get(a, d).Sub(before.get(a, d))))
	}
	return c
}

// H_X10_team: an allocation of any size and times, then any clawback or claim of any amount.
func H_X10_team() {
	w := NewWorld()
	now := vs.U64("now", 1_600_000_000, 5_000_000_000)
	w.At(1000, int64(now))
	a := symTeamAccount("a")
	a.TotalRewards, a.RewardsClaimed = vs.U64("rewards", 0, teamCap), 3
	w.Team.AppendTeamVestingAccount(w.Ctx, teamtypes.TeamVestingAccount{TotalAllocation: 5, Commencement: 1_600_000_000, TotalRewards: 9, RewardsClaimed: 2})
	w.Team.AppendTeamVestingAccount(w.Ctx, a)
	w.Team.SetAuthority(w.Ctx, teamtypes.Authority{TotalRewards: vs.U64("authority", 0, teamCap), RewardsClaimed: 7})
	w.GiveMod(teamtypes.ModuleName, vs.U64("module", 0, 2*teamCap))
	signer := []string{teamtypes.FOUNDATION_ADDRESS, teamtypes.BCP_ADDRESS}[vs.Choose("signer", 2)]
	n := vs.U64("amount", 0, u64max)
	bank := w.Bank.snap()
	w.watch()
	var e error
	var want any
	switch vs.Choose("op", 5) {
	case 0:
		m := &teamtypes.MsgCreateTeamVestingAccount{Authority: signer, TotalAllocation: n, Commencement: vs.U64("start", 0, u64max)}
		e = w.Tx(func(ctx sdk.Context) error { _, e := teamMsg(w).CreateTeamVestingAccount(ctx, m); return e })
		if e == nil {
			got := w.teamAcc(2)
			want = &teamtypes.EventCreateTeamVestingAccount{Authority: signer, Id: 2, TotalAllocation: got.TotalAllocation, Commencement: got.Commencement}
		}
	case 1:
		m := &teamtypes.MsgClawback{Authority: signer, Id: 1, Clawback: vs.U64("clawback", 0, u64max)}
		e = w.Tx(func(ctx sdk.Context) error { _, e := teamMsg(w).Clawback(ctx, m); return e })
		if e == nil {
			got := w.teamAcc(1)
			// what will never vest
			left := teamkeeper.GetVestingStatus(got, 1<<62).TotalVestedAmount
			want = &teamtypes.EventClawback{Authority: signer, Id: 1, Clawback: got.Clawback, Amount: got.TotalAllocation - left}
		}
	case 2:
		m := &teamtypes.MsgClaimUnlocked{Authority: signer, Id: 1, Amount: n, Recipient: BOB}
		e = w.Tx(func(ctx sdk.Context) error { _, e := teamMsg(w).ClaimUnlocked(ctx, m); return e })
		if e == nil {
			vs.Assert(eq(w.BalU(BOB), add(bank.get(Acc(BOB), DENOM).BigInt(), bi(n))), "the recipient is paid")
			want = &teamtypes.EventClaimedUnlocked{Authority: signer, Id: 1, Amount: n, Recipient: BOB}
		}
	case 3:
		m := &teamtypes.MsgClaimAccountRewards{Authority: signer, Id: 1, Amount: n, Recipient: BOB}
		e = w.Tx(func(ctx sdk.Context) error { _, e := teamMsg(w).ClaimAccountRewards(ctx, m); return e })
		if e == nil {
			vs.Assert(eq(w.BalU(BOB), add(bank.get(Acc(BOB), DENOM).BigInt(), bi(n))), "the recipient is paid")
			want = &teamtypes.EventClaimInflationRewards{Authority: signer, Id: 1, Amount: n, Recipient: BOB}
		}
	case 4:
		m := &teamtypes.MsgClaimAuthorityRewards{Authority: signer, Amount: n, Recipient: BOB}
		e = w.Tx(func(ctx sdk.Context) error { _, e := teamMsg(w).ClaimAuthorityRewards(ctx, m); return e })
		if e == nil {
			vs.Assert(eq(w.BalU(BOB), add(bank.get(Acc(BOB), DENOM).BigInt(), bi(n))), "the recipient is paid")
			want = &teamtypes.EventClaimAuthorityRewards{Authority: signer, Amount: n, Recipient: BOB}
		}
	}
	if e == nil {
		vs.Reach("done")
		w.announced("team actions", want)
	}
}

// H_X10_delegation: stakes and rewards of any size; delegating, undelegating, redelegating, withdrawing (all of which
// pay out what was earned), the end of an unbonding, and slashes of every kind.
func H_X10_delegation() {
	w := delegWorld(2)
	w.setSlash("0.1", "0.2", "0.02")
	w.mustDelegate(STAKER0, STAKER0, 500)
	x := vs.U64("stake", 1, stakeCap)
	w.mustDelegate(ALICE, STAKER0, x)
	if vs.Choose("rewards", 2) == 1 {
		must(w.pay(STAKER1, nil))
		w.mustDelegate(BOB, STAKER1, 100)
		w.mustDelegate(ALICE, STAKER1, 300)
		must(w.pay(STAKER1, symCoins("reward", []string{coinB, DENOM})))
	}
	n := vs.U64("amount", 1, stakeCap)
	w.GiveU(ALICE, stakeCap)
	bank := w.Bank.snap()
	earned := func(was, is *big.Int) []any { // what ALICE got for her stake with STAKER1
		c := w.gained(bank, Acc(ALICE))
		if d := sub(is, was); vs.Fork(lt(bi(0), d)) {
			c = c.Add(coinsOf(DENOM, d)...)
		}
		if c.IsZero() {
			return nil
		}
		return []any{&delegationtypes.EventWithdrawRewards{Address: ALICE, Staker: STAKER1, Amounts: c.String()}}
	}
	was := w.BalU(ALICE)
	w.watch()
	_ = was
	switch vs.Choose("op", 6) {
	case 0:
		if e := w.delegate(ALICE, STAKER1, n); e == nil {
			vs.Reach("delegated")
			w.GiveU(ALICE, n) // what was delegated
			w.announced("a delegation", append(earned(bi(0), bi(0)), &delegationtypes.EventDelegate{Address: ALICE, Staker: STAKER1, Amount: n})...)
		}
	case 1:
		s0 := w.stake(STAKER0, ALICE)
		if e := w.undelegate(ALICE, STAKER0, n); e == nil {
			vs.Reach("undelegating")
			w.announced("an undelegation", &delegationtypes.EventStartUndelegation{Address: ALICE, Staker: STAKER0, Amount: n, EstimatedUndelegationDate: uint64(w.Time()) + 1000})
			if vs.Choose("slashed", 2) == 1 {
				s0 = w.stake(STAKER0, ALICE)
				t0 := w.total(STAKER0)
				w.slash(STAKER0, delegationtypes.SLASH_TYPE_UPLOAD)
				w.announced("a slash", &delegationtypes.EventSlash{PoolId: 0, Staker: STAKER0, Amount: u64of(sub(t0, w.total(STAKER0))), SlashType: delegationtypes.SLASH_TYPE_UPLOAD})
				s0 = w.stake(STAKER0, ALICE)
			}
			b := w.BalU(ALICE)
			w.At(1001, w.Time()+999)
			w.beginDelegation()
			w.announced("nothing")
			w.At(1002, w.Time()+1)
			w.beginDelegation()
			paid := sub(w.BalU(ALICE), b)
			vs.Assert(eq(paid, sub(s0, w.stake(STAKER0, ALICE))), "what unbonds is paid")
			w.announced("the end of an unbonding", &delegationtypes.EventUndelegate{Address: ALICE, Staker: STAKER0, Amount: u64of(paid)})
		}
	case 2:
		if e := w.redelegate(ALICE, STAKER0, STAKER1, n); e == nil {
			vs.Reach("redelegated")
			w.announced("a redelegation", append(earned(bi(0), bi(0)), &delegationtypes.EventRedelegate{Address: ALICE, FromStaker: STAKER0, ToStaker: STAKER1, Amount: n})...)
		}
	case 3:
		if e := w.withdraw(ALICE, STAKER1); e == nil {
			vs.Reach("withdrawn")
			w.announced("a withdrawal", earned(bi(0), bi(0))...)
		}
	case 4:
		t := []delegationtypes.SlashType{delegationtypes.SLASH_TYPE_TIMEOUT, delegationtypes.SLASH_TYPE_VOTE, delegationtypes.SLASH_TYPE_UPLOAD}[vs.Choose("type", 3)]
		t0 := w.total(STAKER0)
		w.Delegation.SlashDelegators(w.Ctx, 1, STAKER0, t)
		w.announced("a slash", &delegationtypes.EventSlash{PoolId: 1, Staker: STAKER0, Amount: u64of(sub(t0, w.total(STAKER0))), SlashType: t})
	case 5: // nobody is slashed
		w.slash(STAKER2, delegationtypes.SLASH_TYPE_VOTE)
		w.announced("nothing")
	}
}

func u64of(x *big.Int) uint64 { return math.NewIntFromBigInt(x).Uint64() }

// H_X10_stakers: registration, profile, commission change and its due date, claims, joining (with displacement), leaving
// and its due date; amounts and commissions of any size.
func H_X10_stakers() {
	w := stakersWorld(2, 1)
	n := vs.U64("amount", 0, stakeCap)
	c := anyDec("commission")
	switch vs.Choose("op", 5) {
	case 0:
		w.GiveU(ALICE, vs.U64("balance", 0, stakeCap))
		m := &stakerstypes.MsgCreateStaker{Creator: ALICE, Amount: n, Commission: c}
		w.watch()
		e := w.Tx(func(ctx sdk.Context) error {
			if e := m.ValidateBasic(); e != nil {
				return e
			}
			_, e := smsg(w).CreateStaker(ctx, m)
			return e
		})
		if e == nil {
			vs.Reach("created")
			vs.Assert(eq(w.stake(ALICE, ALICE), bi(n)) && w.Stakers.GetCommission(w.Ctx, ALICE).Equal(c), "the validator is set up as asked")
			want := []any{&stakerstypes.EventCreateStaker{Staker: ALICE, Amount: n, Commission: c}}
			for _, x := range w.seen() { // the first delegation may be announced, too
				if d, ok := x.(*delegationtypes.EventDelegate); ok {
					want = append(want, &delegationtypes.EventDelegate{Address: ALICE, Staker: ALICE, Amount: n})
					_ = d
				}
			}
			w.announced("a registration", want...)
		}
	case 1:
		m := &stakerstypes.MsgUpdateMetadata{Creator: STAKER1, Moniker: "a", Website: "b", Identity: "0123456789ABCDEF", SecurityContact: "c", Details: "d"}
		w.watch()
		must(w.Tx(func(ctx sdk.Context) error { _, e := smsg(w).UpdateMetadata(ctx, m); return e }))
		w.announced("a new profile", &stakerstypes.EventUpdateMetadata{Staker: STAKER1, Moniker: "a", Website: "b", Identity: "0123456789ABCDEF", SecurityContact: "c", Details: "d"})
	case 2:
		w.watch()
		e := w.Tx(func(ctx sdk.Context) error {
			m := &stakerstypes.MsgUpdateCommission{Creator: STAKER0, Commission: c}
			if e := m.ValidateBasic(); e != nil {
				return e
			}
			_, e := smsg(w).UpdateCommission(ctx, m)
			return e
		})
		if e == nil {
			w.announced("nothing")
			w.stakersBlock(w.Time() + 999)
			w.announced("nothing")
			w.stakersBlock(w.Time() + 1)
			vs.Reach("commission")
			vs.Assert(w.Stakers.GetCommission(w.Ctx, STAKER0).Equal(c), "the commission changes")
			w.announced("a commission change", &stakerstypes.EventUpdateCommission{Staker: STAKER0, Commission: c})
		}
	case 3:
		have := symCoins("have", denomSet(1+vs.Choose("have", 6)))
		s, _ := w.Stakers.GetStaker(w.Ctx, STAKER0)
		s.CommissionRewards = have
		w.Stakers.AppendStaker(w.Ctx, s)
		for _, x := range have {
			w.Give(ModAddr(stakerstypes.ModuleName), x.Denom, x.Amount)
		}
		m := &stakerstypes.MsgClaimCommissionRewards{Creator: STAKER0, Amounts: symCoins("claim", denomSet(1+vs.Choose("claim", 6)))}
		bank := w.Bank.snap()
		w.watch()
		e := w.Tx(func(ctx sdk.Context) error {
			if e := m.ValidateBasic(); e != nil {
				return e
			}
			_, e := smsg(w).ClaimCommissionRewards(ctx, m)
			return e
		})
		if e == nil {
			vs.Reach("claimed")
			w.announced("a claim", &stakerstypes.EventClaimCommissionRewards{Staker: STAKER0, Amounts: w.gained(bank, Acc(STAKER0)).String()})
		}
	case 4:
		w.GiveU(STAKER0, vs.U64("balance", 0, stakeCap))
		b := w.BalU(STAKER0)
		w.watch()
		if e := w.join(STAKER0, 0, VAL0A, n); e == nil {
			vs.Reach("joined")
			vs.Assert(eq(w.BalU(STAKER0), sub(b, bi(n))) && eq(w.BalU(VAL0A), bi(n)), "the worker account is funded")
			w.announced("joining", &stakerstypes.EventJoinPool{PoolId: 0, Staker: STAKER0, Valaddress: VAL0A, Amount: n})
			must(w.leave(STAKER0, 0))
			w.announced("nothing")
			w.stakersBlock(w.Time() + 999)
			w.announced("nothing")
			w.stakersBlock(w.Time() + 1)
			vs.Assert(!w.member(STAKER0, 0), "the validator has left")
			w.announced("leaving", &stakerstypes.EventLeavePool{PoolId: 0, Staker: STAKER0})
		}
	}
}

func x10addr(i int) string {
	return sdk.AccAddress([]byte(fmt.Sprintf("staker--------------%02d", i))).String()
}

// H_X10_displaced: joining a full pool with any stake displaces the weakest member, which is announced.
func H_X10_displaced() {
	w := NewWorld()
	w.Pool.AppendPool(w.Ctx, pooltypes.Pool{Name: "p"})
	w.setSlash("0.1", "0.2", "0.02")
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(1000, 1000))
	for i := 0; i <= stakerstypes.MaxStakers; i++ {
		a := x10addr(i)
		w.Stakers.AppendStaker(w.Ctx, stakerstypes.Staker{Address: a, Commission: dec("0.1")})
		stake := uint64(1_000_000_000)
		if i == 7 {
			stake = vs.U64("weakest", 1, 500_000_000)
		}
		if i == stakerstypes.MaxStakers {
			stake = vs.U64("newcomer", 1, 500_000_000)
		}
		w.mustDelegate(a, a, stake)
		if i < stakerstypes.MaxStakers {
			w.Stakers.AddValaccountToPool(w.Ctx, 0, a, sdk.AccAddress([]byte(fmt.Sprintf("worker--------------%02d", i))).String())
		}
	}
	w.watch()
	if e := w.join(x10addr(stakerstypes.MaxStakers), 0, VAL0A, 0); e == nil {
		vs.Reach("displaced")
		vs.Assert(!w.member(x10addr(7), 0), "the weakest is displaced")
		w.announced("displacement", &stakerstypes.EventJoinPool{PoolId: 0, Staker: x10addr(stakerstypes.MaxStakers), Valaddress: VAL0A}, &stakerstypes.EventLeavePool{PoolId: 0, Staker: x10addr(7)})
	}
}

// H_X10_funders: profiles, fundings and refunds of any coins, and the charge for a bundle.
func H_X10_funders() {
	w := fundersWorld(plainWhitelist())
	w.addFunding(symFunding("b", BOB, 0, []string{coinB, DENOM}))
	w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: ALICE, Moniker: "m"})
	for _, d := range fDenoms {
		w.Give(Acc(ALICE), d, vs.Int("balance."+d, "0", bigAmt))
	}
	bank := w.Bank.snap()
	w.watch()
	switch vs.Choose("op", 5) {
	case 0:
		m := &funderstypes.MsgCreateFunder{Creator: CHARLIE, Moniker: "a", Identity: "b", Website: "c", Contact: "d", Description: "e"}
		must(w.Tx(func(ctx sdk.Context) error { _, e := fundersMsg(w).CreateFunder(ctx, m); return e }))
		w.announced("a new profile", &funderstypes.EventCreateFunder{Address: CHARLIE, Moniker: "a", Identity: "b", Website: "c", Contact: "d", Description: "e"})
	case 1:
		m := &funderstypes.MsgUpdateFunder{Creator: BOB, Moniker: "a", Identity: "b", Website: "c", Contact: "d", Description: "e"}
		must(w.Tx(func(ctx sdk.Context) error { _, e := fundersMsg(w).UpdateFunder(ctx, m); return e }))
		w.announced("a changed profile", &funderstypes.EventUpdateFunder{Address: BOB, Moniker: "a", Identity: "b", Website: "c", Contact: "d", Description: "e"})
	case 2:
		k := denomSet(1 + vs.Choose("coins", 3))
		m := &funderstypes.MsgFundPool{Creator: ALICE, PoolId: 0, Amounts: symCoins("m.amt", k), AmountsPerBundle: symCoins("m.per", k)}
		if e := w.Tx(func(ctx sdk.Context) error { _, e := fundersMsg(w).FundPool(ctx, m); return e }); e == nil {
			vs.Reach("funded")
			f := w.funding(ALICE, 0)
			w.announced("a funding", &funderstypes.EventFundPool{PoolId: 0, Address: ALICE, Amounts: w.gained(bank, ModAddr(funderstypes.ModuleName)).String(), AmountsPerBundle: f.AmountsPerBundle.String()})
		}
	case 3:
		m := &funderstypes.MsgDefundPool{Creator: BOB, PoolId: 0, Amounts: symCoins("m", denomSet(1+vs.Choose("coins", 3)))}
		if e := w.Tx(func(ctx sdk.Context) error { _, e := fundersMsg(w).DefundPool(ctx, m); return e }); e == nil {
			vs.Reach("defunded")
			w.announced("a refund", &funderstypes.EventDefundPool{PoolId: 0, Address: BOB, Amounts: w.gained(bank, Acc(BOB)).String()})
		}
	case 4:
		second := vs.Choose("second", 2) == 1
		if second {
			w.addFunding(symFunding("d", DAVID, 0, []string{DENOM}))
		}
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := w.Funders.ChargeFundersOfPool(ctx, 0, pooltypes.ModuleName)
			return e
		}))
		if w.isActiveFunder(0, BOB) || w.isActiveFunder(0, DAVID) {
			w.announced("a charge")
		} else {
			vs.Reach("out of funds")
			w.announced("running out of funds", &funderstypes.EventPoolOutOfFunds{PoolId: 0})
		}
		w.Tx(func(ctx sdk.Context) error {
			_, e := w.Funders.ChargeFundersOfPool(ctx, 1, pooltypes.ModuleName)
			return e
		})
		w.announced("nothing")
	}
}

// H_X10_slots: all slots taken, the weakest funder with any coins; a newcomer with any amount.
func H_X10_slots() {
	w := fundersWorld(plainWhitelist())
	for i := 0; i < funderstypes.MaxFunders; i++ {
		c := sdk.Coins{{Denom: DENOM, Amount: math.NewInt(1_000_000_000_000_000_000)}}
		if i == 20 {
			c = sdk.Coins{{Denom: coinB, Amount: vs.Int("w.b", "1", "1000000")}, {Denom: DENOM, Amount: vs.Int("w.n", "1000", "1000000")}}
		}
		w.addFunding(funderstypes.Funding{FunderAddress: sdk.AccAddress([]byte(fmt.Sprintf("funder--------------%02d", i))).String(), PoolId: 0, Amounts: c, AmountsPerBundle: sdk.Coins{{Denom: DENOM, Amount: math.NewInt(10)}}})
	}
	weak := sdk.AccAddress([]byte("funder--------------20"))
	w.Funders.SetFunder(w.Ctx, &funderstypes.Funder{Address: ALICE, Moniker: "m"})
	a := vs.Int("amount", "1000", "100000000000000000")
	w.Give(Acc(ALICE), DENOM, a)
	bank := w.Bank.snap()
	w.watch()
	m := &funderstypes.MsgFundPool{Creator: ALICE, PoolId: 0, Amounts: sdk.Coins{{Denom: DENOM, Amount: a}}, AmountsPerBundle: sdk.Coins{{Denom: DENOM, Amount: math.NewInt(10)}}}
	if e := w.Tx(func(ctx sdk.Context) error { _, e := fundersMsg(w).FundPool(ctx, m); return e }); e == nil {
		vs.Reach("displaced")
		w.announced("displacement", &funderstypes.EventFundPool{PoolId: 0, Address: ALICE, Amounts: m.Amounts.String(), AmountsPerBundle: m.AmountsPerBundle.String()},
			&funderstypes.EventDefundPool{PoolId: 0, Address: weak.String(), Amounts: w.gained(bank, weak).String()})
	}
}

// H_X10_pool: creating, updating, enabling and disabling pools, and scheduling and cancelling upgrades; any numbers and times.
func H_X10_pool() {
	w := stakersWorld(2, 0)
	w.setPoolParams("0.1", "0.05", "1")
	for i := 0; i < 3; i++ {
		p := basePool(dec("1"))
		p.Disabled = i == 1
		p.Runtime = []string{"r", "r", "other"}[i]
		id := w.Pool.AppendPool(w.Ctx, p)
		w.Funders.CreateFundingState(w.Ctx, id)
	}
	iv, md, mx := vs.U64("interval", 0, u64max), vs.U64("min", 0, u64max), vs.U64("max", 0, u64max)
	wt := anyDec("weight")
	sp, cp := uint32(vs.U64("storage", 0, 1<<32-1)), uint32(vs.U64("compression", 0, 1<<32-1))
	w.watch()
	switch vs.Choose("op", 5) {
	case 0:
		m := &pooltypes.MsgCreatePool{Authority: GOV, Name: "n", Runtime: "r", Logo: "l", Config: "c", StartKey: "0", EndKey: "9", UploadInterval: iv, InflationShareWeight: wt, MinDelegation: md, MaxBundleSize: mx, Version: "1", Binaries: "{}", StorageProviderId: sp, CompressionId: cp}
		must(w.Tx(func(ctx sdk.Context) error { _, e := pmsg(w).CreatePool(ctx, m); return e }))
		w.announced("a new pool", &pooltypes.EventCreatePool{Id: 3, Name: "n", Runtime: "r", Logo: "l", Config: "c", StartKey: "0", EndKey: "9", UploadInterval: iv, InflationShareWeight: wt, MinDelegation: md, MaxBundleSize: mx, Version: "1", Binaries: "{}", StorageProviderId: sp, CompressionId: cp})
	case 1:
		payload := vs.JSON([]string{"Logo", "UploadInterval", "MinDelegation"}, []any{"new", iv, md})
		if vs.Choose("payload", 2) == 1 {
			payload = vs.JSON([]string{"Name", "Runtime", "Config", "InflationShareWeight", "MaxBundleSize", "StorageProviderId", "CompressionId"}, []any{"a", "b", "c", wt, mx, sp, cp})
		}
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := pmsg(w).UpdatePool(ctx, &pooltypes.MsgUpdatePool{Authority: GOV, Id: 1, Payload: payload})
			return e
		}))
		p := w.pool(1)
		w.announced("a pool update", &pooltypes.EventPoolUpdated{Id: 1, RawUpdateString: payload, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, Config: p.Config, UploadInterval: p.UploadInterval, InflationShareWeight: p.InflationShareWeight,
			MinDelegation: p.MinDelegation, MaxBundleSize: p.MaxBundleSize, StorageProviderId: p.CurrentStorageProviderId, CompressionId: p.CurrentCompressionId})
	case 2:
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := pmsg(w).EnablePool(ctx, &pooltypes.MsgEnablePool{Authority: GOV, Id: 1})
			return e
		}))
		w.announced("enabling", &pooltypes.EventPoolEnabled{Id: 1})
	case 3:
		w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER0, VAL0A)
		w.Stakers.AddValaccountToPool(w.Ctx, 0, STAKER1, VAL1A)
		w.Stakers.AddValaccountToPool(w.Ctx, 2, STAKER1, VAL1B)
		w.watch()
		must(w.disable(0))
		w.announced("disabling", &pooltypes.EventPoolDisabled{Id: 0}, &stakerstypes.EventLeavePool{PoolId: 0, Staker: STAKER0}, &stakerstypes.EventLeavePool{PoolId: 0, Staker: STAKER1})
	case 4:
		at, dur := vs.U64("at", 0, 1<<62), vs.U64("duration", 0, 1<<62)
		schedule := func(rt string) {
			m := &pooltypes.MsgScheduleRuntimeUpgrade{Authority: GOV, Runtime: rt, Version: "2", Binaries: "b", ScheduledAt: at, Duration: dur}
			must(w.Tx(func(ctx sdk.Context) error { _, e := pmsg(w).ScheduleRuntimeUpgrade(ctx, m); return e }))
		}
		schedule("other")
		w.announced("scheduling", &pooltypes.EventRuntimeUpgradeScheduled{Runtime: "other", Version: "2", ScheduledAt: w.pool(2).UpgradePlan.ScheduledAt, Duration: w.pool(2).UpgradePlan.Duration, Binaries: "b", AffectedPools: []uint64{2}})
		schedule("r")
		w.announced("scheduling", &pooltypes.EventRuntimeUpgradeScheduled{Runtime: "r", Version: "2", ScheduledAt: w.pool(1).UpgradePlan.ScheduledAt, Duration: w.pool(1).UpgradePlan.Duration, Binaries: "b", AffectedPools: []uint64{0, 1}})
		must(w.Tx(func(ctx sdk.Context) error {
			_, e := pmsg(w).CancelRuntimeUpgrade(ctx, &pooltypes.MsgCancelRuntimeUpgrade{Authority: GOV, Runtime: "r"})
			return e
		}))
		w.announced("cancelling", &pooltypes.EventRuntimeUpgradeCancelled{Runtime: "r", AffectedPools: []uint64{0, 1}})
	}
}

// H_X10_params: an update of some parameters of each module, to any values.
func H_X10_params() {
	w := bundlesWorld(1)
	w.Global.SetParams(w.Ctx, globaltypes.NewParams(dec("0.1"), dec("0.2"), nil, nil))
	d, n := okDec("d"), vs.U64("n", 1, 1<<62)
	w.watch()
	var e error
	var want any
	switch vs.Choose("module", 6) {
	case 0:
		p := vs.JSON([]string{"UploadTimeout", "NetworkFee"}, []any{n, d})
		old := w.Bundles.GetParams(w.Ctx)
		e = w.Tx(func(ctx sdk.Context) error {
			_, e := bundleskeeper.NewMsgServerImpl(w.Bundles).UpdateParams(ctx, &bundlestypes.MsgUpdateParams{Authority: GOV, Payload: p})
			return e
		})
		want = &bundlestypes.EventUpdateParams{OldParams: old, NewParams: w.Bundles.GetParams(w.Ctx), Payload: p}
	case 1:
		p := vs.JSON([]string{"RedelegationCooldown", "VoteSlash"}, []any{n, d})
		old := w.Delegation.GetParams(w.Ctx)
		e = w.Tx(func(ctx sdk.Context) error {
			_, e := delegationkeeper.NewMsgServerImpl(w.Delegation).UpdateParams(ctx, &delegationtypes.MsgUpdateParams{Authority: GOV, Payload: p})
			return e
		})
		want = &delegationtypes.EventUpdateParams{OldParams: old, NewParams: w.Delegation.GetParams(w.Ctx), Payload: p}
	case 2:
		p := vs.JSON([]string{"MinFundingMultiple"}, []any{n})
		old := w.Funders.GetParams(w.Ctx)
		e = w.Tx(func(ctx sdk.Context) error {
			_, e := funderskeeper.NewMsgServerImpl(w.Funders).UpdateParams(ctx, &funderstypes.MsgUpdateParams{Authority: GOV, Payload: p})
			return e
		})
		want = &funderstypes.EventUpdateParams{OldParams: old, NewParams: w.Funders.GetParams(w.Ctx), Payload: p}
	case 3:
		p := vs.JSON([]string{"MinGasPrice", "BurnRatio"}, []any{d, d})
		old := w.Global.GetParams(w.Ctx)
		e = w.Tx(func(ctx sdk.Context) error {
			_, e := globalkeeper.NewMsgServerImpl(w.Global).UpdateParams(ctx, &globaltypes.MsgUpdateParams{Authority: GOV, Payload: p})
			return e
		})
		want = &globaltypes.EventUpdateParams{OldParams: old, NewParams: w.Global.GetParams(w.Ctx), Payload: p}
	case 4:
		p := vs.JSON([]string{"ProtocolInflationShare", "MaxVotingPowerPerPool"}, []any{d, d})
		old := w.Pool.GetParams(w.Ctx)
		e = w.Tx(func(ctx sdk.Context) error {
			_, e := poolkeeper.NewMsgServerImpl(w.Pool).UpdateParams(ctx, &pooltypes.MsgUpdateParams{Authority: GOV, Payload: p})
			return e
		})
		want = &pooltypes.EventUpdateParams{OldParams: old, NewParams: w.Pool.GetParams(w.Ctx), Payload: p}
	case 5:
		p := vs.JSON([]string{"CommissionChangeTime", "LeavePoolTime"}, []any{n, n})
		old := w.Stakers.GetParams(w.Ctx)
		e = w.Tx(func(ctx sdk.Context) error {
			_, e := stakerskeeper.NewMsgServerImpl(w.Stakers).UpdateParams(ctx, &stakerstypes.MsgUpdateParams{Authority: GOV, Payload: p})
			return e
		})
		want = &stakerstypes.EventUpdateParams{OldParams: old, NewParams: w.Stakers.GetParams(w.Ctx), Payload: p}
	}
	vs.Assert(e == nil, "valid parameters are accepted")
	w.announced("a parameter update", want)
}

// H_X10_proposed: claiming the uploader role, the first bundle, and votes; any figures.
func H_X10_proposed() {
	w := bundlesWorld(3)
	for i := range STAKERS[:3] {
		w.mustDelegate(STAKERS[i], STAKERS[i], 1000)
	}
	idx, n := vs.U64("index", 0, 1<<62), vs.U64("bundles", 0, 1<<62)
	w.setPool(0, func(p *pooltypes.Pool) {
		p.CurrentIndex, p.TotalBundles, p.CurrentKey = idx, n, "9"
		p.CurrentStorageProviderId, p.CurrentCompressionId = uint32(vs.U64("storage", 0, 1<<32-1)), uint32(vs.U64("compression", 0, 1<<32-1))
	})
	w.watch()
	must(w.claim(bundlestypes.MsgClaimUploaderRole{Creator: VAL0A, Staker: STAKER0, PoolId: 0}))
	w.announced("a claim", &bundlestypes.EventClaimedUploaderRole{PoolId: 0, Id: n, NewUploader: STAKER0})
	t := w.Time() + vs.I64("later", 60, 1<<40)
	w.At(1001, t)
	w.setPoints(0, STAKER0, 2)
	m := w.plainSubmit(STAKER0)
	m.DataSize, m.BundleSize = vs.U64("bytes", 1, 1<<62), vs.U64("size", 1, 100)
	must(w.submit(m))
	p := w.pool(0)
	w.announced("a new bundle", &bundlestypes.EventPointsReset{PoolId: 0, Staker: STAKER0},
		&bundlestypes.EventBundleProposed{PoolId: 0, Id: n, StorageId: m.StorageId, Uploader: STAKER0, DataSize: m.DataSize, FromIndex: idx, BundleSize: m.BundleSize, FromKey: m.FromKey, ToKey: m.ToKey,
			BundleSummary: m.BundleSummary, DataHash: m.DataHash, ProposedAt: uint64(t), StorageProviderId: p.CurrentStorageProviderId, CompressionId: p.CurrentCompressionId},
		&bundlestypes.EventBundleVote{PoolId: 0, Staker: STAKER0, StorageId: m.StorageId, Vote: bundlestypes.VOTE_TYPE_VALID})
	for i := 0; i < 2; i++ { // possibly first abstain, then decide
		v := bundlestypes.VoteType(vs.Choose("vote", 4))
		points := w.points(0, STAKER1)
		_ = points
		if e := w.vote(bundlestypes.MsgVoteBundleProposal{Creator: VAL1A, Staker: STAKER1, PoolId: 0, StorageId: m.StorageId, Vote: v}); e == nil {
			vs.Reach("voted")
			w.announced("a vote", &bundlestypes.EventBundleVote{PoolId: 0, Staker: STAKER1, StorageId: m.StorageId, Vote: v})
		}
	}
}

// H_X10_round: any end of a round: the open bundle is valid, invalid or undecided, by votes and stakes from a list; any
// funding, inflation payout and position of the pool.
func H_X10_round() {
	w := bundlesWorld(3)
	split := vs.Choose("reward", 2) // the uploader's reward is commission only or storage cost only
	w.setBundlesParams(600, 5, "0.01", []string{"0", "0.5"}[split])
	w.Stakers.UpdateStakerCommission(w.Ctx, STAKER0, dec([]string{"0.1", "0"}[split]))
	stakes := [][]uint64{{601, 205, 103}, {99, 600, 301}, {300, 300, 300}}[vs.Choose("stakes", 3)]
	for i := range stakes {
		w.mustDelegate(STAKERS[i], STAKERS[i], stakes[i])
	}
	idx, n := vs.U64("index", 0, 1<<62), vs.U64("bundles", 0, 1<<62)
	w.setPool(0, func(p *pooltypes.Pool) { p.CurrentIndex, p.TotalBundles, p.CurrentKey = idx, n, "x" })
	per := vs.Int("per", "1", bigAmt)
	w.fund(ALICE, 0, sdk.Coins{{Denom: DENOM, Amount: vs.Int("funds", "1", bigAmt)}}, sdk.Coins{{Denom: DENOM, Amount: per}})
	w.Give(w.poolAcc(0), DENOM, math.NewIntFromUint64(vs.U64("inflation", 0, stakeCap)))
	way := vs.Choose("way", nWays)
	p := openBundle(STAKER0, STAKER1, 1000)
	votes := [][2]int{{voteValid, voteInvalid}, {voteAbstain, noVote}, {voteInvalid, voteValid}, {voteInvalid, noVote}, {voteValid, voteAbstain}}[vs.Choose("votes", 5)]
	castVote(&p, STAKER1, votes[0])
	castVote(&p, STAKER2, votes[1])
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.setPoints(0, STAKER2, 1)

	bank := w.Bank.snap()
	totals := w.stakes()
	t := w.tally(0, p)
	w.watch()
	e := w.endRound(way)
	if e != nil {
		return
	}
	vs.Reach("ended")
	verdict := t.verdict()
	next := w.proposal(0)
	now := uint64(w.Time())
	var want []any
	slashed := bi(0)
	lose := func(i int, kind delegationtypes.SlashType) {
		x := sub(totals[i], w.total(STAKERS[i]))
		slashed = add(slashed, x)
		want = append(want, &delegationtypes.EventSlash{PoolId: 0, Staker: STAKERS[i], Amount: u64of(x), SlashType: kind}, &stakerstypes.EventLeavePool{PoolId: 0, Staker: STAKERS[i]})
	}
	for i := range STAKERS[:3] {
		switch voteOf(p, STAKERS[i]) {
		case noVote:
			want = append(want, &bundlestypes.EventPointIncreased{PoolId: 0, Staker: STAKERS[i], CurrentPoints: 2})
		case voteValid:
			if verdict == verdictInvalid && i == 0 {
				lose(i, delegationtypes.SLASH_TYPE_UPLOAD)
			} else if verdict == verdictInvalid {
				lose(i, delegationtypes.SLASH_TYPE_VOTE)
			}
		case voteInvalid:
			if verdict == verdictValid {
				lose(i, delegationtypes.SLASH_TYPE_VOTE)
			}
		}
	}
	final := &bundlestypes.EventBundleFinalized{PoolId: 0, Id: n, Valid: u64of(t.valid), Invalid: u64of(t.invalid), Abstain: u64of(t.abstain), Total: u64of(t.total), Uploader: STAKER0, FinalizedAt: now}
	count := n
	gain := func(a sdk.AccAddress) *big.Int { return sub(w.Bal(a, DENOM), bank.get(a, DENOM).BigInt()) }
	switch verdict {
	case verdictNone:
		final.Status = bundlestypes.BUNDLE_STATUS_NO_QUORUM
	case verdictInvalid:
		final.Status = bundlestypes.BUNDLE_STATUS_INVALID
	case verdictValid:
		count++
		vs.Reach("valid")
		funders, infl := sub(bi(0), gain(ModAddr(funderstypes.ModuleName))), sub(bi(0), gain(w.poolAcc(0)))
		final.Status = bundlestypes.BUNDLE_STATUS_VALID
		final.NextUploader = next.NextUploader
		final.FundersPayout = coinsOf(DENOM, funders).String()
		final.InflationPayout = u64of(infl)
		final.RewardTotal = coinsOf(DENOM, add(funders, infl)).String()
		final.RewardTreasury = coinsOf(DENOM, sub(gain(ModAddr(distrtypes.ModuleName)), slashed)).String()
		final.RewardDelegation = coinsOf(DENOM, add(gain(ModAddr(delegationtypes.ModuleName)), slashed)).String()
		final.RewardUploader = coinsOf(DENOM, gain(ModAddr(stakerstypes.ModuleName))).String()
		if split == 0 {
			final.RewardUploaderCommission = final.RewardUploader
		} else {
			final.RewardUploaderStorageCost = final.RewardUploader
		}
		if !w.isActiveFunder(0, ALICE) {
			want = append(want, &funderstypes.EventPoolOutOfFunds{PoolId: 0})
		}
	}
	if way != bySkip || verdict != verdictNone {
		want = append(want, final)
	}
	switch {
	case way == bySubmit && verdict == verdictValid:
		m := w.proposal(0)
		want = append(want, &bundlestypes.EventBundleProposed{PoolId: 0, Id: count, StorageId: "next-id", Uploader: STAKER1, DataSize: 7, FromIndex: idx + 10, BundleSize: 3, FromKey: "10", ToKey: "12",
			BundleSummary: "sum2", DataHash: "hash2", ProposedAt: now, StorageProviderId: m.StorageProviderId, CompressionId: m.CompressionId},
			&bundlestypes.EventBundleVote{PoolId: 0, Staker: STAKER1, StorageId: "next-id", Vote: bundlestypes.VOTE_TYPE_VALID})
	case way == bySkip:
		want = append(want, &bundlestypes.EventSkippedUploaderRole{PoolId: 0, Id: count, PreviousUploader: STAKER1, NewUploader: next.NextUploader})
	case way == byTimeout && verdict != verdictNone && w.member(STAKER1, 0):
		want = append(want, &bundlestypes.EventPointIncreased{PoolId: 0, Staker: STAKER1, CurrentPoints: 1})
	}
	w.announced("the end of a round", want...)
}
