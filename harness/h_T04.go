//verif:use lib_team.go

package main

import (
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"

	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// one block's team inflation over the given accounts, with the module holding at least what the
// accounts and the authority are still owed. If fixed, what is owed, the supply and the provision
// are concrete while the accounts are arbitrary, otherwise the other way round.
func t04block(accs []teamtypes.TeamVestingAccount, now uint64, fixed bool) {
	w := NewWorld()
	w.At(1000, int64(now))
	for i := range accs {
		accs[i].Id = uint64(i)
		w.Team.AppendTeamVestingAccount(w.Ctx, accs[i])
	}
	au := teamtypes.Authority{RewardsClaimed: 3}
	var extra, prov, circ uint64
	if fixed {
		for i := range accs {
			vs.Assume(accs[i].TotalRewards-accs[i].RewardsClaimed <= teamCap)
		}
		au.TotalRewards = 3 + 3*teamCap
		for i := range accs {
			au.TotalRewards -= accs[i].TotalRewards - accs[i].RewardsClaimed
			au.TotalRewards += accs[i].UnlockedClaimed
		}
		prov = []uint64{0, 1, 7, 16_777_215, 123_456_789_011}[vs.Choose("provision", 5)]
		circ = 123_456_789_123_456_789
	} else {
		au.TotalRewards, au.RewardsClaimed = vs.U64("authTotal", 0, teamCap), vs.U64("authClaimed", 0, teamCap)
		vs.Assume(au.RewardsClaimed <= au.TotalRewards)
		extra = vs.U64("extra", 0, teamCap) // a third party may have sent coins to the module
		prov = vs.U64("provision", 0, 1_000_000_000_000_000)
		circ = vs.U64("circulating", 1, 5*teamCap)
	}
	w.Team.SetAuthority(w.Ctx, au)
	req := w.Team.GetTeamInfo(w.Ctx).RequiredModuleBalance
	w.GiveMod(teamtypes.ModuleName, req)
	w.GiveMod(teamtypes.ModuleName, extra)
	w.GiveMod(authtypes.FeeCollectorName, prov)
	w.GiveU(ALICE, circ)
	params := minttypes.DefaultParams()
	params.MintDenom = DENOM
	params.BlocksPerYear = 1
	if e := w.Mint.Params.Set(w.Ctx, params); e != nil {
		panic(e)
	}
	if e := w.Mint.Minter.Set(w.Ctx, minttypes.Minter{AnnualProvisions: decOf(prov), Inflation: decOf(0)}); e != nil {
		panic(e)
	}
	supply := w.Bank.GetSupply(w.Ctx, DENOM).Amount.BigInt()
	m0, f0 := w.ModBal(teamtypes.ModuleName), w.ModBal(authtypes.FeeCollectorName)

	w.beginTeam()

	paid := sub(f0, w.ModBal(authtypes.FeeCollectorName))
	vs.Assert(eq(sub(w.ModBal(teamtypes.ModuleName), m0), paid), "what leaves the fee collector reaches the team module")
	// the team's part: provision times the share of what is owed in the supply before this block
	base := sub(supply, bi(prov))
	exact := decOfBig(bi(req)).Quo(decOfBig(base)).Mul(decOfBig(bi(prov))).TruncateInt().BigInt()
	vs.Assert(vs.Or(eq(paid, exact), vs.And(le(mul(paid, base), add(mul(bi(prov), bi(req)), base)), le(mul(bi(prov), bi(req)), mul(add(paid, bi(2)), base)))), "team part is its share of the supply")
	credited := bi(0)
	all := w.Team.GetTeamVestingAccounts(w.Ctx)
	vs.Assert(len(all) == len(accs), "accounts stay")
	owed := bi(0)
	for i := range accs {
		b := all[i]
		vs.Assert(b.TotalRewards >= accs[i].TotalRewards, "account credit is not negative")
		c := sub(bi(b.TotalRewards), bi(accs[i].TotalRewards))
		credited = add(credited, c)
		st := teamkeeper.GetVestingStatus(accs[i], now)
		share := sub(bi(st.TotalVestedAmount), bi(accs[i].UnlockedClaimed))
		// c <= paid*share/TEAM_ALLOCATION, one unit of rounding
		want := decOfBig(share).Quo(decOfBig(bi(teamCap))).Mul(decOfBig(paid)).TruncateInt().BigInt()
		vs.Assert(vs.Or(eq(c, want), vs.And(le(mul(c, bi(teamCap)), mul(paid, share)), le(mul(paid, share), mul(add(c, bi(1)), bi(teamCap))))), "account credited its allocation share")
		b.TotalRewards = accs[i].TotalRewards
		vs.Assert(vs.SameMsg(&b, &accs[i]), "only the reward counter changes")
		owed = add(owed, sub(bi(all[i].TotalRewards), bi(all[i].RewardsClaimed)))
	}
	au2 := w.Team.GetAuthority(w.Ctx)
	vs.Assert(au2.TotalRewards >= au.TotalRewards, "authority credit is not negative")
	vs.Assert(au2.RewardsClaimed == au.RewardsClaimed, "authority claims untouched")
	credited = add(credited, sub(bi(au2.TotalRewards), bi(au.TotalRewards)))
	vs.Assert(eq(credited, paid), "credits of accounts and authority equal the team part")
	vs.Assert(w.Upg.Halts == 0, "no emergency halt")
	vs.Assert(le(bi(w.Team.GetTeamInfo(w.Ctx).RequiredModuleBalance), w.ModBal(teamtypes.ModuleName)), "module holds what is owed")
	vs.Assert(le(owed, w.ModBal(teamtypes.ModuleName)), "stored rewards are covered by the module's funds")
	vs.Reach("distributed")
	vs.Observe("paid", paid)
}

// H_T04_one: one account in any vesting state, given provisions.
func H_T04_one() {
	now := vs.U64("now", 1_600_000_000, 5_000_000_000)
	a := symTeamAccount("a")
	symTeamHistory("a", &a, now)
	t04block([]teamtypes.TeamVestingAccount{a}, now, true)
}

// H_T04_many: up to three fully vested accounts that share the whole allocation, any claims so far.
func H_T04_many() {
	now := uint64(2_500_000_000)
	var accs []teamtypes.TeamVestingAccount
	tot := bi(0)
	for _, n := range []string{"a", "b", "c"}[:vs.Choose("n", 4)] {
		a := teamtypes.TeamVestingAccount{TotalAllocation: vs.U64(n+".alloc", 1, teamCap), Commencement: 1_600_000_000, UnlockedClaimed: vs.U64(n+".claimed", 0, teamCap), TotalRewards: vs.U64(n+".rewards", 0, teamCap), RewardsClaimed: vs.U64(n+".rewardsClaimed", 0, teamCap), LastClaimedTime: vs.U64(n+".lastClaim", 0, now)}
		vs.Assume(vs.Or(a.UnlockedClaimed == 0, a.LastClaimedTime >= 1_800_000_000))
		vs.Assume(a.UnlockedClaimed <= a.TotalAllocation)
		vs.Assume(a.RewardsClaimed <= a.TotalRewards)
		tot = add(tot, bi(a.TotalAllocation))
		accs = append(accs, a)
	}
	vs.Assume(le(tot, bi(teamCap)))
	t04block(accs, now, true)
}

// H_T04_supply: given accounts, any supply, block provision and authority rewards.
func H_T04_supply() {
	now := uint64(1_700_000_000)
	var accs []teamtypes.TeamVestingAccount
	switch vs.Choose("accounts", 4) {
	case 1: // not vested at all and half vested
		accs = []teamtypes.TeamVestingAccount{{TotalAllocation: 7_000_000_001, Commencement: now - 1000}, {TotalAllocation: 99_999_999_999_999_999, Commencement: now - 2*yearSecs, TotalRewards: 5, RewardsClaimed: 3}}
	case 2: // the whole allocation, fully vested
		accs = []teamtypes.TeamVestingAccount{{TotalAllocation: teamCap / 3, Commencement: 1_500_000_000}, {TotalAllocation: teamCap / 3, Commencement: 1_500_000_000}, {TotalAllocation: teamCap / 3, Commencement: 1_500_000_000}}
	case 3: // clawed back and partly claimed
		accs = []teamtypes.TeamVestingAccount{{TotalAllocation: teamCap, Commencement: 1_500_000_000, Clawback: 1_550_000_000, UnlockedClaimed: 1_234_567, TotalRewards: 50_000_000_000}}
	}
	t04block(accs, now, false)
}
