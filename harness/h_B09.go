//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_pool.go
//verif:use lib_bundles.go

package main

import (
	"math/big"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// next selects like the module does: load, select, save.
func (w *World) next(pool uint64, excluded ...string) string {
	set := w.Bundles.LoadRoundRobinValidatorSet(w.Ctx, pool)
	n := set.NextProposer(excluded...)
	w.Bundles.SaveRoundRobinValidatorSet(w.Ctx, set)
	return n
}

// H_B09_step: any balanced progress, any stakes of three members, anybody excluded: who is selected and what is booked.
func H_B09_step() {
	w := bundlesWorld(3)
	none := vs.Choose("without stake", 4)
	var who []string
	var pw []*big.Int
	var prog []int64
	total, all := bi(0), bi(0)
	for i := 0; i < 3; i++ {
		if i == none {
			continue
		}
		s := vs.U64(nm("stake%d", i), 1, turnCap)
		w.mustDelegate(STAKERS[i], STAKERS[i], s)
		who = append(who, STAKERS[i])
		pw = append(pw, bi(s))
		total = add(total, bi(s))
		x := vs.I64(nm("progress%d", i), -4*turnCap, 4*turnCap)
		prog = append(prog, x)
		all = add(all, vs.I64Big(x))
	}
	n := int64(len(who))
	vs.Assume(vs.And(lt(big.NewInt(-n), all), lt(all, big.NewInt(n))))
	for i := range who {
		for j := range who {
			vs.Assume(le(sub(vs.I64Big(prog[i]), vs.I64Big(prog[j])), add(total, total)))
		}
	}
	w.setProgress(0, who, prog)
	w.setProgress(1, []string{STAKER0}, []int64{5})
	var ex []string
	mask := vs.Choose("excluded", 16)
	for i := 0; i < 4; i++ {
		if mask>>i&1 == 1 {
			ex = append(ex, []string{STAKER0, STAKER1, STAKER2, ALICE}[i])
		}
	}
	eligible, power := 0, bi(0)
	for i := range who {
		if !has(ex, who[i]) {
			eligible++
			power = add(power, pw[i])
		}
	}
	if eligible == 0 { // then nobody is excluded
		ex, power = nil, total
	}
	got := w.next(0, ex...)
	vs.Assert(has(who, got), "the next uploader is a member with stake")
	vs.Assert(!has(ex, got), "an excluded member is not selected")
	after, cnt := w.progress(0)
	vs.Assert(cnt == len(who), "exactly the members with stake have progress")
	at := -1
	for i := range who {
		if who[i] == got {
			at = i
		}
	}
	if at < 0 {
		return
	}
	ahead := add(vs.I64Big(prog[at]), pw[at])
	for i := range who {
		x := vs.I64Big(prog[i])
		switch {
		case has(ex, who[i]):
			vs.Assert(eq(after[who[i]], x), "the excluded keep their progress")
		case i == at:
			vs.Assert(eq(after[who[i]], sub(ahead, power)), "the selected pays the turn of all eligible")
		default:
			vs.Assert(le(add(x, pw[i]), ahead), "whoever is ahead is selected")
			vs.Assert(eq(after[who[i]], add(x, pw[i])), "the others advance by their stake")
		}
	}
	other, _ := w.progress(1)
	vs.Assert(eq(other[STAKER0], bi(5)), "other pools keep their progress")
	vs.Reach("selected")
}

// H_B09_change: members joined, left or changed stake since; progress is balanced and bounded again.
func H_B09_change() {
	w := bundlesWorld(3)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], vs.U64(nm("stake%d", i), 1, turnCap))
	}
	w.mustDelegate(STAKER3, STAKER3, 1000)
	lists := []struct {
		who  []string
		prog []int64
	}{
		{nil, nil},
		{[]string{STAKER0, STAKER1, STAKER2}, []int64{7, -3, -4}},
		{[]string{STAKER0, STAKER1, STAKER2}, []int64{100_000_000_000_000_000, 0, -300_000_000_000_000_000}},
		{[]string{STAKER0, STAKER1, STAKER2, STAKER3}, []int64{1000, -2000, 500_000, -900_000}}, // one left
		{[]string{STAKER1}, []int64{123_456_789}},                                               // two joined
		{[]string{STAKER3, STAKER2}, []int64{-5_000_000, 4_999_999}},                            // all but one changed
	}
	if vs.Thorough() {
		lists = append(lists, []struct {
			who  []string
			prog []int64
		}{
			{[]string{STAKER0, STAKER1, STAKER2}, []int64{1, 2, 3}},
			{[]string{STAKER0, STAKER2}, []int64{-400_000_000_000_000_000, 399_999_999_999_999_999}},
			{[]string{STAKER0, STAKER1, STAKER2}, []int64{-1, -1, -1_000_000_007}},
		}...)
	}
	l := lists[vs.Choose("progress", len(lists))]
	w.setProgress(0, l.who, l.prog)
	if vs.Choose("leave", 2) == 1 {
		w.Stakers.LeavePool(w.Ctx, STAKER0, 0)
	}
	set := w.Bundles.LoadRoundRobinValidatorSet(w.Ctx, 0)
	w.Bundles.SaveRoundRobinValidatorSet(w.Ctx, set)
	after, cnt := w.progress(0)
	all, total := bi(0), bi(0)
	var in []string
	for _, s := range STAKERS {
		_, ok := after[s]
		vs.Assert(ok == w.member(s, 0), "exactly the members with stake have progress")
		if ok {
			in = append(in, s)
			all = add(all, after[s])
			total = add(total, w.total(s))
		}
	}
	vs.Assert(cnt == len(in), "no member is listed twice")
	n := int64(len(in))
	vs.Assert(vs.And(lt(big.NewInt(-n), all), lt(all, big.NewInt(n))), "progress is balanced around zero")
	for i := range in {
		for j := range in {
			if i == j {
				continue
			}
			a, b := after[in[i]], after[in[j]]
			vs.Assert(le(sub(a, b), add(add(total, total), bi(uint64(n)))), "nobody is further ahead than two rounds of turns")
			io, jo := at(l.who, l.prog, in[i]), at(l.who, l.prog, in[j])
			if io != nil && jo != nil && *io > *jo {
				vs.Assert(le(b, a), "the order of members stays")
			}
			if io == nil && jo != nil && *jo >= 0 {
				vs.Assert(le(a, b), "a new member starts behind the members who are ahead")
			}
		}
	}
	vs.Reach("balanced")
}

func at(who []string, v []int64, s string) *int64 {
	for i := range who {
		if who[i] == s {
			return &v[i]
		}
	}
	return nil
}

// H_B09_turns: from the start, any stakes: turns are in proportion to stake, at most two turns off at any time.
func H_B09_turns() {
	w := bundlesWorld(3)
	rounds := 4
	if vs.Thorough() {
		rounds = 6
	}
	pw := make([]*big.Int, 3)
	total := bi(0)
	for i := 0; i < 3; i++ {
		s := vs.U64(nm("stake%d", i), 1, turnCap)
		w.mustDelegate(STAKERS[i], STAKERS[i], s)
		pw[i] = bi(s)
		total = add(total, pw[i])
	}
	turns := make([]uint64, 3)
	for k := 1; k <= rounds; k++ {
		got := w.next(0)
		for i := 0; i < 3; i++ {
			if got == STAKERS[i] {
				turns[i]++
			}
			due := mul(bi(uint64(k)), pw[i])
			had := mul(bi(turns[i]), total)
			vs.Assert(vs.And(le(sub(due, had), add(total, total)), le(sub(had, due), add(total, total))), "turns follow the stake")
		}
		vs.Assert(turns[0]+turns[1]+turns[2] == uint64(k), "somebody is selected every time")
	}
	vs.Reach("turns")
}

// H_B09_long: a few stakes, many rounds, with a member excluded now and then; nobody starves.
func H_B09_long() {
	w := bundlesWorld(3)
	st := [][]uint64{{1, 1, 1}, {1, 5, 14}, {1000, 1, 999}, {7, 7, 100}}[vs.Choose("stakes", 4)]
	total := uint64(0)
	for i := 0; i < 3; i++ {
		w.mustDelegate(STAKERS[i], STAKERS[i], st[i])
		total += st[i]
	}
	skip := vs.Choose("excluded first", 4)
	last := make([]uint64, 3)
	n := uint64(60)
	for k := uint64(1); k <= n; k++ {
		var got string
		if skip < 3 && k <= 3 {
			got = w.next(0, STAKERS[skip])
			vs.Assert(got != STAKERS[skip], "the excluded is not selected")
		} else {
			got = w.next(0)
		}
		for i := 0; i < 3; i++ {
			if got == STAKERS[i] {
				last[i] = k
			}
			vs.Assert(k-last[i] <= 3*total/st[i]+3, "nobody with stake starves")
		}
	}
}

// H_B09_nobody: without members with stake nobody is selected.
func H_B09_nobody() {
	w := bundlesWorld(3)
	w.mustDelegate(STAKER3, STAKER3, 1000)
	w.setProgress(0, []string{STAKER0, STAKER3}, []int64{vs.I64("a", -1<<40, 1<<40), 5})
	vs.Assert(w.next(0) == "" && w.next(0, STAKER1) == "", "without stake nobody is selected")
	_, cnt := w.progress(0)
	vs.Assert(cnt == 0, "without stake there is no progress")
}

// H_B09_rounds: however a round ends, the next uploader is a member of the pool with stake.
func H_B09_rounds() {
	w := bundlesWorld(3)
	stakes := [][]uint64{{1000, 1000, 1000}, {1, 300, 77}, {0, 5, 5}, {5, 5, 0}, {300, 0, 1}}[vs.Choose("stakes", 5)]
	for i := 0; i < 3; i++ {
		w.selfStake(i, stakes[i])
	}
	p := openBundle(STAKER0, STAKER1, 1000)
	castVote(&p, STAKER1, vs.Choose("vote1", 4))
	castVote(&p, STAKER2, vs.Choose("vote2", 4))
	w.Bundles.SetBundleProposal(w.Ctx, p)
	w.setPoints(0, STAKERS[vs.Choose("whose points", 3)], vs.U64("points", 0, 4))
	e := w.endRound(vs.Choose("way", nWays))
	got := w.proposal(0).NextUploader
	if e != nil {
		vs.Assert(got == STAKER1, "a failed transaction does not change the uploader")
		return
	}
	candidates := 0
	for i := 0; i < 3; i++ {
		if w.member(STAKERS[i], 0) && stakes[i] > 0 {
			candidates++
		}
	}
	if candidates > 0 {
		vs.Assert(got != "" && w.member(got, 0), "the next uploader is a member of the pool")
		vs.Reach("member")
	} else {
		vs.Assert(got == "" || w.member(got, 0), "without candidates only a member can stay uploader")
		vs.Reach("no candidate")
	}
	for i := 0; i < 3; i++ {
		vs.Assert(got != STAKERS[i] || i == 1 || stakes[i] > 0, "a newly selected uploader has stake")
	}
}
