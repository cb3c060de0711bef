//verif:use lib_funders.go
//verif:use lib_delegation.go
//verif:use lib_stakers.go

package main

import (
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

type s05req struct {
	staker string
	pool   uint64
	at     int64
}

// s05model knows who is a member and which announcements of the current membership are pending.
type s05model struct {
	w       *World
	notice  uint64
	in      map[string]bool
	pending []s05req
}

func (m *s05model) key(s string, p uint64) string { return nm("%s|%d", s, p) }

func (m *s05model) drop(s string, p uint64) {
	m.in[m.key(s, p)] = false
	var rest []s05req
	for _, r := range m.pending {
		if r.staker != s || r.pool != p {
			rest = append(rest, r)
		}
	}
	m.pending = rest
}

func (m *s05model) announced(s string, p uint64) bool {
	for _, r := range m.pending {
		if r.staker == s && r.pool == p {
			return true
		}
	}
	return false
}

func (m *s05model) check() {
	for p := uint64(0); p < 2; p++ {
		for _, s := range STAKERS[:2] {
			v, ok := m.w.Stakers.GetValaccount(m.w.Ctx, p, s)
			vs.Assert(ok == m.in[m.key(s, p)], "a validator leaves exactly when the notice of its current membership has passed")
			if ok {
				vs.Assert(v.IsLeaving == m.announced(s, p), "membership says whether it is leaving")
			}
		}
	}
}

func (m *s05model) block(t int64) {
	m.w.stakersBlock(t)
	for _, r := range append([]s05req{}, m.pending...) {
		if vs.Fork(le(add(vs.I64Big(r.at), bi(m.notice)), vs.I64Big(t))) {
			m.drop(r.staker, r.pool)
		}
	}
	m.check()
}

func (m *s05model) announce(s string, p uint64) {
	e := m.w.leave(s, p)
	want := m.in[m.key(s, p)] && !m.announced(s, p)
	vs.Assert((e == nil) == want, "leaving can be announced once by a member")
	if want {
		m.pending = append(m.pending, s05req{s, p, m.w.Time()})
	}
	m.check()
}

// H_S05_leave: announcements, removals and new joins at any times, any notice period.
func H_S05_leave() {
	n := 4
	if vs.Thorough() {
		n = 5
	}
	w := stakersWorld(2, 2)
	m := &s05model{w: w, notice: vs.U64("notice", 0, 1_000_000_000), in: map[string]bool{}}
	w.Stakers.SetParams(w.Ctx, stakerstypes.NewParams(7, m.notice))
	for i, s := range STAKERS[:2] {
		for p := uint64(0); p < 2; p++ {
			w.Stakers.AddValaccountToPool(w.Ctx, p, s, [][]string{VALSA, VALSB}[p][i])
			m.in[m.key(s, p)] = true
		}
	}
	t := int64(1_700_000_000)
	for i := 0; i < n; i++ {
		t += vs.I64(nm("dt%d", i), 0, 1_500_000_000)
		if i > 0 && vs.Choose(nm("block%d", i), 2) == 1 {
			m.block(t)
		} else {
			w.At(w.Ctx.BlockHeight(), t)
		}
		op := 0
		if i > 0 {
			op = vs.Choose(nm("op%d", i), 5)
		}
		switch op {
		case 0:
			m.announce(STAKER0, 0)
		case 1:
			m.announce(STAKER0, 1)
		case 2:
			m.announce(STAKER1, 0)
		case 3: // removed for another reason
			w.Stakers.LeavePool(w.Ctx, STAKER0, 0)
			m.drop(STAKER0, 0)
		case 4: // joins again
			was := m.in[m.key(STAKER0, 0)]
			e := w.join(STAKER0, 0, VAL0A, 0)
			vs.Assert((e == nil) == !was, "a former member can join again")
			m.in[m.key(STAKER0, 0)] = true
		}
		m.check()
	}
	t += vs.I64("last", 0, 1_500_000_000)
	m.block(t)
	t += 1_000_000_000
	m.block(t)
	vs.Assert(len(m.pending) == 0, "every announcement is honoured in the end")
	vs.Assert(len(w.Stakers.GetAllLeavePoolEntries(w.Ctx)) == 0, "no announcement outlives its membership")
	vs.Reach("end")
}
