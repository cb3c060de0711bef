//verif:use lib_delegation.go
//verif:use lib_stakers.go
//verif:use lib_funders.go
//verif:use lib_pool.go

package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	pooltypes "github.com/KYVENetwork/chain/x/pool/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

type p03pool struct {
	rt, version, binaries string
	last                  uint64
	plan                  bool
	pver, pbin            string
	at, dur               uint64
}

type p03model struct {
	w     *World
	pools []p03pool
	orig  []pooltypes.Pool
}

func p03world() *p03model {
	w := NewWorld()
	w.setPoolParams("0.1", "0.05", "1")
	m := &p03model{w: w}
	for _, rt := range []string{"r", "r-b", "r"} {
		p := basePool(dec("1"))
		p.Runtime = rt
		p.Protocol.LastUpgrade = 5
		p.CurrentIndex = 17
		if len(m.pools) == 2 {
			p.Disabled = true
		}
		w.Pool.AppendPool(w.Ctx, p)
		m.pools = append(m.pools, p03pool{rt: rt, version: "1", binaries: "{}", last: 5})
		m.orig = append(m.orig, w.pool(uint64(len(m.pools)-1)))
	}
	return m
}

func (m *p03model) schedule(auth, rt, version, binaries string, at, dur uint64) {
	msg := &pooltypes.MsgScheduleRuntimeUpgrade{Authority: auth, Runtime: rt, Version: version, Binaries: binaries, ScheduledAt: at, Duration: dur}
	e := m.w.Tx(func(ctx sdk.Context) error {
		if e := msg.ValidateBasic(); e != nil {
			return e
		}
		_, e := pmsg(m.w).ScheduleRuntimeUpgrade(ctx, msg)
		return e
	})
	ok := auth == GOV && version != "" && binaries != ""
	vs.Assert((e == nil) == ok, "upgrades are scheduled by governance, with version and binaries")
	if ok {
		now := uint64(m.w.Time())
		for i := range m.pools {
			p := &m.pools[i]
			if p.rt == rt && !p.plan {
				p.plan, p.pver, p.pbin, p.dur = true, version, binaries, dur
				p.at = vs.IteU64(at < now, now, at)
			}
		}
	}
	m.check()
}

func (m *p03model) cancel(auth, rt string) {
	msg := &pooltypes.MsgCancelRuntimeUpgrade{Authority: auth, Runtime: rt}
	e := m.w.Tx(func(ctx sdk.Context) error {
		if e := msg.ValidateBasic(); e != nil {
			return e
		}
		_, e := pmsg(m.w).CancelRuntimeUpgrade(ctx, msg)
		return e
	})
	vs.Assert((e == nil) == (auth == GOV), "upgrades are cancelled by governance")
	if auth == GOV {
		for i := range m.pools {
			if m.pools[i].rt == rt {
				m.pools[i].plan = false
			}
		}
	}
	m.check()
}

func (m *p03model) block(t int64) {
	m.w.At(m.w.Ctx.BlockHeight()+1, t)
	for i := range m.pools {
		p := &m.pools[i]
		started := p.plan && vs.Fork(le(bi(p.at), vs.I64Big(t)))
		e := m.w.Bundles.AssertPoolCanRun(m.w.Ctx, uint64(i))
		vs.Assert((e == nil) == !(started || m.orig[i].Disabled), "a pool is paused from the scheduled time on, not before")
	}
	m.w.endPool()
	for i := range m.pools {
		p := &m.pools[i]
		if !p.plan || !vs.Fork(le(bi(p.at), vs.I64Big(t))) {
			continue
		}
		if p.version != p.pver || p.binaries != p.pbin {
			p.version, p.binaries, p.last = p.pver, p.pbin, p.at
		}
		if vs.Fork(le(add(bi(p.at), bi(p.dur)), vs.I64Big(t))) {
			p.plan = false
			vs.Reach("done")
		} else {
			vs.Reach("pausing")
		}
	}
	m.check()
	for i := range m.pools {
		p := m.pools[i]
		paused := p.plan && vs.Fork(le(bi(p.at), vs.I64Big(t)))
		e := m.w.Bundles.AssertPoolCanRun(m.w.Ctx, uint64(i))
		vs.Assert((e == nil) == !(paused || m.orig[i].Disabled), "a pool stays paused until the duration has passed")
	}
}

func (m *p03model) check() {
	for i, p := range m.pools {
		g := m.w.pool(uint64(i))
		vs.Assert(g.Protocol.Version == p.version && g.Protocol.Binaries == p.binaries, "version and binaries change exactly at the scheduled time")
		vs.Assert(g.Protocol.LastUpgrade == p.last, "the time of the last upgrade is its scheduled time")
		if p.plan {
			vs.Assert(vs.And(g.UpgradePlan.Version == p.pver, g.UpgradePlan.Binaries == p.pbin, g.UpgradePlan.ScheduledAt == p.at, g.UpgradePlan.Duration == p.dur), "a plan is kept until it is done or cancelled")
		} else {
			vs.Assert(vs.And(g.UpgradePlan.Version == "", g.UpgradePlan.Binaries == "", g.UpgradePlan.ScheduledAt == 0, g.UpgradePlan.Duration == 0), "no plan is left once done or cancelled")
		}
		o := m.orig[i]
		o.Protocol, o.UpgradePlan = g.Protocol, g.UpgradePlan
		vs.Assert(vs.SameMsg(&o, &g), "nothing else of a pool changes")
	}
}

const p03dur = 1<<64 - 1

// H_P03_life: one upgrade scheduled for any time, blocks at any times, possibly cancelled on the way.
func H_P03_life() {
	m := p03world()
	t := vs.I64("start", 1_000_000_000, 3_000_000_000)
	m.w.At(1000, t)
	ver := []string{"2", "1"}[vs.Choose("version", 2)]
	m.schedule(GOV, "r", ver, []string{"{}", "new"}[vs.Choose("binaries", 2)], vs.U64("at", 0, 1<<64-1), vs.U64("duration", 0, p03dur))
	n := 3
	if vs.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		if vs.Choose(nm("cancel%d", i), 2) == 1 {
			m.cancel(GOV, "r")
			vs.Reach("cancelled")
		}
		t += vs.I64(nm("dt%d", i), 0, 2_000_000_000)
		m.block(t)
	}
}

// H_P03_two: a second request while one is pending, running or done, for the same or the other runtime.
func H_P03_two() {
	m := p03world()
	t := vs.I64("start", 1_000_000_000, 3_000_000_000)
	m.w.At(1000, t)
	m.schedule(GOV, "r", "2", "new", vs.U64("at", 0, 1<<64-1), vs.U64("duration", 0, p03dur))
	if vs.Choose("both", 2) == 1 {
		m.schedule(GOV, "r-b", "4", "other", 1<<62, 60)
	}
	t += vs.I64("dt0", 0, 2_000_000_000)
	m.block(t)
	rt := []string{"r", "r-b", "R"}[vs.Choose("runtime", 3)]
	auth := []string{GOV, ALICE}[vs.Choose("caller", 2)]
	switch vs.Choose("op", 4) {
	case 0:
		m.schedule(auth, rt, "3", "newer", vs.U64("at2", 0, 1<<64-1), vs.U64("duration2", 0, p03dur))
	case 1:
		m.schedule(auth, rt, "", "newer", vs.U64("at2", 0, 1<<64-1), 0)
	case 2:
		m.schedule(auth, rt, "3", "", vs.U64("at2", 0, 1<<64-1), 0)
	case 3:
		m.cancel(auth, rt)
	}
	t += vs.I64("dt1", 0, 2_000_000_000)
	m.block(t)
	t += vs.I64("dt2", 0, 2_000_000_000)
	m.block(t)
}
