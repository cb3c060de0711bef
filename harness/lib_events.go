package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// watch starts listening to events.
func (w *World) watch() {
	if vs.Symbolic() {
		vs.Record()
		return
	}
	w.Ctx = w.Ctx.WithEventManager(sdk.NewEventManager())
}

// seen is the list of events since the last watch; withdrawals of nothing do not count.
func (w *World) seen() (out []any) {
	var all []any
	w.settle(w.base())
	if vs.Symbolic() {
		all = vs.Events()
	} else {
		for _, e := range w.Ctx.EventManager().ABCIEvents() {
			m, err := sdk.ParseTypedEvent(e)
			if err != nil {
				panic(err)
			}
			all = append(all, m)
		}
	}
	for _, m := range all {
		if x, ok := m.(*delegationtypes.EventWithdrawRewards); ok && x.Amounts == "" {
			continue
		}
		out = append(out, m)
	}
	return
}

// announced: the events since the last watch are exactly these, in any order.
func (w *World) announced(what string, want ...any) {
	got := w.seen()
	vs.Assert(len(got) == len(want), "one event for every effect of "+what)
	for _, x := range want {
		ok := false
		for _, y := range got {
			ok = vs.Or(ok, vs.SameMsg(x, y))
		}
		vs.Assert(ok, "events tell what really happened at "+what)
	}
	w.watch()
}
