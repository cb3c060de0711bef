package main

import (
	"github.com/cosmos/cosmos-sdk/types/query"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// checkPages reads a listing in pages of the given size, from the given offset, and compares it with
// the expected list. With keys the next page is asked for by the key of the previous one.
func checkPages(want []string, offset, limit uint64, keys bool, fetch func(*query.PageRequest) ([]string, *query.PageResponse, error)) {
	total := uint64(len(want))
	var rest []string
	for i, x := range want {
		if vs.Fork(uint64(i) >= offset) {
			rest = append(rest, x)
		}
	}
	rq := &query.PageRequest{Offset: offset, Limit: limit, CountTotal: true}
	for page := 0; page < len(want)+2; page++ {
		got, rs, e := fetch(rq)
		vs.Assert(e == nil && rs != nil, "the query answers")
		vs.Assert(uint64(len(got)) <= limit, "a page has no more entries than asked for")
		vs.Assert(len(got) <= len(rest), "the pages have no further entries")
		if page == 0 || !keys {
			vs.Assert(rs.Total == total, "the total is the number of entries")
		}
		for i, g := range got {
			vs.Assert(g == rest[i], "the pages list the entries in order")
		}
		rest = rest[len(got):]
		if keys {
			if rs.NextKey == nil {
				vs.Assert(len(rest) == 0, "the pages list all entries")
				vs.Reach("listed")
				return
			}
			rq = &query.PageRequest{Key: rs.NextKey, Limit: limit}
			continue
		}
		if len(got) == 0 {
			vs.Assert(len(rest) == 0, "the pages list all entries")
			vs.Reach("listed")
			return
		}
		rq = &query.PageRequest{Offset: rq.Offset + limit, Limit: limit, CountTotal: true}
	}
	vs.Assert(false, "the pages end")
}
