package main

// World: every KYVE keeper wired exactly as the app does, over stub bank / account /
// distribution / upgrade keepers. Symbolically the stores and the codec are engine models;
// natively (replay) they are the SDK's own IAVL multistore and protobuf codec.

import (
	"context"
	"math/big"
	"time"

	"cosmossdk.io/core/store"
	"cosmossdk.io/log"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	"cosmossdk.io/x/feegrant"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/runtime"
	sdktestutil "github.com/cosmos/cosmos-sdk/testutil"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	mintkeeper "github.com/cosmos/cosmos-sdk/x/mint/keeper"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	gogoproto "github.com/cosmos/gogoproto/proto"

	bundleskeeper "github.com/KYVENetwork/chain/x/bundles/keeper"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationkeeper "github.com/KYVENetwork/chain/x/delegation/keeper"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderskeeper "github.com/KYVENetwork/chain/x/funders/keeper"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globalkeeper "github.com/KYVENetwork/chain/x/global/keeper"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	poolkeeper "github.com/KYVENetwork/chain/x/pool/keeper"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	authkeeper "github.com/cosmos/cosmos-sdk/x/auth/keeper"
	bankkeeper "github.com/cosmos/cosmos-sdk/x/bank/keeper"
	distrkeeper "github.com/cosmos/cosmos-sdk/x/distribution/keeper"

	querykeeper "github.com/KYVENetwork/chain/x/query/keeper"
	stakerskeeper "github.com/KYVENetwork/chain/x/stakers/keeper"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamkeeper "github.com/KYVENetwork/chain/x/team/keeper"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"

	"github.com/KYVENetwork/chain/zz_verif/vs"
)

// well-known addresses
const (
	ALICE   = "kyve1jq304cthpx0lwhpqzrdjrcza559ukyy3zsl2vd"
	BOB     = "kyve1hvg7zsnrj6h29q9ss577mhrxa04rn94h7zjugq"
	CHARLIE = "kyve1ay22rr3kz659fupu0tcswlagq4ql6rwm4nuv0s"
	DAVID   = "kyve1jxa7kp37jlm8hzwgc5qprquv9k7vawq79qhctt"
	STAKER0 = "kyve1htgfatqevuvfzvl0sxp97ywteqhg5leha9emf4"
	STAKER1 = "kyve1gnr35rwn8rmflnlzs6nn5hhkmzzkxg9ap8xepw"
	STAKER2 = "kyve1xsemlxghgvusumhqzm2ztjw7dz9krvu3de54e2"
	STAKER3 = "kyve1ca7rzyrxfpdm7j8jgccq4rduuf4sxpq0dhmwm4"
	VAL0A   = "kyve1qnf86dkvvtpdukx30r3vajav7rdq8snktm90hm"
	VAL0B   = "kyve10t8gnqjnem7tsu09erzswj3zm8599lsnex79rz"
	VAL1A   = "kyve1hpjgzljglmv00nstk3jvcw0zzq94nu0cuxv5ga"
	VAL1B   = "kyve14runw9qkltpz2mcx3gsfmlqyyvdzkt3rq3w6fm"
	VAL2A   = "kyve1u0870dkae6ql63hxvy9y7g65c0y8csfh8allzl"
	VAL2B   = "kyve16g3utghkvvlz53jk0fq96zwrhxmqfu36ue965q"
	VAL3A   = "kyve1d2clkfrw0r99ctgmkjvluzn6xm98yls06mnxv8"
	VAL3B   = "kyve1f36cvde6jnygcrz2yas4acp0akn9cw7vp5ze0w"
	GOV     = "kyve1gcnd8gya2ysfur6d6z4wpl9z54zadg7qzk8uyc" // stands for the governance authority
)

var DENOM = globaltypes.Denom

var (
	STAKERS = []string{STAKER0, STAKER1, STAKER2, STAKER3}
	VALSA   = []string{VAL0A, VAL1A, VAL2A, VAL3A}
	VALSB   = []string{VAL0B, VAL1B, VAL2B, VAL3B}
	USERS   = []string{ALICE, BOB, CHARLIE, DAVID}
)

// ---------- engine-backed store

type kv struct{ id int }

func (s kv) Get(key []byte) ([]byte, error) { return vs.KVGet(s.id, key), nil }
func (s kv) Has(key []byte) (bool, error)   { return vs.KVHas(s.id, key), nil }
func (s kv) Set(key, value []byte) error    { vs.KVSet(s.id, key, value); return nil }
func (s kv) Delete(key []byte) error        { vs.KVDelete(s.id, key); return nil }
func (s kv) Iterator(start, end []byte) (store.Iterator, error) {
	k, v := vs.KVRange(s.id, start, end, false)
	return &kvIter{start: start, end: end, k: k, v: v}, nil
}
func (s kv) ReverseIterator(start, end []byte) (store.Iterator, error) {
	k, v := vs.KVRange(s.id, start, end, true)
	return &kvIter{start: start, end: end, k: k, v: v}, nil
}

type kvIter struct {
	start, end []byte
	k, v       [][]byte
	i          int
}

func (it *kvIter) Domain() ([]byte, []byte) { return it.start, it.end }
func (it *kvIter) Valid() bool              { return it.i < len(it.k) }
func (it *kvIter) Next()                    { it.i++ }
func (it *kvIter) Key() []byte              { return it.k[it.i] }
func (it *kvIter) Value() []byte            { return it.v[it.i] }
func (it *kvIter) Error() error             { return nil }
func (it *kvIter) Close() error             { return nil }

type kvService struct {
	id int
	w  *World
}

func (s kvService) OpenKVStore(ctx context.Context) store.KVStore {
	s.w.enter(ctx)
	return kv{s.id}
}
func (s kvService) OpenMemoryStore(ctx context.Context) store.KVStore {
	s.w.enter(ctx)
	return kv{s.id}
}

// branch is a multistore which notices that the code under test branches the state
// (Context.CacheContext). The coin ledger and the model of the stores live outside of the
// multistore: they are changed in place, and a branch which was not written is undone as soon as
// the state is looked at from outside of it.
type branch struct {
	realStore         // native runs
	w                 *World
	bank              *Bank
	halts, kv, events int
}

type realStore = storetypes.CacheMultiStore

// rootStore is the multistore of the world; there is nothing to write it to.
type rootStore struct{ storetypes.MultiStore }

func (rootStore) Write() {}

func (m *branch) CacheMultiStore() storetypes.CacheMultiStore {
	m.w.settle(m)
	b := &branch{w: m.w, bank: m.w.Bank.copy(), halts: m.w.Upg.Halts}
	if vs.Symbolic() {
		b.kv, b.events = vs.KVSnap(), vs.EventMark()
	} else {
		b.realStore = m.realStore.CacheMultiStore()
	}
	m.w.open = append(m.w.open, b)
	return b
}

func (m *branch) Write() {
	if m == m.w.root {
		return
	}
	m.w.settle(m)
	m.w.open = m.w.open[:len(m.w.open)-1]
	if !vs.Symbolic() {
		m.realStore.Write()
	}
}

// enter notes an access to the state with this context.
func (w *World) enter(ctx context.Context) {
	if len(w.open) == 0 {
		return
	}
	if m, ok := sdk.UnwrapSDKContext(ctx).MultiStore().(*branch); ok {
		w.settle(m)
	}
}

// base is the branch the harness itself works on.
func (w *World) base() *branch {
	if m, ok := w.Ctx.MultiStore().(*branch); ok {
		return m
	}
	return w.root
}

// settle undoes the open branches above m.
func (w *World) settle(m *branch) {
	known := m == w.root
	for _, b := range w.open {
		known = known || b == m
	}
	if !known {
		panic("branch of the state used after it was closed")
	}
	for len(w.open) > 0 {
		b := w.open[len(w.open)-1]
		if b == m {
			return
		}
		w.open = w.open[:len(w.open)-1]
		w.Bank.restore(b.bank)
		w.Upg.Halts = b.halts
		if vs.Symbolic() {
			vs.KVRestore(b.kv)
			vs.EventCut(b.events)
		}
	}
}

// native memory store service (the SDK keeps its own unexported)
type memService struct{ key *storetypes.MemoryStoreKey }

func (m memService) OpenMemoryStore(ctx context.Context) store.KVStore {
	return coreStore{sdk.UnwrapSDKContext(ctx).KVStore(m.key)}
}

type coreStore struct{ s storetypes.KVStore }

func (c coreStore) Get(key []byte) ([]byte, error) { return c.s.Get(key), nil }
func (c coreStore) Has(key []byte) (bool, error)   { return c.s.Has(key), nil }
func (c coreStore) Set(key, value []byte) error    { c.s.Set(key, value); return nil }
func (c coreStore) Delete(key []byte) error        { c.s.Delete(key); return nil }
func (c coreStore) Iterator(start, end []byte) (store.Iterator, error) {
	return c.s.Iterator(start, end), nil
}
func (c coreStore) ReverseIterator(start, end []byte) (store.Iterator, error) {
	return c.s.ReverseIterator(start, end), nil
}

type symCodec struct{ codec.Codec }

func (symCodec) Marshal(o gogoproto.Message) ([]byte, error) { return vs.Marshal(o), nil }
func (symCodec) MustMarshal(o gogoproto.Message) []byte      { return vs.Marshal(o) }
func (symCodec) Unmarshal(b []byte, o gogoproto.Message) error {
	vs.Unmarshal(b, o)
	return nil
}
func (symCodec) MarshalInterface(o gogoproto.Message) ([]byte, error) { return vs.Marshal(o), nil }
func (symCodec) UnmarshalInterface(b []byte, ptr any) error {
	vs.Unmarshal(b, ptr)
	return nil
}
func (symCodec) MustUnmarshal(b []byte, o gogoproto.Message) { vs.Unmarshal(b, o) }

// ---------- stub keepers

type Bank struct {
	bal  map[string]math.Int // address bytes + "|" + denom
	keys []string
	w    *World
	// journal of transfers of the native and other coins
	Moves []Move
	log   bool
}

type Move struct {
	From, To, Denom string
	Amt             math.Int
}

type errStub string

func (e errStub) Error() string { return string(e) }

func bkey(addr sdk.AccAddress, denom string) string { return string(addr) + "|" + denom }

// get is the balance outside of any open branch of the state.
func (b *Bank) get(addr sdk.AccAddress, denom string) math.Int {
	b.w.settle(b.w.base())
	return b.at(addr, denom)
}

func (b *Bank) at(addr sdk.AccAddress, denom string) math.Int {
	if v, ok := b.bal[bkey(addr, denom)]; ok {
		return v
	}
	return math.ZeroInt()
}
func (b *Bank) set(addr sdk.AccAddress, denom string, v math.Int) {
	b.w.settle(b.w.base())
	b.put(addr, denom, v)
}

func (b *Bank) put(addr sdk.AccAddress, denom string, v math.Int) {
	k := bkey(addr, denom)
	if _, ok := b.bal[k]; !ok {
		b.keys = append(b.keys, k)
	}
	b.bal[k] = v
}

func (b *Bank) SendCoins(ctx context.Context, from, to sdk.AccAddress, amt sdk.Coins) error {
	b.w.enter(ctx)
	if !amt.IsValid() {
		return errStub("invalid coins")
	}
	for _, c := range amt {
		have := b.at(from, c.Denom)
		if have.LT(c.Amount) {
			return errStub("insufficient funds")
		}
		b.put(from, c.Denom, have.Sub(c.Amount))
	}
	for _, c := range amt {
		b.put(to, c.Denom, b.at(to, c.Denom).Add(c.Amount))
		if b.log {
			b.Moves = append(b.Moves, Move{string(from), string(to), c.Denom, c.Amount})
		}
	}
	return nil
}

func ModAddr(name string) sdk.AccAddress { return authtypes.NewModuleAddress(name) }
func Acc(s string) sdk.AccAddress        { return sdk.MustAccAddressFromBech32(s) }

func (b *Bank) SendCoinsFromModuleToAccount(ctx context.Context, m string, to sdk.AccAddress, amt sdk.Coins) error {
	return b.SendCoins(ctx, ModAddr(m), to, amt)
}
func (b *Bank) SendCoinsFromModuleToModule(ctx context.Context, m, n string, amt sdk.Coins) error {
	return b.SendCoins(ctx, ModAddr(m), ModAddr(n), amt)
}
func (b *Bank) SendCoinsFromAccountToModule(ctx context.Context, from sdk.AccAddress, m string, amt sdk.Coins) error {
	return b.SendCoins(ctx, from, ModAddr(m), amt)
}
func (b *Bank) GetBalance(ctx context.Context, addr sdk.AccAddress, denom string) sdk.Coin {
	b.w.enter(ctx)
	return sdk.Coin{Denom: denom, Amount: b.at(addr, denom)}
}
func (b *Bank) GetSupply(ctx context.Context, denom string) sdk.Coin {
	b.w.enter(ctx)
	s := math.ZeroInt()
	for _, k := range b.keys {
		if len(k) > len(denom) && k[len(k)-len(denom)-1:] == "|"+denom {
			s = s.Add(b.bal[k])
		}
	}
	return sdk.Coin{Denom: denom, Amount: s}
}
func (b *Bank) SpendableCoins(_ context.Context, addr sdk.AccAddress) sdk.Coins { return nil }
func (b *Bank) BurnCoins(ctx context.Context, m string, amt sdk.Coins) error {
	b.w.enter(ctx)
	if !amt.IsValid() {
		return errStub("invalid coins")
	}
	for _, c := range amt {
		have := b.at(ModAddr(m), c.Denom)
		if have.LT(c.Amount) {
			return errStub("insufficient funds")
		}
		b.put(ModAddr(m), c.Denom, have.Sub(c.Amount))
	}
	return nil
}
func (b *Bank) IsSendEnabledCoins(context.Context, ...sdk.Coin) error { return nil }
func (b *Bank) MintCoins(ctx context.Context, m string, amt sdk.Coins) error {
	b.w.enter(ctx)
	for _, c := range amt {
		b.put(ModAddr(m), c.Denom, b.at(ModAddr(m), c.Denom).Add(c.Amount))
	}
	return nil
}

type accKeeper struct{}

func (accKeeper) GetModuleAddress(n string) sdk.AccAddress                           { return ModAddr(n) }
func (accKeeper) GetAccount(context.Context, sdk.AccAddress) sdk.AccountI            { return nil }
func (accKeeper) SetAccount(context.Context, sdk.AccountI)                           {}
func (accKeeper) NewAccountWithAddress(context.Context, sdk.AccAddress) sdk.AccountI { return nil }
func (accKeeper) SetModuleAccount(context.Context, sdk.ModuleAccountI)               {}
func (accKeeper) GetModuleAccount(context.Context, string) sdk.ModuleAccountI        { return nil }
func (accKeeper) GetParams(context.Context) (p authtypes.Params)                     { return }

type distrStub struct{ bank *Bank }

func (d distrStub) FundCommunityPool(ctx context.Context, amt sdk.Coins, sender sdk.AccAddress) error {
	return d.bank.SendCoins(ctx, sender, ModAddr(distrtypes.ModuleName), amt)
}

// upgradeStub records emergency halts.
type upgradeStub struct {
	Halts int
	w     *World
}

func (u *upgradeStub) ScheduleUpgrade(ctx context.Context, _ upgradetypes.Plan) error {
	u.w.enter(ctx)
	u.Halts++
	return nil
}

// ---------- world

type World struct {
	Ctx  sdk.Context
	Bank *Bank
	Upg  *upgradeStub

	Global     globalkeeper.Keeper
	Pool       *poolkeeper.Keeper
	Stakers    *stakerskeeper.Keeper
	Delegation delegationkeeper.Keeper
	Funders    funderskeeper.Keeper
	Bundles    bundleskeeper.Keeper
	Team       teamkeeper.Keeper
	Mint       mintkeeper.Keeper
	Query      querykeeper.Keeper
	Cdc        codec.BinaryCodec

	root *branch   // the state itself
	open []*branch // its branches which were not written yet, innermost last

	svc  []store.KVStoreService
	keys []*storetypes.KVStoreKey
	mems []*storetypes.MemoryStoreKey
}

var modNames = []string{globaltypes.StoreKey, pooltypes.StoreKey, stakerstypes.StoreKey, delegationtypes.StoreKey,
	funderstypes.StoreKey, bundlestypes.StoreKey, teamtypes.StoreKey, minttypes.StoreKey,
	authtypes.StoreKey, "staking", "feegrant", "gov"}

func NewWorld() *World {
	w := &World{Bank: &Bank{bal: map[string]math.Int{}}, Upg: &upgradeStub{}}
	w.Bank.w, w.Upg.w = w, w
	w.root = &branch{w: w}
	var svc []store.KVStoreService
	var mem []store.MemoryStoreService
	var cdc codec.BinaryCodec
	if vs.Symbolic() {
		for i := range modNames {
			svc = append(svc, kvService{i, w})
			mem = append(mem, kvService{100 + i, w})
		}
		cdc = symCodec{}
		w.Ctx = sdk.Context{}.WithEventManager(sdk.NewEventManager()).WithContext(context.Background()).WithLogger(log.NewNopLogger()).
			WithGasMeter(storetypes.NewInfiniteGasMeter()).WithBlockGasMeter(storetypes.NewInfiniteGasMeter()).WithMultiStore(w.root)
	} else {
		ks := map[string]*storetypes.KVStoreKey{}
		ms := map[string]*storetypes.MemoryStoreKey{}
		for _, n := range modNames {
			ks[n] = storetypes.NewKVStoreKey(n)
			ms[n] = storetypes.NewMemoryStoreKey("mem_" + n)
			svc = append(svc, runtime.NewKVStoreService(ks[n]))
			mem = append(mem, memService{ms[n]})
			w.keys = append(w.keys, ks[n])
			w.mems = append(w.mems, ms[n])
		}
		w.Ctx = sdktestutil.DefaultContextWithKeys(ks, nil, ms)
		w.root.realStore = rootStore{w.Ctx.MultiStore()}
		w.Ctx = w.Ctx.WithMultiStore(w.root)
		reg := codectypes.NewInterfaceRegistry()
		authtypes.RegisterInterfaces(reg)
		cryptocodec.RegisterInterfaces(reg)
		feegrant.RegisterInterfaces(reg)
		cdc = codec.NewProtoCodec(reg)
	}
	w.Cdc = cdc
	w.svc = svc
	lg := log.NewNopLogger()
	ak := accKeeper{}
	ds := distrStub{w.Bank}
	w.Global = globalkeeper.NewKeeper(cdc, svc[0], lg, GOV)
	w.Pool = poolkeeper.NewKeeper(cdc, svc[1], mem[1], lg, GOV, ak, w.Bank, ds, w.Upg)
	w.Stakers = stakerskeeper.NewKeeper(cdc, svc[2], mem[2], lg, GOV, ak, w.Bank, ds, w.Pool, w.Upg)
	w.Delegation = delegationkeeper.NewKeeper(cdc, svc[3], mem[3], lg, GOV, ak, w.Bank, ds, w.Pool, w.Upg, w.Stakers)
	stakerskeeper.SetDelegationKeeper(w.Stakers, w.Delegation)
	poolkeeper.SetStakersKeeper(w.Pool, w.Stakers)
	w.Funders = funderskeeper.NewKeeper(cdc, svc[4], mem[4], lg, GOV, ak, w.Bank, w.Pool, w.Upg)
	poolkeeper.SetFundersKeeper(w.Pool, w.Funders)
	w.Bundles = bundleskeeper.NewKeeper(cdc, svc[5], mem[5], lg, GOV, ak, w.Bank, ds, w.Pool, w.Stakers, w.Delegation, w.Funders)
	w.Mint = mintkeeper.NewKeeper(cdc, svc[7], nil, ak, nil, nil, authtypes.FeeCollectorName, GOV)
	w.Team = teamkeeper.NewKeeper(cdc, svc[6], lg, ak, w.Bank, w.Mint, w.Upg)
	w.Query = querykeeper.NewKeeper(cdc, lg, svc[3], authkeeper.AccountKeeper{}, queryBank{b: w.Bank}, distrkeeper.Keeper{}, w.Pool, w.Stakers, w.Delegation, w.Bundles, w.Global, nil, w.Team, w.Funders)
	w.At(1000, 1_700_000_000)
	return w
}

// queryBank is the part of the bank which queries, fee handling and the global module use.
type queryBank struct {
	bankkeeper.Keeper
	b *Bank
}

func (q queryBank) GetBalance(ctx context.Context, addr sdk.AccAddress, denom string) sdk.Coin {
	return q.b.GetBalance(ctx, addr, denom)
}

func (q queryBank) SendCoinsFromModuleToAccount(ctx context.Context, m string, to sdk.AccAddress, amt sdk.Coins) error {
	return q.b.SendCoinsFromModuleToAccount(ctx, m, to, amt)
}
func (q queryBank) SendCoinsFromAccountToModule(ctx context.Context, from sdk.AccAddress, m string, amt sdk.Coins) error {
	return q.b.SendCoinsFromAccountToModule(ctx, from, m, amt)
}
func (q queryBank) BurnCoins(ctx context.Context, m string, amt sdk.Coins) error {
	return q.b.BurnCoins(ctx, m, amt)
}
func (q queryBank) GetAllBalances(ctx context.Context, addr sdk.AccAddress) sdk.Coins {
	var out sdk.Coins
	q.b.w.enter(ctx)
	for _, k := range q.b.keys {
		n := len(string(addr)) + 1
		if len(k) > n && k[:n] == string(addr)+"|" && q.b.bal[k].IsPositive() {
			out = append(out, sdk.Coin{Denom: k[n:], Amount: q.b.bal[k]})
		}
	}
	return out.Sort()
}

// At sets block height and time.
func (w *World) At(height, t int64) {
	w.Ctx = w.Ctx.WithBlockHeight(height).WithBlockTime(time.Unix(t, 0))
}

func (w *World) Time() int64 { return w.Ctx.BlockTime().Unix() }

// Tx runs f like a transaction: all effects are rolled back if it fails or panics.
func (w *World) Tx(f func(ctx sdk.Context) error) (err error) {
	snap := w.Bank.snap()
	halts := w.Upg.Halts
	base := w.base()
	if vs.Symbolic() {
		id := vs.KVSnap()
		err = guard(func() error { return f(w.Ctx) })
		w.settle(base)
		if err != nil {
			vs.KVRestore(id)
		}
	} else {
		c, write := w.Ctx.CacheContext()
		err = guard(func() error { return f(c) })
		if err == nil {
			write()
		}
		w.settle(base)
	}
	if err != nil {
		w.Bank.restore(snap)
		w.Upg.Halts = halts
	}
	return err
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = panicErr{}
		}
	}()
	return f()
}

type panicErr struct{}

func (panicErr) Error() string { return "panic" }

func isPanic(err error) bool {
	_, ok := err.(panicErr)
	return ok
}

func (b *Bank) snap() *Bank {
	b.w.settle(b.w.base())
	return b.copy()
}

func (b *Bank) copy() *Bank {
	n := &Bank{w: b.w, bal: map[string]math.Int{}}
	for _, k := range b.keys {
		n.keys = append(n.keys, k)
		n.bal[k] = b.bal[k]
	}
	n.Moves = append(n.Moves, b.Moves...)
	return n
}
func (b *Bank) restore(n *Bank) {
	b.bal, b.keys, b.Moves = n.bal, n.keys, n.Moves
}

// Bal is the balance of an address as a big integer.
func (w *World) Bal(addr sdk.AccAddress, denom string) *big.Int {
	return w.Bank.get(addr, denom).BigInt()
}
func (w *World) BalU(addr string) *big.Int   { return w.Bal(Acc(addr), DENOM) }
func (w *World) ModBal(name string) *big.Int { return w.Bal(ModAddr(name), DENOM) }
func (w *World) Give(addr sdk.AccAddress, denom string, amt math.Int) {
	w.Bank.set(addr, denom, w.Bank.get(addr, denom).Add(amt))
}
func (w *World) GiveU(addr string, amt uint64) {
	w.Give(Acc(addr), DENOM, math.NewIntFromUint64(amt))
}
func (w *World) GiveMod(mod string, amt uint64) {
	w.Give(ModAddr(mod), DENOM, math.NewIntFromUint64(amt))
}

// ---------- state dumps

type Entry struct {
	Store int
	K, V  []byte
}

// Dump lists the raw content of all stores (memory stores too if mem is set).
func (w *World) Dump(mem bool) []Entry {
	var out []Entry
	for i := range modNames {
		out = append(out, w.DumpStore(i, false)...)
		if mem {
			out = append(out, w.DumpStore(i, true)...)
		}
	}
	return out
}

func (w *World) DumpStore(i int, mem bool) []Entry {
	var out []Entry
	w.settle(w.base())
	id := i
	if mem {
		id += 100
	}
	if vs.Symbolic() {
		k, v := vs.KVRange(id, nil, nil, false)
		for j := range k {
			out = append(out, Entry{id, k[j], v[j]})
		}
		return out
	}
	var s storetypes.KVStore
	if mem {
		s = w.Ctx.KVStore(w.mems[i])
	} else {
		s = w.Ctx.KVStore(w.keys[i])
	}
	it := s.Iterator(nil, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		out = append(out, Entry{id, append([]byte{}, it.Key()...), append([]byte{}, it.Value()...)})
	}
	return out
}

// Clear empties a store.
func (w *World) Clear(i int, mem bool) {
	es := w.DumpStore(i, mem)
	for _, e := range es {
		switch {
		case vs.Symbolic():
			vs.KVDelete(e.Store, e.K)
		case mem:
			w.Ctx.KVStore(w.mems[i]).Delete(e.K)
		default:
			w.Ctx.KVStore(w.keys[i]).Delete(e.K)
		}
	}
}

// SameDump is the condition that two dumps are equal.
func SameDump(a, b []Entry) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		if a[i].Store != b[i].Store {
			return false
		}
		r = vs.And(r, vs.SameBytes(a[i].K, b[i].K), vs.SameBytes(a[i].V, b[i].V))
	}
	return r
}

// SameBank is the condition that two bank snapshots hold the same balances.
func SameBank(a, b *Bank) bool {
	r := true
	seen := map[string]bool{}
	for _, k := range a.keys {
		seen[k] = true
		v, ok := b.bal[k]
		if !ok {
			v = math.ZeroInt()
		}
		r = vs.And(r, a.bal[k].Equal(v))
	}
	for _, k := range b.keys {
		if !seen[k] {
			r = vs.And(r, b.bal[k].IsZero())
		}
	}
	return r
}

// ---------- big integer helpers for specifications

func bi(x uint64) *big.Int       { return vs.U64Big(x) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func eq(a, b *big.Int) bool      { return a.Cmp(b) == 0 }
func le(a, b *big.Int) bool      { return a.Cmp(b) <= 0 }
func lt(a, b *big.Int) bool      { return a.Cmp(b) < 0 }
func sum(x ...*big.Int) *big.Int {
	s := new(big.Int)
	for _, a := range x {
		s.Add(s, a)
	}
	return s
}

var one18 = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

// decOf is the decimal of an integer.
func decOf(x uint64) math.LegacyDec {
	return math.LegacyNewDecFromInt(math.NewIntFromUint64(x))
}

func decOfBig(x *big.Int) math.LegacyDec { return math.LegacyNewDecFromInt(math.NewIntFromBigInt(x)) }
