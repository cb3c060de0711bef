From 66ac4fd424a25424cd84e46bd04b8f7a627905d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 01/22] fix: reject team vesting allocations that overflow the
 allocation check

---
 x/team/keeper/msg_server_create_team_vesting_account.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/team/keeper/msg_server_create_team_vesting_account.go b/x/team/keeper/msg_server_create_team_vesting_account.go
index f9924a6..973c19d 100644
--- a/x/team/keeper/msg_server_create_team_vesting_account.go
+++ b/x/team/keeper/msg_server_create_team_vesting_account.go
@@ -21,7 +21,8 @@ func (k msgServer) CreateTeamVestingAccount(goCtx context.Context, msg *types.Ms
 	}
 
 	// check if new team vesting account still has allocation left
-	if k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
+	// (the requested allocation is checked on its own, too, because the sum could overflow)
+	if msg.TotalAllocation > types.TEAM_ALLOCATION || k.GetIssuedTeamAllocation(ctx)+msg.TotalAllocation > types.TEAM_ALLOCATION {
 		return nil, errors.Wrapf(errorsTypes.ErrLogic, types.ErrAvailableFundsTooLow.Error(), types.TEAM_ALLOCATION-k.GetIssuedTeamAllocation(ctx), msg.TotalAllocation)
 	}
 
-- 
2.43.0


From 6fb1a220323b92765be0a3fb040e672d78fb6697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 02/22] fix: do not displace a funder when the funder already
 has a funding slot

---
 x/funders/keeper/logic_funders.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 7b1f245..4da6393 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -199,16 +199,18 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return nil
 	}
 
+	for _, activeFunding := range activeFundings {
+		if activeFunding.FunderAddress == newFunding.FunderAddress {
+			// Funder already has a funding slot
+			return nil
+		}
+	}
+
 	lowestFunding, err := k.GetLowestFunding(ctx, activeFundings)
 	if err != nil {
 		return err
 	}
 
-	if lowestFunding.FunderAddress == newFunding.FunderAddress {
-		// Funder already has a funding slot
-		return nil
-	}
-
 	whitelist := k.GetCoinWhitelistMap(ctx)
 
 	// Check if lowest funding is lower than new funding based on amount (amount per bundle is ignored)
-- 
2.43.0


From 018954e5eab2ee5370f9445537debcd24cb07c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 03/22] fix: reject fundings which leave an active funder
 without any coins

---
 x/funders/keeper/msg_server_fund_pool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/funders/keeper/msg_server_fund_pool.go b/x/funders/keeper/msg_server_fund_pool.go
index 7fcf087..684f012 100644
--- a/x/funders/keeper/msg_server_fund_pool.go
+++ b/x/funders/keeper/msg_server_fund_pool.go
@@ -59,6 +59,11 @@ func (k msgServer) FundPool(goCtx context.Context, msg *types.MsgFundPool) (*typ
 		}
 	}
 
+	// A funding without any coins must not become active
+	if funding.Amounts.IsZero() {
+		return nil, types.ErrMinFundingAmount
+	}
+
 	// Check if updated (or new) funding is compatible with module params
 	if err := k.ensureParamsCompatibility(ctx, &funding); err != nil {
 		return nil, err
-- 
2.43.0


From b813f89d6708c711e22cccf54c7d8c1bf05f34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 04/22] fix: truncate delegation reward shares so that payouts
 never exceed what was paid in

---
 x/delegation/keeper/logic_f1distribution.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/delegation/keeper/logic_f1distribution.go b/x/delegation/keeper/logic_f1distribution.go
index 053b78e..c8084f9 100644
--- a/x/delegation/keeper/logic_f1distribution.go
+++ b/x/delegation/keeper/logic_f1distribution.go
@@ -42,7 +42,8 @@ func (k Keeper) f1StartNewPeriod(ctx sdk.Context, staker string, delegationData
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		// (truncate, so that delegators never receive more than what was paid out)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	// Add previous entry to current one
@@ -317,7 +318,8 @@ func (k Keeper) f1GetOutstandingRewards(ctx sdk.Context, stakerAddress string, d
 		decTotalDelegation := math.LegacyNewDec(int64(delegationData.TotalDelegation))
 
 		// F1: $T_f / n_f$
-		currentPeriodValue = decCurrentRewards.QuoDec(decTotalDelegation)
+		// (truncate, so that delegators never receive more than what was paid out)
+		currentPeriodValue = decCurrentRewards.QuoDecTruncate(decTotalDelegation)
 	}
 
 	ongoingPeriodReward := safeMulDec(currentPeriodValue, latestBalance)
@@ -354,5 +356,5 @@ func safeMulDec(coins sdk.DecCoins, scalar math.LegacyDec) sdk.DecCoins {
 	if scalar.IsZero() {
 		return sdk.NewDecCoins()
 	}
-	return coins.MulDec(scalar)
+	return coins.MulDecTruncate(scalar)
 }
-- 
2.43.0


From be9d312c99923d40830d6be52cff0bf3b9ccff1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 05/22] fix: drop a pending leave request when the pool
 membership ends

---
 x/stakers/keeper/getters_staker.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/stakers/keeper/getters_staker.go b/x/stakers/keeper/getters_staker.go
index eeee362..8019593 100644
--- a/x/stakers/keeper/getters_staker.go
+++ b/x/stakers/keeper/getters_staker.go
@@ -84,6 +84,16 @@ func (k Keeper) RemoveValaccountFromPool(ctx sdk.Context, poolId uint64, stakerA
 		k.removeValaccount(ctx, valaccount)
 		k.subtractOneFromCount(ctx, poolId)
 		k.removeActiveStaker(ctx, stakerAddress)
+
+		// a pending leave request ends with the membership, otherwise it
+		// would remove the staker again after he has re-joined the pool
+		if k.DoesLeavePoolEntryExistByIndex2(ctx, stakerAddress, poolId) {
+			for _, leavePoolEntry := range k.GetAllLeavePoolEntries(ctx) {
+				if leavePoolEntry.Staker == stakerAddress && leavePoolEntry.PoolId == poolId {
+					k.RemoveLeavePoolEntry(ctx, &leavePoolEntry)
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From f62b50287c84a273dae013592669ff1bef10b0e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 06/22] fix: do not let a runtime upgrade's duration overflow
 its end time

---
 x/pool/keeper/logic_end_block_handle_pool_upgrades.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/logic_end_block_handle_pool_upgrades.go b/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
index f6f58ff..f4d7907 100644
--- a/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
+++ b/x/pool/keeper/logic_end_block_handle_pool_upgrades.go
@@ -20,7 +20,7 @@ func (k Keeper) HandlePoolUpgrades(ctx sdk.Context) {
 			}
 
 			// Check if upgrade duration was reached
-			if uint64(ctx.BlockTime().Unix()) >= (pool.UpgradePlan.ScheduledAt + pool.UpgradePlan.Duration) {
+			if uint64(ctx.BlockTime().Unix())-pool.UpgradePlan.ScheduledAt >= pool.UpgradePlan.Duration {
 				// reset upgrade plan to default values
 				pool.UpgradePlan = &types.UpgradePlan{}
 			}
-- 
2.43.0


From 1d00f2d45944df5c1caae18e3a32715408c58fba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 07/22] fix: never select an excluded validator as next
 uploader while others are eligible

---
 x/bundles/keeper/logic_round_robin.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/x/bundles/keeper/logic_round_robin.go b/x/bundles/keeper/logic_round_robin.go
index 56366f7..a02ce22 100644
--- a/x/bundles/keeper/logic_round_robin.go
+++ b/x/bundles/keeper/logic_round_robin.go
@@ -226,16 +226,23 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 
 	vs.normalize()
 
-	// If all addresses are excluded, then no address should be excluded
-	if len(excludedAddresses) == len(vs.Validators) {
-		excludedAddresses = make([]string, 0)
-	}
-
 	mapExcludedAddresses := make(map[string]bool)
 	for _, excluded := range excludedAddresses {
 		mapExcludedAddresses[excluded] = true
 	}
 
+	// If all validators are excluded, then no validator should be excluded
+	allExcluded := true
+	for _, validator := range vs.Validators {
+		if !mapExcludedAddresses[validator.Address] {
+			allExcluded = false
+			break
+		}
+	}
+	if allExcluded {
+		mapExcludedAddresses = make(map[string]bool)
+	}
+
 	// update
 	excludedPower := int64(0)
 	for _, validator := range vs.Validators {
@@ -246,10 +253,10 @@ func (vs *RoundRobinValidatorSet) NextProposer(excludedAddresses ...string) stri
 		}
 	}
 
-	currentMaxValidator := vs.Validators[0].Address
+	currentMaxValidator := ""
 	for _, validator := range vs.Validators {
 		if !mapExcludedAddresses[validator.Address] {
-			if vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
+			if currentMaxValidator == "" || vs.Progress[validator.Address] > vs.Progress[currentMaxValidator] {
 				currentMaxValidator = validator.Address
 			}
 		}
-- 
2.43.0


From 6a67f90228edb21f6024a83c7b9f204243856600 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 08/22] fix: give no inactivity points for skipping while no
 bundle is open

---
 x/bundles/keeper/logic_bundles.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index a9b30c7..254923e 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -214,6 +214,11 @@ func (k Keeper) handleNonVoters(ctx sdk.Context, poolId uint64) {
 	voters := map[string]bool{}
 	bundleProposal, _ := k.GetBundleProposal(ctx, poolId)
 
+	// if there is no ongoing bundle proposal nobody was able to vote
+	if bundleProposal.StorageId == "" {
+		return
+	}
+
 	for _, address := range bundleProposal.VotersValid {
 		voters[address] = true
 	}
-- 
2.43.0


From f2f42dba980043f5eaa97ce79194e287417823f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 09/22] fix: never keep an uploader who got removed for its
 upload timeout as next uploader

---
 .../keeper/logic_end_block_handle_upload_timeout.go    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/x/bundles/keeper/logic_end_block_handle_upload_timeout.go b/x/bundles/keeper/logic_end_block_handle_upload_timeout.go
index 25d9aed..debb64c 100644
--- a/x/bundles/keeper/logic_end_block_handle_upload_timeout.go
+++ b/x/bundles/keeper/logic_end_block_handle_upload_timeout.go
@@ -115,6 +115,16 @@ func (k Keeper) HandleUploadTimeout(goCtx context.Context) {
 		// (if he is still participating in the pool)
 		if k.stakerKeeper.DoesValaccountExist(ctx, pool.Id, timedoutUploader) {
 			k.addPoint(ctx, pool.Id, timedoutUploader)
+
+			// If the timed out uploader got removed from the pool because of the point
+			// it can not be the next uploader anymore, so we choose another one.
+			if !k.stakerKeeper.DoesValaccountExist(ctx, pool.Id, timedoutUploader) {
+				bundleProposal, _ = k.GetBundleProposal(ctx, pool.Id)
+				if bundleProposal.NextUploader == timedoutUploader {
+					bundleProposal.NextUploader = k.chooseNextUploader(ctx, pool.Id)
+					k.SetBundleProposal(ctx, bundleProposal)
+				}
+			}
 		}
 	}
 }
-- 
2.43.0


From 8e55339629cfc3997f282b4469d297447bf1ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:42 +0000
Subject: [PATCH 10/22] fix: do not keep an uploader who got removed for an
 invalid bundle as next uploader

---
 x/bundles/keeper/msg_server_submit_bundle_proposal.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x/bundles/keeper/msg_server_submit_bundle_proposal.go b/x/bundles/keeper/msg_server_submit_bundle_proposal.go
index b37ffd4..726ce1e 100644
--- a/x/bundles/keeper/msg_server_submit_bundle_proposal.go
+++ b/x/bundles/keeper/msg_server_submit_bundle_proposal.go
@@ -56,7 +56,15 @@ func (k msgServer) SubmitBundleProposal(goCtx context.Context, msg *types.MsgSub
 	case types.TallyResultInvalid:
 		// Drop current bundle. Can't register the provided bundle because the previous bundles
 		// needs to be resubmitted first.
-		k.dropCurrentBundleProposal(ctx, msg.PoolId, result.VoteDistribution, bundleProposal.NextUploader)
+		nextUploader := bundleProposal.NextUploader
+
+		// The message-sender stays uploader, except if he got removed from the pool for
+		// supporting the invalid bundle. Then we choose another uploader.
+		if !k.stakerKeeper.DoesValaccountExist(ctx, msg.PoolId, nextUploader) {
+			nextUploader = k.chooseNextUploader(ctx, msg.PoolId)
+		}
+
+		k.dropCurrentBundleProposal(ctx, msg.PoolId, result.VoteDistribution, nextUploader)
 
 		return &types.MsgSubmitBundleProposalResponse{}, nil
 	default:
-- 
2.43.0


From 261c951f837652943d573a45efa21cdfeabf5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 11/22] fix: return nothing when paging an archive backwards
 from an offset beyond its end

---
 x/bundles/keeper/getters_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/getters_bundles.go b/x/bundles/keeper/getters_bundles.go
index 17f222d..73364ce 100644
--- a/x/bundles/keeper/getters_bundles.go
+++ b/x/bundles/keeper/getters_bundles.go
@@ -244,7 +244,7 @@ func (k Keeper) GetPaginatedFinalizedBundleQuery(ctx sdk.Context, pagination *qu
 	// Translate offset to next page keys
 	if len(key) == 0 {
 		if reverse {
-			pagination.Key = util.GetByteKey(pageResponse.Total - offset)
+			pagination.Key = util.GetByteKey(pageResponse.Total - min(offset, pageResponse.Total))
 		} else {
 			pagination.Key = util.GetByteKey(offset)
 		}
-- 
2.43.0


From 066c05326c4efc054a5a17362ba0db08fc381f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 12/22] fix: do not let the storage cost of huge bundles become
 negative

---
 x/bundles/keeper/logic_bundles.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bundles/keeper/logic_bundles.go b/x/bundles/keeper/logic_bundles.go
index 254923e..447e417 100644
--- a/x/bundles/keeper/logic_bundles.go
+++ b/x/bundles/keeper/logic_bundles.go
@@ -285,7 +285,7 @@ func (k Keeper) calculatePayouts(ctx sdk.Context, poolId uint64, totalPayout sdk
 	wantedStorageRewards := sdk.NewCoins()
 	// storageCostPerCoin is the storage cost in $USD for each coin. This implies that each coin contributes the same
 	// amount of value to the storage rewards
-	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt64(int64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
+	storageCostPerCoin := k.GetStorageCost(ctx, bundleProposal.StorageProviderId).MulInt(math.NewIntFromUint64(bundleProposal.DataSize)).QuoInt64(int64(totalPayout.Len()))
 	for _, coin := range totalPayout {
 		weight := whitelist[coin.Denom].CoinWeight
 		if weight.IsZero() {
-- 
2.43.0


From c3b1a8b337e93cddd2d460e7a242d85259c94595 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 13/22] fix: validate funders params before storing them

---
 x/funders/keeper/msg_server_update_params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/funders/keeper/msg_server_update_params.go b/x/funders/keeper/msg_server_update_params.go
index 0872cc6..2338fcc 100644
--- a/x/funders/keeper/msg_server_update_params.go
+++ b/x/funders/keeper/msg_server_update_params.go
@@ -23,6 +23,12 @@ func (k msgServer) UpdateParams(goCtx context.Context, msg *types.MsgUpdateParam
 
 	newParams := oldParams
 	_ = json.Unmarshal([]byte(msg.Payload), &newParams)
+
+	// list entries of the payload are merged into the stored ones, therefore also validate the result
+	if err := newParams.Validate(); err != nil {
+		return nil, err
+	}
+
 	k.SetParams(ctx, newParams)
 
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventUpdateParams{
-- 
2.43.0


From bcc3fca2c6bf8cb5afb1dfd417d945cae7101d77 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 14/22] fix: refuse a funders genesis with duplicate entries

---
 x/funders/types/genesis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/funders/types/genesis.go b/x/funders/types/genesis.go
index 9529939..78a6007 100644
--- a/x/funders/types/genesis.go
+++ b/x/funders/types/genesis.go
@@ -20,6 +20,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundersIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funder id for %v", funder)
 		}
+		fundersIndexMap[string(index)] = struct{}{}
 	}
 
 	fundingByFunderIndexMap := make(map[string]struct{})
@@ -33,6 +34,8 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingByPoolIndexMap[string(byPoolIndex)]; ok {
 			return fmt.Errorf("duplicated funding id for %v", funding)
 		}
+		fundingByFunderIndexMap[string(byFunderIndex)] = struct{}{}
+		fundingByPoolIndexMap[string(byPoolIndex)] = struct{}{}
 	}
 
 	fundingStateIndexMap := make(map[string]struct{})
@@ -41,6 +44,7 @@ func (gs GenesisState) Validate() error {
 		if _, ok := fundingStateIndexMap[string(index)]; ok {
 			return fmt.Errorf("duplicated funding state id for %v", fundingState)
 		}
+		fundingStateIndexMap[string(index)] = struct{}{}
 	}
 	return gs.Params.Validate()
 }
-- 
2.43.0


From b56c7eecafc9bc640848fdcbdc1e85bd1b254abc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 15/22] fix: index stakers without any delegation when
 rebuilding the in-memory index

---
 x/delegation/genesis.go                | 2 +-
 x/delegation/keeper/keeper.go          | 5 +++--
 x/delegation/types/expected_keepers.go | 1 +
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/x/delegation/genesis.go b/x/delegation/genesis.go
index eaf9867..22c0f3a 100644
--- a/x/delegation/genesis.go
+++ b/x/delegation/genesis.go
@@ -37,7 +37,7 @@ func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState)
 		k.SetRedelegationCooldown(ctx, entry)
 	}
 
-	k.InitMemStore(ctx)
+	// the mem-store is initialized in the first block, as it needs the stakers' genesis
 }
 
 // ExportGenesis returns the capability module's exported genesis.
diff --git a/x/delegation/keeper/keeper.go b/x/delegation/keeper/keeper.go
index 7f54a34..186fba9 100644
--- a/x/delegation/keeper/keeper.go
+++ b/x/delegation/keeper/keeper.go
@@ -75,8 +75,9 @@ func (k Keeper) InitMemStore(gasCtx sdk.Context) {
 
 		// Update mem index
 		noGasCtx := gasCtx.WithBlockGasMeter(storetypes.NewInfiniteGasMeter())
-		for _, entry := range k.GetAllDelegationData(noGasCtx) {
-			k.SetStakerIndex(noGasCtx, entry.Staker)
+		// (including the stakers nobody has ever delegated to)
+		for _, staker := range k.stakersKeeper.GetAllStakers(noGasCtx) {
+			k.SetStakerIndex(noGasCtx, staker.Address)
 		}
 
 		memStoreInitialized = true
diff --git a/x/delegation/types/expected_keepers.go b/x/delegation/types/expected_keepers.go
index 4597599..f8c557f 100644
--- a/x/delegation/types/expected_keepers.go
+++ b/x/delegation/types/expected_keepers.go
@@ -31,4 +31,5 @@ type StakersKeeper interface {
 	GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string) (val []*stakerstypes.Valaccount)
 	GetPoolCount(ctx sdk.Context, stakerAddress string) (poolCount uint64)
 	GetActiveStakers(ctx sdk.Context) []string
+	GetAllStakers(ctx sdk.Context) (list []stakerstypes.Staker)
 }
-- 
2.43.0


From b0d19c1e8a286cd62fa95612cf06c1a62718f823 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 16/22] fix: do not assume that every address has 43 characters
 when parsing keys

---
 x/delegation/keeper/getters_delegator.go               | 2 +-
 x/delegation/keeper/getters_index_stakers.go           | 4 ++--
 x/delegation/keeper/getters_redelegation.go            | 8 ++++++--
 x/query/keeper/grpc_account_assets.go                  | 2 +-
 x/query/keeper/grpc_delegation_stakers_by_delegator.go | 2 +-
 x/stakers/keeper/getters_valaccount.go                 | 2 +-
 6 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/x/delegation/keeper/getters_delegator.go b/x/delegation/keeper/getters_delegator.go
index 67c1a57..82b0279 100644
--- a/x/delegation/keeper/getters_delegator.go
+++ b/x/delegation/keeper/getters_delegator.go
@@ -105,7 +105,7 @@ func (k Keeper) GetStakersByDelegator(ctx sdk.Context, delegator string) (list [
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		staker := string(iterator.Key()[43 : 43+43])
+		staker := string(iterator.Key()[len(delegator):])
 		list = append(list, staker)
 	}
 	return
diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 4974608..927babb 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -98,7 +98,7 @@ func (k Keeper) GetPaginatedStakersByDelegation(ctx sdk.Context, pagination *que
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
 
 	pageRes, err := query.FilteredPaginate(store, pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
-		address := string(key[8 : 8+43])
+		address := string(key[8:])
 		return accumulator(address, accumulate), nil
 	})
 	if err != nil {
@@ -132,7 +132,7 @@ func (k Keeper) GetPaginatedInactiveStakersByDelegation(ctx sdk.Context, paginat
 	store := prefix.NewStore(storeAdapter, types.StakerIndexKeyPrefix)
 
 	pageRes, err := query.FilteredPaginate(store, pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
-		address := string(key[8 : 8+43])
+		address := string(key[8:])
 		if k.stakersKeeper.GetPoolCount(ctx, address) > 0 {
 			return false, nil
 		}
diff --git a/x/delegation/keeper/getters_redelegation.go b/x/delegation/keeper/getters_redelegation.go
index f439933..e5e7f85 100644
--- a/x/delegation/keeper/getters_redelegation.go
+++ b/x/delegation/keeper/getters_redelegation.go
@@ -53,9 +53,13 @@ func (k Keeper) GetAllRedelegationCooldownEntries(ctx sdk.Context) (list []types
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
+		// the key consists of the address followed by the 8 byte creation date
+		key := iterator.Key()
+		addressLength := len(key) - 8
+
 		val := types.RedelegationCooldown{
-			Address:      string(iterator.Key()[0:43]),
-			CreationDate: binary.BigEndian.Uint64(iterator.Key()[43:51]),
+			Address:      string(key[:addressLength]),
+			CreationDate: binary.BigEndian.Uint64(key[addressLength:]),
 		}
 		list = append(list, val)
 	}
diff --git a/x/query/keeper/grpc_account_assets.go b/x/query/keeper/grpc_account_assets.go
index 064cf24..44015e7 100644
--- a/x/query/keeper/grpc_account_assets.go
+++ b/x/query/keeper/grpc_account_assets.go
@@ -53,7 +53,7 @@ func (k Keeper) AccountAssets(goCtx context.Context, req *types.QueryAccountAsse
 
 	for ; delegatorIterator.Valid(); delegatorIterator.Next() {
 
-		staker := string(delegatorIterator.Key()[0:43])
+		staker := string(delegatorIterator.Key())
 
 		response.ProtocolDelegation += k.delegationKeeper.GetDelegationAmountOfDelegator(ctx, staker, req.Address)
 		response.ProtocolRewards = response.ProtocolRewards.Add(k.delegationKeeper.GetOutstandingRewards(ctx, staker, req.Address)...)
diff --git a/x/query/keeper/grpc_delegation_stakers_by_delegator.go b/x/query/keeper/grpc_delegation_stakers_by_delegator.go
index ff91996..3f6e8d3 100644
--- a/x/query/keeper/grpc_delegation_stakers_by_delegator.go
+++ b/x/query/keeper/grpc_delegation_stakers_by_delegator.go
@@ -28,7 +28,7 @@ func (k Keeper) StakersByDelegator(goCtx context.Context, req *types.QueryStaker
 
 	pageRes, err := query.FilteredPaginate(delegatorStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		if accumulate {
-			staker := string(key[0:43])
+			staker := string(key)
 
 			stakers = append(stakers, types.DelegationForStakerResponse{
 				Staker:           k.GetFullStaker(ctx, staker),
diff --git a/x/stakers/keeper/getters_valaccount.go b/x/stakers/keeper/getters_valaccount.go
index ac461a5..18dbff1 100644
--- a/x/stakers/keeper/getters_valaccount.go
+++ b/x/stakers/keeper/getters_valaccount.go
@@ -62,7 +62,7 @@ func (k Keeper) GetValaccountsFromStaker(ctx sdk.Context, stakerAddress string)
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		poolId := binary.BigEndian.Uint64(iterator.Key()[43 : 43+8])
+		poolId := binary.BigEndian.Uint64(iterator.Key()[len(stakerAddress):])
 		valaccount, valaccountFound := k.GetValaccount(ctx, poolId, stakerAddress)
 
 		if valaccountFound {
-- 
2.43.0


From 31fa7fcc91a00a6ff7760b22910e76202ce3d6e7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 17/22] fix: compute the minimum fee correctly for gas limits
 above 2^63

---
 x/global/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/global/utils.go b/x/global/utils.go
index 3584957..f4a7039 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -64,7 +64,7 @@ func BuildTxFeeChecker(ctx sdk.Context, fk keeper.Keeper, sk *stakingKeeper.Keep
 
 		// Determine the required fees by multiplying each required minimum gas
 		// price by the gas limit, where fee = ceil(minGasPrice * gasLimit).
-		glDec := sdkmath.LegacyNewDec(int64(gas))
+		glDec := sdkmath.LegacyNewDecFromInt(sdkmath.NewIntFromUint64(gas))
 		for i, gp := range consensusMinGasPrices {
 			fee := gp.Amount.Mul(glDec)
 			requiredFees[i] = sdk.NewCoin(gp.Denom, fee.Ceil().RoundInt())
-- 
2.43.0


From b86e6d870b4db1d972c5f51a11b5aa60f0f7aca5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 18/22] fix: do not use a fee grant a second time when
 refunding fees

---
 x/global/post.go  |  5 +----
 x/global/utils.go | 23 ++++++-----------------
 2 files changed, 7 insertions(+), 21 deletions(-)

diff --git a/x/global/post.go b/x/global/post.go
index a4a7073..c324f05 100644
--- a/x/global/post.go
+++ b/x/global/post.go
@@ -70,10 +70,7 @@ func (rfd RefundFeeDecorator) PostHandle(ctx sdk.Context, tx sdk.Tx, simulate bo
 	}
 
 	// Send the refund back to this transaction's fee payer.
-	account, err := GetFeeAccount(ctx, feeTx, rfd.feeGrantKeeper)
-	if err != nil {
-		return ctx, err
-	}
+	account := GetFeeAccount(feeTx)
 	err = rfd.bankKeeper.SendCoinsFromModuleToAccount(ctx, authTypes.FeeCollectorName, account, refund)
 	if err != nil {
 		return ctx, err
diff --git a/x/global/utils.go b/x/global/utils.go
index f4a7039..746acf3 100644
--- a/x/global/utils.go
+++ b/x/global/utils.go
@@ -1,7 +1,6 @@
 package global
 
 import (
-	"bytes"
 	"math"
 
 	sdkmath "cosmossdk.io/math"
@@ -12,30 +11,20 @@ import (
 
 	// Auth
 	"github.com/cosmos/cosmos-sdk/x/auth/ante"
-	// FeeGrant
-	feeGrantKeeper "cosmossdk.io/x/feegrant/keeper"
 	// Global
 	"github.com/KYVENetwork/chain/x/global/keeper"
 	// Staking
 	stakingKeeper "github.com/cosmos/cosmos-sdk/x/staking/keeper"
 )
 
-func GetFeeAccount(ctx sdk.Context, tx sdk.FeeTx, feeGrantKeeper feeGrantKeeper.Keeper) (sdk.AccAddress, error) {
-	fee := tx.GetFee()
-	feePayer := tx.FeePayer()
-	feeGranter := tx.FeeGranter()
-
-	account := feePayer
-	if feeGranter != nil && !bytes.Equal(feeGranter, feePayer) {
-		err := feeGrantKeeper.UseGrantedFees(ctx, feeGranter, feePayer, fee, tx.GetMsgs())
-		if err != nil {
-			return nil, sdkErrors.Wrapf(err, "%s does not not allow to pay fees for %s", feeGranter, feePayer)
-		}
-
-		account = feeGranter
+// GetFeeAccount returns the account which paid the fees of the given transaction.
+// The ante handler already checked and used the fee allowance if there is a fee granter.
+func GetFeeAccount(tx sdk.FeeTx) sdk.AccAddress {
+	if feeGranter := tx.FeeGranter(); feeGranter != nil {
+		return feeGranter
 	}
 
-	return account, nil
+	return tx.FeePayer()
 }
 
 // BuildTxFeeChecker ensures that the configured minimum gas price is met.
-- 
2.43.0


From 309b7a7b569c1807288c01dce12b0fabcc32ebad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 19/22] fix: list validators by delegation from the requested
 page on

---
 x/delegation/keeper/getters_index_stakers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/delegation/keeper/getters_index_stakers.go b/x/delegation/keeper/getters_index_stakers.go
index 927babb..6eceb12 100644
--- a/x/delegation/keeper/getters_index_stakers.go
+++ b/x/delegation/keeper/getters_index_stakers.go
@@ -28,11 +28,13 @@ func arrayPagination(slice []string, pagination *query.PageRequest) ([]string, *
 		return nil, nil, err
 	}
 
-	resultLength := util.MinInt(limit, len(slice)-page*limit)
+	// pages are counted from one
+	start := util.MinInt((page-1)*limit, len(slice))
+	resultLength := util.MinInt(limit, len(slice)-start)
 	result := make([]string, resultLength)
 
 	for i := 0; i < resultLength; i++ {
-		result[i] = slice[page*limit+i]
+		result[i] = slice[start+i]
 	}
 
 	pageRes := &query.PageResponse{
-- 
2.43.0


From 732b40f5f2eaa370011e148de2dcd60e9028366a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 20/22] fix: report no available redelegation slots if more
 than the maximum are used

---
 x/query/keeper/grpc_account_redelegation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/query/keeper/grpc_account_redelegation.go b/x/query/keeper/grpc_account_redelegation.go
index d6bac7d..6016803 100644
--- a/x/query/keeper/grpc_account_redelegation.go
+++ b/x/query/keeper/grpc_account_redelegation.go
@@ -31,8 +31,14 @@ func (k Keeper) AccountRedelegation(goCtx context.Context, req *types.QueryAccou
 		}
 	}
 
+	// There can be more used slots than the current maximum allows, if it got lowered by the governance.
+	availableSlots := uint64(0)
+	if maxAmount := k.delegationKeeper.GetRedelegationMaxAmount(ctx); usedSlots < maxAmount {
+		availableSlots = maxAmount - usedSlots
+	}
+
 	return &types.QueryAccountRedelegationResponse{
 		RedelegationCooldownEntries: redelegationEntries,
-		AvailableSlots:              k.delegationKeeper.GetRedelegationMaxAmount(ctx) - usedSlots,
+		AvailableSlots:              availableSlots,
 	}, nil
 }
-- 
2.43.0


From 810e14a946cbcb9b45cb4e2ed68e50c797b9ca63 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:44 +0000
Subject: [PATCH 21/22] fix: announce the refunded coins of a displaced funding

---
 x/funders/keeper/logic_funders.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/funders/keeper/logic_funders.go b/x/funders/keeper/logic_funders.go
index 4da6393..a8b45db 100644
--- a/x/funders/keeper/logic_funders.go
+++ b/x/funders/keeper/logic_funders.go
@@ -224,6 +224,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 		return err
 	}
 
+	refundedAmounts := lowestFunding.Amounts.String()
 	lowestFunding.Amounts = sdk.NewCoins()
 	lowestFunding.AmountsPerBundle = sdk.NewCoins()
 	fundingState.SetInactive(lowestFunding)
@@ -233,7 +234,7 @@ func (k Keeper) ensureFreeSlot(ctx sdk.Context, newFunding *types.Funding, fundi
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventDefundPool{
 		PoolId:  fundingState.PoolId,
 		Address: lowestFunding.FunderAddress,
-		Amounts: lowestFunding.Amounts.String(),
+		Amounts: refundedAmounts,
 	})
 
 	return nil
-- 
2.43.0


From 5aba5d95c1028e5337c65195bfffc770285c23f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:53:44 +0000
Subject: [PATCH 22/22] fix: announce the time a runtime upgrade is really
 scheduled at

---
 x/pool/keeper/msg_server_schedule_runtime_upgrade.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
index 3b8f1ab..a6a7951 100644
--- a/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
+++ b/x/pool/keeper/msg_server_schedule_runtime_upgrade.go
@@ -61,7 +61,7 @@ func (k msgServer) ScheduleRuntimeUpgrade(
 	_ = ctx.EventManager().EmitTypedEvent(&types.EventRuntimeUpgradeScheduled{
 		Runtime:       req.Runtime,
 		Version:       req.Version,
-		ScheduledAt:   req.ScheduledAt,
+		ScheduledAt:   scheduledAt,
 		Duration:      req.Duration,
 		Binaries:      req.Binaries,
 		AffectedPools: affectedPools,
-- 
2.43.0

