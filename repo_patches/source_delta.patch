From 829a7df241ec45d980bc3c4acc3cf9caeec944b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 01/11] fix: do not panic when an account with a fully vested
 schedule is slashed

---
 pallets/on-slash-vesting/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..3c9f0c1 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -39,6 +39,10 @@ where
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
+				// The schedule ended already, so it locks nothing anymore.
+				if duration == 0 {
+					continue;
+				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
 				if new_schedule.is_valid() {
-- 
2.43.0


From 6e5fa905d39608b2c80baf3f31b245e1b7df7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 02/11] fix: keep the starting block of a vesting schedule that
 is slashed before it starts

---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 3c9f0c1..60cdbbc 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -36,7 +36,9 @@ where
 			let now = T::BlockNumberProvider::current_block_number();
 			for schedule in vesting_schedules {
 				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
-				let start_block = T::BlockNumberToBalance::convert(now);
+				// A schedule which has not started yet keeps its starting block.
+				let start = now.max(schedule.starting_block());
+				let start_block = T::BlockNumberToBalance::convert(start);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
 				// The schedule ended already, so it locks nothing anymore.
@@ -44,7 +46,7 @@ where
 					continue;
 				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
-				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
+				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, start);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
 					let push_result = new_vesting_schedules.try_push(new_schedule);
-- 
2.43.0


From fb6368f65e42d76d3e70916b9de40a4b680cf308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 03/11] fix: report everything as releasable when the vested
 amount overflows

---
 pallets/linear-release/src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/types.rs b/pallets/linear-release/src/types.rs
index 09ca6e6..3b95413 100644
--- a/pallets/linear-release/src/types.rs
+++ b/pallets/linear-release/src/types.rs
@@ -109,7 +109,8 @@ where
 		let vested_block_count = BlockNumberToBalance::convert(time_range);
 		// TODO: Find a way to improve this.
 		// Return amount that is releasable in vesting.
-		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(Zero::zero());
+		// An overflow means that the schedule ended long ago, so that everything is releasable.
+		let res = vested_block_count.checked_mul(&self.per_block()).unwrap_or(self.locked);
 		res.min(self.locked)
 	}
 
-- 
2.43.0


From 3cf049caa96ae6ebb348f642df49c8093620ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 04/11] fix: remove all vesting schedules of an account that
 has completed ones

---
 pallets/linear-release/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index bb89b64..74a00ff 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -373,7 +373,8 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 	fn remove_all_vesting_schedules(who: &T::AccountId, reason: ReasonOf<T>) -> DispatchResult {
 		let schedules_count = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?.len();
 		for _ in 0..schedules_count {
-			let current_schedules = Self::vesting(who, reason).ok_or(Error::<T>::NotVesting)?;
+			// Removing a schedule also drops the completed ones, so there can be fewer than counted.
+			let Some(current_schedules) = Self::vesting(who, reason) else { break };
 			let remove_action = VestingAction::Remove { index: 0usize };
 			let (schedules, locked_now) = Self::exec_action(current_schedules.to_vec(), remove_action)?;
 			Self::write_vesting_schedule(who, schedules, reason)?;
-- 
2.43.0


From 79cbfa34d236d0d1e27645788f8bfee2c9c59c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 05/11] fix: end the funding of a sold out project only from
 its last round

---
 pallets/funding/src/functions/5_funding_end.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..e78118f 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,10 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
-				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+			// Only the last funding round can end
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// due to running out of CTs, or the round being over
+				(remaining_cts == Zero::zero() || project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From d2187ecbfcf02256f39aba5a98468bd5071a8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 06/11] fix: confirm the offchain migration of a participant
 only once

---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..cf37518 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -369,7 +369,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					!matches!(current_status, MigrationStatus::Confirmed)) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From 20e1e581e355106f30b73dd9f9c839c92ef7c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 07/11] fix: release a bond that is settled after its vesting
 time is over

---
 pallets/funding/src/functions/6_settlement.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/6_settlement.rs b/pallets/funding/src/functions/6_settlement.rs
index 32bacb5..e52e9b7 100644
--- a/pallets/funding/src/functions/6_settlement.rs
+++ b/pallets/funding/src/functions/6_settlement.rs
@@ -416,7 +416,17 @@ impl<T: Config> Pallet<T> {
 		// Calculate the vesting info and add the release schedule
 		let vesting_info = Self::calculate_vesting_info(participant, multiplier, plmc_amount)?;
 
-		if vesting_info.duration == 1u32.into() {
+		// A schedule whose time is already over has nothing left to lock, and would not be stored.
+		let now = <frame_system::Pallet<T>>::block_number();
+		let already_vested = pallet_linear_release::VestingInfo::new(
+			vesting_info.total_amount,
+			vesting_info.amount_per_block,
+			funding_end_block,
+		)
+		.locked_at::<BlockNumberToBalanceOf<T>>(now)
+		.is_zero();
+
+		if vesting_info.duration == 1u32.into() || already_vested {
 			Self::release_participation_bond_for(participant, vesting_info.total_amount)?;
 		} else {
 			VestingOf::<T>::add_release_schedule(
-- 
2.43.0


From 88674b10285c79a61ca2d2bc150eedebdd421c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:58 +0000
Subject: [PATCH 08/11] fix: do not panic when a chain reports an empty holding

---
 pallets/funding/src/functions/7_ct_migration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..7f00445 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,9 +345,9 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
+				let asset_1 = assets.first().cloned();
 				match asset_1 {
-					Asset { id: AssetId(location), fun: Fungible(amount) }
+					Some(Asset { id: AssetId(location), fun: Fungible(amount) })
 						if amount >= ct_sold_as_u128 &&
 							get_parachain_id(&location.clone()).ok_or(Error::<T>::WrongParaId)? ==
 								u32::from(para_id) =>
-- 
2.43.0


From 79edaad45080b9c3a55dc73c4388cf6ad7841b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 09/11] fix: free the issuer's own identity when a project is
 removed

---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..1c28c74 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, _did: Did) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
-- 
2.43.0


From a9a06cc215c5c60bc1efd1c8b79f95e0179f7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 10/11] fix: schedule a smaller delegation with its own delay

---
 pallets/parachain-staking/src/delegation_requests.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/parachain-staking/src/delegation_requests.rs b/pallets/parachain-staking/src/delegation_requests.rs
index c2fe8b6..c0ae055 100644
--- a/pallets/parachain-staking/src/delegation_requests.rs
+++ b/pallets/parachain-staking/src/delegation_requests.rs
@@ -132,7 +132,7 @@ impl<T: Config> Pallet<T> {
 		ensure!(decrease_amount <= max_subtracted_amount, <Error<T>>::DelegatorBondBelowMin);
 
 		let now = <Round<T>>::get().current;
-		let when = now.saturating_add(T::RevokeDelegationDelay::get());
+		let when = now.saturating_add(T::DelegationBondLessDelay::get());
 		scheduled_requests.push(ScheduledRequest {
 			delegator: delegator.clone(),
 			action: DelegationAction::Decrease(decrease_amount),
-- 
2.43.0


From 98370ce216a185fdf5bf97bf78069abefe6d788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:14 +0000
Subject: [PATCH 11/11] fix: keep the total of the uncounted delegations when
 one is reduced

---
 pallets/parachain-staking/src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/parachain-staking/src/types.rs b/pallets/parachain-staking/src/types.rs
index 96b9850..8cb4a44 100644
--- a/pallets/parachain-staking/src/types.rs
+++ b/pallets/parachain-staking/src/types.rs
@@ -1059,6 +1059,7 @@ impl<
 			})
 			.collect();
 		ensure!(in_bottom, Error::<T>::DelegationDNE);
+		bottom_delegations.total = bottom_delegations.total.saturating_sub(less);
 		bottom_delegations.sort_greatest_to_least();
 		self.reset_bottom_data::<T>(&bottom_delegations);
 		<BottomDelegations<T>>::insert(candidate, bottom_delegations);
-- 
2.43.0

