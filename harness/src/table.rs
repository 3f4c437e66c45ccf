//! generated by tools/table.sh
pub const CONTRACTS: &[(&str, fn())] = &[
	#[cfg(feature = "gov")]
	("dem::vc_d01_vote", crate::dem::vc_d01_vote),
	#[cfg(feature = "gov")]
	("dem::vc_d02_remove_vote", crate::dem::vc_d02_remove_vote),
	#[cfg(feature = "gov")]
	("dem::vc_d02_remove_other_vote", crate::dem::vc_d02_remove_other_vote),
	#[cfg(feature = "gov")]
	("dem::vc_d03_conviction", crate::dem::vc_d03_conviction),
	#[cfg(feature = "gov")]
	("dem::vc_d03_locked_if", crate::dem::vc_d03_locked_if),
	#[cfg(feature = "gov")]
	("dem::vc_d03_vote_codec", crate::dem::vc_d03_vote_codec),
	#[cfg(feature = "gov")]
	("dem::vc_d03_vote_decode", crate::dem::vc_d03_vote_decode),
	#[cfg(feature = "gov")]
	("dem::vc_d04_super_majority_approve", crate::dem::vc_d04_super_majority_approve),
	#[cfg(feature = "gov")]
	("dem::vc_d04_super_majority_against", crate::dem::vc_d04_super_majority_against),
	#[cfg(feature = "gov")]
	("dem::vc_d04_simple_majority", crate::dem::vc_d04_simple_majority),
	#[cfg(feature = "gov")]
	("dem::vc_d05_delegate", crate::dem::vc_d05_delegate),
	#[cfg(feature = "gov")]
	("dem::vc_d05_redelegate_same", crate::dem::vc_d05_redelegate_same),
	#[cfg(feature = "gov")]
	("dem::vc_d05_redelegate_same_tally", crate::dem::vc_d05_redelegate_same_tally),
	#[cfg(feature = "gov")]
	("dem::vc_d05_redelegate_move", crate::dem::vc_d05_redelegate_move),
	#[cfg(feature = "gov")]
	("dem::vc_d05_redelegate_move_tally_from", crate::dem::vc_d05_redelegate_move_tally_from),
	#[cfg(feature = "gov")]
	("dem::vc_d05_redelegate_move_tally_to", crate::dem::vc_d05_redelegate_move_tally_to),
	#[cfg(feature = "gov")]
	("dem::vc_d05_redelegate_move_tally_both", crate::dem::vc_d05_redelegate_move_tally_both),
	#[cfg(feature = "gov")]
	("dem::vc_d05_not_to_oneself", crate::dem::vc_d05_not_to_oneself),
	#[cfg(feature = "gov")]
	("dem::vc_d05_undelegate", crate::dem::vc_d05_undelegate),
	#[cfg(feature = "gov")]
	("dem::vc_d06_unlock", crate::dem::vc_d06_unlock),
	#[cfg(feature = "gov")]
	("dem2::vc_d07_propose", crate::dem2::vc_d07_propose),
	#[cfg(feature = "gov")]
	("dem2::vc_d07_propose_deposit", crate::dem2::vc_d07_propose_deposit),
	#[cfg(feature = "gov")]
	("dem2::vc_d07_second", crate::dem2::vc_d07_second),
	#[cfg(feature = "gov")]
	("dem2::vc_d07_second_deposit", crate::dem2::vc_d07_second_deposit),
	#[cfg(feature = "gov")]
	("dem2::vc_d08_external", crate::dem2::vc_d08_external),
	#[cfg(feature = "gov")]
	("dem2::vc_d08_public", crate::dem2::vc_d08_public),
	#[cfg(feature = "gov")]
	("dem2::vc_d08_refund", crate::dem2::vc_d08_refund),
	#[cfg(feature = "gov")]
	("dem2::vc_d08_highest", crate::dem2::vc_d08_highest),
	#[cfg(feature = "gov")]
	("dem2::vc_d08_none", crate::dem2::vc_d08_none),
	#[cfg(feature = "gov")]
	("dem2::vc_d09_tally", crate::dem2::vc_d09_tally),
	#[cfg(feature = "gov")]
	("dem2::vc_d09_launch_block", crate::dem2::vc_d09_launch_block),
	#[cfg(feature = "gov")]
	("dem2::vc_d09_mark", crate::dem2::vc_d09_mark),
	#[cfg(feature = "gov")]
	("dem2::vc_d10_external_propose", crate::dem2::vc_d10_external_propose),
	#[cfg(feature = "gov")]
	("dem2::vc_d10_external_propose_majority", crate::dem2::vc_d10_external_propose_majority),
	#[cfg(feature = "gov")]
	("dem2::vc_d10_external_propose_default", crate::dem2::vc_d10_external_propose_default),
	#[cfg(feature = "gov")]
	("dem2::vc_d10_veto", crate::dem2::vc_d10_veto),
	#[cfg(feature = "gov")]
	("dem2::vc_d11_fast_track", crate::dem2::vc_d11_fast_track),
	#[cfg(feature = "gov")]
	("dem2::vc_d12_cancel_referendum", crate::dem2::vc_d12_cancel_referendum),
	#[cfg(feature = "gov")]
	("dem2::vc_d12_emergency_cancel", crate::dem2::vc_d12_emergency_cancel),
	#[cfg(feature = "gov")]
	("dem2::vc_d12_clear_public_proposals", crate::dem2::vc_d12_clear_public_proposals),
	#[cfg(feature = "gov")]
	("dem2::vc_d12_cancel_proposal", crate::dem2::vc_d12_cancel_proposal),
	#[cfg(feature = "gov")]
	("dem2::vc_d12_blacklist", crate::dem2::vc_d12_blacklist),
	#[cfg(feature = "gov")]
	("dem2::vc_d12_blacklist_queued", crate::dem2::vc_d12_blacklist_queued),
	#[cfg(feature = "gov")]
	("dem2::vc_d13_signed_only", crate::dem2::vc_d13_signed_only),
	#[cfg(feature = "gov")]
	("dem2::vc_d14_set_metadata", crate::dem2::vc_d14_set_metadata),
	#[cfg(feature = "polimec")]
	("disp::vc_c01_credential", crate::disp::vc_c01_credential),
	#[cfg(feature = "polimec")]
	("disp::vc_g01_dispense", crate::disp::vc_g01_dispense),
	#[cfg(feature = "polimec")]
	("disp::vc_g01_amount", crate::disp::vc_g01_amount),
	#[cfg(feature = "polimec")]
	("disp::vc_g02_dispatch", crate::disp::vc_g02_dispatch),
	#[cfg(feature = "polimec")]
	("disp::vc_g02_validate", crate::disp::vc_g02_validate),
	#[cfg(feature = "gov")]
	("elect::vc_e01_vote", crate::elect::vc_e01_vote),
	#[cfg(feature = "gov")]
	("elect::vc_e01_vote_accepted", crate::elect::vc_e01_vote_accepted),
	#[cfg(feature = "gov")]
	("elect::vc_e01_remove_voter", crate::elect::vc_e01_remove_voter),
	#[cfg(feature = "gov")]
	("elect::vc_e02_submit", crate::elect::vc_e02_submit),
	#[cfg(feature = "gov")]
	("elect::vc_e02_renounce_candidate", crate::elect::vc_e02_renounce_candidate),
	#[cfg(feature = "gov")]
	("elect::vc_e02_renounce_runner_up", crate::elect::vc_e02_renounce_runner_up),
	#[cfg(feature = "gov")]
	("elect::vc_e02_renounce_signed", crate::elect::vc_e02_renounce_signed),
	#[cfg(feature = "gov")]
	("elect::vc_e03_renounce_member", crate::elect::vc_e03_renounce_member),
	#[cfg(feature = "gov")]
	("elect::vc_e03_remove_member", crate::elect::vc_e03_remove_member),
	#[cfg(feature = "gov")]
	("elect::vc_e04_clean", crate::elect::vc_e04_clean),
	#[cfg(feature = "fund")]
	("fund::vc_f06_end_funding", crate::fund::vc_f06_end_funding),
	#[cfg(feature = "fund")]
	("fund::vc_f08_finish", crate::fund::vc_f08_finish),
	#[cfg(feature = "fund")]
	("fund::vc_f02_start", crate::fund::vc_f02_start),
	#[cfg(feature = "fund")]
	("fund::vc_f02_end", crate::fund::vc_f02_end),
	#[cfg(feature = "fund")]
	("fund::vc_f02_evaluate", crate::fund::vc_f02_evaluate),
	#[cfg(feature = "fund")]
	("fund::vc_f07_start", crate::fund::vc_f07_start),
	#[cfg(feature = "fund")]
	("fund::vc_f07_evaluation", crate::fund::vc_f07_evaluation),
	#[cfg(feature = "fund")]
	("fund::vc_f07_done", crate::fund::vc_f07_done),
	#[cfg(feature = "fund")]
	("fund::vc_f07_contribution", crate::fund::vc_f07_contribution),
	#[cfg(feature = "fund")]
	("fund::vc_f07_bid_won", crate::fund::vc_f07_bid_won),
	#[cfg(feature = "fund")]
	("fund::vc_f07_bid_otm", crate::fund::vc_f07_bid_otm),
	#[cfg(feature = "fund")]
	("fund::vc_f07_bid_lost", crate::fund::vc_f07_bid_lost),
	#[cfg(feature = "fund")]
	("fund::vc_f05_classic", crate::fund::vc_f05_classic),
	#[cfg(feature = "fund")]
	("fund::vc_f05_otm", crate::fund::vc_f05_otm),
	#[cfg(feature = "fund")]
	("fund::vc_f05_convert", crate::fund::vc_f05_convert),
	#[cfg(feature = "fund")]
	("fund::vc_f08_start", crate::fund::vc_f08_start),
	#[cfg(feature = "fund")]
	("fund::vc_f08_confirm", crate::fund::vc_f08_confirm),
	#[cfg(feature = "fund")]
	("fund::vc_f08_response", crate::fund::vc_f08_response),
	#[cfg(feature = "fund")]
	("fund::vc_f08_send", crate::fund::vc_f08_send),
	#[cfg(feature = "fund")]
	("fund::vc_f01_create", crate::fund::vc_f01_create),
	#[cfg(feature = "fund")]
	("fund::vc_f01_edit", crate::fund::vc_f01_edit),
	#[cfg(feature = "fund")]
	("fund::vc_f01_remove", crate::fund::vc_f01_remove),
	#[cfg(feature = "fund")]
	("fund::vc_f01_valid", crate::fund::vc_f01_valid),
	#[cfg(feature = "fund")]
	("fund::vc_f03_bid", crate::fund::vc_f03_bid),
	#[cfg(feature = "fund")]
	("fund::vc_f03_spill", crate::fund::vc_f03_spill),
	#[cfg(feature = "fund")]
	("fund::vc_f03_otm", crate::fund::vc_f03_otm),
	#[cfg(feature = "fund")]
	("fund::vc_f04_end", crate::fund::vc_f04_end),
	#[cfg(feature = "fund")]
	("fund::vc_f04_wap", crate::fund::vc_f04_wap),
	#[cfg(feature = "polimec")]
	("lin::vc_l01_schedule", crate::lin::vc_l01_schedule),
	#[cfg(feature = "polimec")]
	("lin::vc_l01_vest", crate::lin::vc_l01_vest),
	#[cfg(feature = "polimec")]
	("lin::vc_l01_amount", crate::lin::vc_l01_amount),
	#[cfg(feature = "polimec")]
	("lin::vc_l01_no_schedules", crate::lin::vc_l01_no_schedules),
	#[cfg(feature = "polimec")]
	("lin::vc_l02_transfer", crate::lin::vc_l02_transfer),
	#[cfg(feature = "polimec")]
	("lin::vc_l02_add", crate::lin::vc_l02_add),
	#[cfg(feature = "polimec")]
	("lin::vc_l02_set", crate::lin::vc_l02_set),
	#[cfg(feature = "polimec")]
	("lin::vc_l03_merge", crate::lin::vc_l03_merge),
	#[cfg(feature = "polimec")]
	("lin::vc_l04_amounts", crate::lin::vc_l04_amounts),
	#[cfg(feature = "polimec")]
	("lin::vc_l04_scheduled", crate::lin::vc_l04_scheduled),
	#[cfg(feature = "polimec")]
	("lin::vc_l04_amounts_none", crate::lin::vc_l04_amounts_none),
	#[cfg(feature = "polimec")]
	("lin::vc_l04_remove", crate::lin::vc_l04_remove),
	#[cfg(feature = "polimec")]
	("lin::vc_l04_remove_all", crate::lin::vc_l04_remove_all),
	#[cfg(feature = "polimec")]
	("prox::vc_p02_bonds", crate::prox::vc_p02_bonds),
	#[cfg(feature = "polimec")]
	("prox::vc_p02_release_due", crate::prox::vc_p02_release_due),
	#[cfg(feature = "polimec")]
	("prox::vc_p02_fees", crate::prox::vc_p02_fees),
	#[cfg(feature = "polimec")]
	("prox::vc_p02_set_release", crate::prox::vc_p02_set_release),
	#[cfg(feature = "polimec")]
	("prox::vc_p01_bond", crate::prox::vc_p01_bond),
	#[cfg(feature = "polimec")]
	("prox::vc_p01_refund", crate::prox::vc_p01_refund),
	#[cfg(feature = "polimec")]
	("prox::vc_p01_fee", crate::prox::vc_p01_fee),
	#[cfg(feature = "recv")]
	("recv::vc_r01_one", crate::recv::vc_r01_one),
	#[cfg(feature = "recv")]
	("recv::vc_r01_two", crate::recv::vc_r01_two),
	#[cfg(feature = "recv")]
	("recv::vc_r01_foreign", crate::recv::vc_r01_foreign),
	#[cfg(feature = "gov")]
	("slash::vc_s01_slash", crate::slash::vc_s01_slash),
	#[cfg(feature = "gov")]
	("slash::vc_s01_no_schedules", crate::slash::vc_s01_no_schedules),
	#[cfg(feature = "gov")]
	("slash::vc_s01_never_faster", crate::slash::vc_s01_never_faster),
	#[cfg(feature = "gov")]
	("slash::vc_s01_every_handler", crate::slash::vc_s01_every_handler),
	#[cfg(feature = "stake")]
	("stake::vc_k01_expectations", crate::stake::vc_k01_expectations),
	#[cfg(feature = "stake")]
	("stake::vc_k01_inflation", crate::stake::vc_k01_inflation),
	#[cfg(feature = "stake")]
	("stake::vc_k01_blocks", crate::stake::vc_k01_blocks),
	#[cfg(feature = "stake")]
	("stake::vc_k01_selected", crate::stake::vc_k01_selected),
	#[cfg(feature = "stake")]
	("stake::vc_k01_commission", crate::stake::vc_k01_commission),
	#[cfg(feature = "stake")]
	("stake::vc_k01_bond", crate::stake::vc_k01_bond),
	#[cfg(feature = "stake")]
	("stake::vc_k02_offline", crate::stake::vc_k02_offline),
	#[cfg(feature = "stake")]
	("stake::vc_k02_online", crate::stake::vc_k02_online),
	#[cfg(feature = "stake")]
	("stake::vc_k02_leave", crate::stake::vc_k02_leave),
	#[cfg(feature = "stake")]
	("stake::vc_k02_stay", crate::stake::vc_k02_stay),
	#[cfg(feature = "stake")]
	("stake::vc_k02_more", crate::stake::vc_k02_more),
	#[cfg(feature = "stake")]
	("stake::vc_k02_less", crate::stake::vc_k02_less),
	#[cfg(feature = "stake")]
	("stake::vc_k02_lessened", crate::stake::vc_k02_lessened),
	#[cfg(feature = "stake")]
	("stake::vc_k02_cancel", crate::stake::vc_k02_cancel),
	#[cfg(feature = "stake")]
	("stake::vc_k02_join", crate::stake::vc_k02_join),
	#[cfg(feature = "stake")]
	("stake::vc_k03_revoke", crate::stake::vc_k03_revoke),
	#[cfg(feature = "stake")]
	("stake::vc_k03_less", crate::stake::vc_k03_less),
	#[cfg(feature = "stake")]
	("stake::vc_k03_cancel", crate::stake::vc_k03_cancel),
	#[cfg(feature = "stake")]
	("stake::vc_k04_decreased", crate::stake::vc_k04_decreased),
	#[cfg(feature = "stake")]
	("stake::vc_k04_increased", crate::stake::vc_k04_increased),
	#[cfg(feature = "stake")]
	("stake::vc_k04_revoked", crate::stake::vc_k04_revoked),
	#[cfg(feature = "stake")]
	("stake::vc_k04_delegate", crate::stake::vc_k04_delegate),
	#[cfg(feature = "stake")]
	("stake::vc_k04_replace", crate::stake::vc_k04_replace),
];
